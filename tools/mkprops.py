#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
K="crates/minikalman/src/"
ARITH=" (arithmetic read as exact, i.e. up to rounding of the element type)"
def P(id,title,statement,over,text,why,files,mech,observe,state=None):
    return dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=[K+f for f in files],state=state or [],mechanism=[dict(name=a,where=K+b) for a,b in mech],observe_at=observe,hook_needed=None))
props=[
P("C01","Time update: x' = A x and P' = A P A^T + Q",
 "After the linear filter's predict step the state vector equals A·x and the estimate covariance equals A·P·Aᵀ + Q, where x and P are the values before the step"+ARITH+". A and Q are unchanged, for every state count ≥ 1 and whatever the scratch buffers held before.",
 ["inputs","configurations"],"every element type that behaves as an ordered field, every STATES >= 1, all values of A, x, P, Q (symmetric or not) and every prior content of the scratch buffers",
 "The tests run a handful of fixed 1- to 4-state models with fixed numbers; the guarantee is for all dimensions, values and scratch contents.",
 ["kalman/regular.rs","matrix/traits.rs"],[("predict = predict_x; predict_P","kalman/regular.rs"),("mult_rowvector / mult / mult_transb / add_inplace_b","matrix/traits.rs")],
 ["state_vector()","estimate_covariance()"],
 [dict(name="x, P",meaning="state estimate and covariance",where=K+"kalman/regular.rs")]),
P("C02","Tuned time update: P' = A P A^T / lambda^2 + Q",
 "After the tuned predict step with factor λ ≠ 0 (linear or extended filter) the covariance equals A·P·Aᵀ·(1/λ²) + Q, and the state is exactly what the untuned predict step would give"+ARITH+". With λ = 1 the tuned and untuned steps therefore agree.",
 ["inputs"],"all values of A, x, P, Q and every non-zero lambda, every STATES >= 1",
 "The tests call the tuned step with one or two fixed lambdas; the scaling must hold for every lambda and matrix.",
 ["kalman/regular.rs","kalman/extended.rs","matrix/traits.rs"],[("predict_P_tuned","kalman/regular.rs"),("predict_P_tuned","kalman/extended.rs"),("multscale_transb","matrix/traits.rs")],
 ["state_vector()","estimate_covariance()"]),
P("C03","Control input: x' = x + B u and P' = P + B Q B^T",
 "Applying a control input to a filter sets the state to x + B·u and the covariance to P + B·Q·Bᵀ, with Q the control's own noise covariance"+ARITH+"; u, B and Q are unchanged. A control with zero inputs changes neither state nor covariance.",
 ["inputs","configurations"],"every STATES >= 1, every CONTROLS >= 0, all values of x, P, u, B, Q and any scratch content",
 "Tests apply one or two fixed controls; the property quantifies over all dimensions, including the empty one, and all values.",
 ["controls.rs","kalman/regular.rs","matrix/traits.rs"],[("apply_control","controls.rs"),("control","kalman/regular.rs"),("multadd_rowvector / mult / multadd_transb","matrix/traits.rs")],
 ["state_vector()","estimate_covariance()","control accessors"]),
P("C04","Measurement update of the linear filter is the Kalman update",
 "If S = H·P·Hᵀ + R is symmetric and positive definite, then after correct the state is x + K(z − H·x) and the covariance is P − K·H·P with K = P·Hᵀ·S⁻¹, all taken from the values before the step"+ARITH+". The measurement z, the matrices H and R are unchanged and prior contents of the innovation, gain and scratch buffers have no influence.",
 ["inputs","configurations"],"every STATES >= 1, OBSERVATIONS >= 1 (also more observations than states), all x, P, H, z, R with S symmetric positive definite, any scratch content",
 "Tests check a few trajectories against fixed numbers, with one to three observations; only a proof covers every dimension and value.",
 ["observations/regular.rs","kalman/regular.rs","matrix/traits.rs"],[("correct / update_with_innovation","observations/regular.rs"),("cholesky_decompose_lower / invert_l_cholesky","matrix/traits.rs")],
 ["state_vector()","estimate_covariance()","measurement accessors"]),
P("C05","Extended predict: x' = f(x), P' = J P J^T + Q",
 "The extended filter's predict step evaluates the user's transition function once, on the state before the step, makes its output the new state, and sets the covariance to J·P·Jᵀ + Q with J the current transition Jacobian"+ARITH+". J and Q are unchanged.",
 ["inputs","programs"],"every transition function, every STATES >= 1 and all values of x, P, J, Q",
 "The tests use one or two concrete closures; the guarantee is for every closure and matrix.",
 ["kalman/extended.rs","matrix/traits.rs"],[("predict_nonlinear / predict_x_nonlinear / predict_P","kalman/extended.rs")],
 ["state_vector()","estimate_covariance()","arguments passed to the closure"]),
P("C06","Extended correct: innovation z - h(x), Jacobian H",
 "The extended filter's correct step evaluates the user's observation function once, on the state before the step; if S = H·P·Hᵀ + R is symmetric positive definite, the state becomes x + K(z − h(x)) and the covariance P − K·H·P with K = P·Hᵀ·S⁻¹"+ARITH+". z, H and R are unchanged and scratch contents have no influence.",
 ["inputs","programs"],"every observation function, every STATES, OBSERVATIONS >= 1, all x, P, H, z, R with S symmetric positive definite",
 "The tests use one or two concrete closures and dimensions; the guarantee is for all of them.",
 ["observations/extended.rs","kalman/extended.rs","matrix/traits.rs"],[("correct_nonlinear / update_with_innovation","observations/extended.rs"),("correct_nonlinear","kalman/extended.rs")],
 ["state_vector()","estimate_covariance()","arguments passed to the closure"]),
P("C07","A symmetric covariance stays symmetric; correcting never adds variance",
 "If P and the noise covariances are symmetric, the estimate covariance is symmetric after every predict, tuned predict, control and correct step of either filter"+ARITH+". A correct step with symmetric positive definite S never increases a diagonal entry of P, and a predict or control step with Q having a non-negative diagonal contribution never makes a positive semidefinite P lose non-negative diagonal entries.",
 ["inputs","histories"],"all models with symmetric P, Q, R of every dimension and every sequence of steps",
 "The tests never check symmetry over arbitrary models; it is a relation between entries that must hold for all inputs and after any number of steps.",
 ["kalman/regular.rs","kalman/extended.rs","observations/regular.rs","observations/extended.rs","controls.rs","matrix/traits.rs"],[("predict_P / update_with_innovation / apply_control","kalman/regular.rs")],
 ["estimate_covariance()"]),
P("C08","Every matrix product kernel computes the exact product",
 "Each matrix multiplication operation (plain, buffered, by a vector, with transposed second operand, with accumulation, with scaling) writes to its output exactly the corresponding product, sum or scaled product for all compatible dimensions"+ARITH+". Operands are unchanged and no element of the output's buffer beyond rows × columns is touched.",
 ["inputs","configurations"],"all ROWS, COLS, U >= 1, all element values, all prior output contents, buffers longer than needed included",
 "Tests multiply a few fixed 2x3 to 3x3 matrices; index arithmetic errors show only for other shapes.",
 ["matrix/traits.rs"],[("mult, mult_buffered, mult_rowvector, multadd_rowvector, mult_transb, multadd_transb, multscale_transb","matrix/traits.rs")],
 ["output matrix","operands"]),
P("C09","Cholesky decomposition succeeds exactly on decomposable matrices",
 "For a symmetric N×N matrix S the in-place decomposition returns true if and only if a lower-triangular L with positive diagonal and L·Lᵀ = S exists, and then leaves exactly that L in the matrix with zeros above the diagonal"+ARITH+". It returns false for every other matrix, without touching memory beyond the N×N elements.",
 ["inputs"],"all N >= 1 and all symmetric matrices, including singular, indefinite and negative ones",
 "Tests decompose a few fixed matrices; success/failure and exactness must hold for all.",
 ["matrix/traits.rs"],[("cholesky_decompose_lower","matrix/traits.rs")],["return value","matrix contents"]),
P("C10","Inversion from a Cholesky factor gives the inverse",
 "Given a lower-triangular L with non-zero diagonal, the inversion routine writes a symmetric X with (L·Lᵀ)·X = I, whatever X held before and whatever lies above L's diagonal"+ARITH+". L is unchanged.",
 ["inputs"],"all N >= 1, all lower-triangular L with non-zero diagonal, any prior contents of the output",
 "Tests invert a few fixed small matrices; triangular index ranges must be right for every N.",
 ["matrix/traits.rs"],[("invert_l_cholesky","matrix/traits.rs")],["inverse matrix"]),
P("C11","Element access and copies agree on the row-major layout",
 "Every way of reading or writing one element, a row, a column or the whole of a matrix addresses element (r, c) at position r·columns + c of the underlying buffer, and a write changes that element only (its mirror too for the symmetric setter). Row and column copies return exactly the requested row or column, and whole-matrix copies transfer exactly all rows × columns elements.",
 ["inputs","configurations"],"all dimensions >= 1, all valid indices, all contents, buffers longer than needed included",
 "Tests access a few positions of fixed small matrices, mostly row or column 0.",
 ["matrix/row_major.rs","matrix/traits.rs"],[("get_at / set_at","matrix/row_major.rs"),("get, set, set_symmetric, get_row_copy, get_column_copy, copy_to, copy_from, Scalar/RowVector/ColumnVector accessors","matrix/traits.rs")],
 ["returned values","buffer contents"]),
P("C12","Element-wise addition and subtraction are exact",
 "Each addition and subtraction operation computes a+b, a−b (or for the in-place-second variant a−b into b) for every one of the rows × columns elements"+ARITH+", leaves the other operand unchanged and leaves any excess elements of the destination buffer unchanged.",
 ["inputs","configurations"],"all dimensions, all values, all buffer lengths >= rows*columns",
 "Tests add a few fixed matrices; operand order and ranges must hold for all.",
 ["matrix/traits.rs"],[("sub, add_inplace_a/b, sub_inplace_a/b","matrix/traits.rs")],["destination matrix"]),
P("C13","Identity, scalar, diagonal and fill initialisers are exact",
 "Making a matrix the identity, a scalar matrix or a two-valued (diagonal / off-diagonal) matrix sets every one of the N×N elements accordingly; setting the diagonal changes diagonal elements only; clearing, zeroing or filling sets every element of the matrix to the given value.",
 ["inputs","configurations"],"all dimensions and all values, whatever the matrix held before",
 "Tests initialise one 3x3 matrix.",
 ["matrix/traits.rs"],[("make_identity, make_scalar, make_comatrix, set_diagonal_to_scalar, clear, set_zero, set_all","matrix/traits.rs")],["matrix contents"]),
P("C14","No panic, overflow or out-of-bounds access on valid arguments",
 "On valid matrices (dimensions ≥ 1, buffers at least rows × columns long) and valid indices, no matrix or filter operation panics, overflows an index computation, trips an internal assertion, or reads or writes outside the buffers of its operands. Elements of a buffer beyond rows × columns are left as they are, except by the operations that fill a whole buffer with one value.",
 ["inputs","configurations"],"all dimensions, values and buffer lengths; measurement updates with positive definite S",
 "Tests exercise a few sizes where off-by-one accesses may still land inside the buffer.",
 ["matrix/traits.rs","matrix/row_major.rs","kalman/regular.rs","kalman/extended.rs","observations/regular.rs","observations/extended.rs","controls.rs"],[("index arithmetic of all kernels","matrix/traits.rs")],["absence of panics","buffer contents"]),
P("C15","All storage kinds and typed buffers present the same matrix",
 "Array, boxed, borrowed, mutably borrowed and adapter storages, and every typed filter buffer around them, expose the same row-major elements through slices, indexing and their matrix view that they were created from, and writes through any of these are visible through all others. Unwrapping returns exactly the underlying data, and reported lengths, emptiness and validity follow from rows × columns and the buffer length.",
 ["inputs","configurations"],"all dimensions, element types and contents, every storage kind and buffer type",
 "Tests construct each buffer once with trivial (mostly zero-filled) data, so wrong wiring stays invisible.",
 ["matrix/data.rs","matrix/data/matrix_data_array.rs","matrix/data/matrix_data_boxed.rs","matrix/data/matrix_data_mut.rs","matrix/data/matrix_data_ref.rs","matrix/data/matrix_data_row_major.rs","matrix/data/matrix_data_row_major_mut.rs","buffers/macros.rs","buffers/types.rs"],[("RowMajorSequentialData(Mut), Index(Mut), AsMatrix(Mut), From, IntoInnerData impls","matrix/data.rs")],["as_slice","as_matrix","index","into_inner"]),
P("C16","Builders wire every component to its own place with stated initial values",
 "A filter, control or observation assembled by a builder exposes exactly the components it was given, each under its own accessor, and the allocating builders create components of the right dimensions with the documented initial contents. The buffer-size macros give rows × columns of the respective component.",
 ["inputs","configurations"],"all STATES, CONTROLS, OBSERVATIONS and element types",
 "Tests build small models where several components coincide in size or are all zero.",
 ["buffers/builder.rs","kalman_builder/regular.rs","kalman_builder/extended.rs","kalman/regular.rs","kalman/extended.rs","controls.rs","observations/regular.rs","observations/extended.rs","lib.rs"],[("builders","buffers/builder.rs"),("size_buffer_* macros","lib.rs")],["accessors of the built filter"]),
P("C17","nalgebra views see the same elements and never read out of bounds",
 "Viewing an array-backed matrix through the nalgebra storage interface yields the same dimensions and the same element at every (row, column) as the crate's own accessors. No such view reads outside the backing array, whatever array length the matrix was created with.",
 ["inputs","configurations"],"all ROWS, COLS and array lengths and contents",
 "Tests view one square matrix; stride errors are invisible on symmetric or square data.",
 ["matrix/nalgebra_support.rs"],[("RawStorage for MatrixDataArray","matrix/nalgebra_support.rs")],["nalgebra element access"]),
P("C18","Step results depend only on the model and estimate, not on history",
 "The result of a predict, control or correct step is a function of the current state, covariance, model matrices and (for control and correct) input or measurement alone: it is the same whatever steps ran before, and whatever the temporary, innovation and gain buffers contain. A measurement or control object used with several filters, or several of them used with one filter, gives the same results as fresh ones.",
 ["histories","inputs"],"every sequence of steps and every content of temporaries",
 "Tests run fixed short sequences on zero-initialised temporaries.",
 ["kalman/regular.rs","kalman/extended.rs","observations/regular.rs","observations/extended.rs","controls.rs"],[("scratch buffers are overwritten before they are read","observations/regular.rs")],["state_vector()","estimate_covariance()"]),
P("C19","Element types provide a correct reciprocal and square root",
 "For every supported element type the reciprocal of a non-zero x is 1/x and the square root of a non-negative x is its square root, each to within the precision of the type and of the selected math library.",
 ["inputs","configurations"],"all values of f32, f64 and the two fixed-point types, under each math back end",
 "Tests evaluate a few values with the std back end only.",
 ["matrix/data_type.rs"],[("MatrixDataType::recip / square_root","matrix/data_type.rs")],["return values"]),
P("C20","Generic filter traits and accessors act on the same filter parts",
 "Using a filter, control or observation through the generic traits has exactly the effect of its own methods, and every accessor returns a view of exactly the component it names: what is written through a mutable accessor is what the corresponding read accessor and all later steps see, and no other component changes. The reported numbers of states, controls and observations are the declared ones.",
 ["inputs","programs"],"all filters, dimensions and values",
 "Tests call the trait methods on dummies mostly to see that they compile.",
 ["kalman/regular.rs","kalman/extended.rs","kalman/filter_trait.rs","controls.rs","observations/regular.rs","observations/extended.rs"],[("trait forwarding impls and accessors","kalman/regular.rs")],["trait methods"]),
P("C21","Extended and linear filter agree on linear models",
 "For a linear model (f(x) = A·x with Jacobian A, h(x) = H·x with Jacobian H) the extended filter's predict, tuned predict and correct steps produce the same state and covariance as the linear filter's, from the same starting values"+ARITH+".",
 ["inputs","histories"],"all linear models of every dimension, any sequence of steps",
 "No test compares the two implementations; they are separate copies of the same algebra.",
 ["kalman/extended.rs","kalman/regular.rs","observations/extended.rs","observations/regular.rs"],[("duplicate predict_P / update_with_innovation","kalman/extended.rs")],["state_vector()","estimate_covariance()"]),
]
here=os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here,"..","properties.jsonl"),"w") as f:
    for p in props: f.write(json.dumps(p,ensure_ascii=False)+"\n")
