"""Which functions each property stands on: `own` are the functions whose contracts state the
property (regular expressions over module::Type::function); the functions they call are found
in the extracted bodies (closure), the theorems are those of thm:: with the property's prefix."""
KR, KE, OR, OE, CT = 'kalman::regular::', 'kalman::extended::', 'observations::regular::', 'observations::extended::', 'controls::'
T = r'matrix::traits::\w+::'
P = {
    'C01': [KR + r'RegularKalman::(predict|predict_x|predict_P)$'],
    'C02': [KR + r'RegularKalman::(predict_tuned|predict_x|predict_P_tuned)$', KE + r'ExtendedKalman::(predict_tuned_nonlinear|predict_x_nonlinear|predict_P_tuned)$'],
    'C03': [KR + r'RegularKalman::control$', CT + r'Control::(apply_control|apply_to)$'],
    'C04': [KR + r'RegularKalman::correct$', OR + r'RegularObservation::(correct|update_with_innovation)$', T + '(cholesky_decompose_lower|invert_l_cholesky)$'],
    'C05': [KE + r'ExtendedKalman::(predict_nonlinear|predict_x_nonlinear|predict_P)$'],
    'C06': [KE + r'ExtendedKalman::correct_nonlinear$', OE + r'ExtendedObservation::(correct_nonlinear|update_with_innovation)$', T + '(cholesky_decompose_lower|invert_l_cholesky)$'],
    'C08': [T + r'(mult|mult_buffered|mult_rowvector|multadd_rowvector|mult_transb|multadd_transb|multscale_transb)$'],
    'C09': [T + r'cholesky_decompose_lower$'],
    'C10': [T + r'invert_l_cholesky$'],
    'C11': [T + r'(rows|cols|get|set|set_symmetric|get_row_copy|get_column_copy|copy|copy_to|copy_from|get_value|set_value|get_row|set_row|get_col|set_col|inspect|apply)$', r'matrix::row_major::',
            r'matrix::data::\w+::\w+::(get_at|set_at)$'],
    'C12': [T + r'(sub|add_inplace_a|add_inplace_b|sub_inplace_a|sub_inplace_b)$'],
    'C13': [T + r'(make_identity|make_scalar|make_comatrix|set_diagonal_to_scalar|clear|set_zero|set_all)$'],
    'C15': [r'matrix::data::', r'buffers::types::', r'matrix::row_major::'],
    'C16': [r'buffers::builder::', r'kalman_builder::', r'macros::', r'sizes::', r'statics::'],
    'C17': [r'matrix::nalgebra_support::'],
    'C20': [KR + '.*(state|estimate|direct|predict$|control$|correct$|new$)', KE + '.*(state|estimate|direct|predict_nonlinear$|correct_nonlinear$|new$)', CT, OR + '.*(measurement|observation|states|correct$|new$)', OE + '.*(measurement|observation|states|correct_nonlinear$|new$)', r'kalman::filter_trait::'],
}
STEPS = sorted({r for p in ('C01', 'C02', 'C03', 'C04', 'C05', 'C06') for r in P[p]})
P['C07'] = STEPS
P['C18'] = STEPS
P['C21'] = [r for r in STEPS if 'Control' not in r and '::control$' not in r]
P['C14'] = [T, r'matrix::row_major::', KR, KE, OR, OE, CT]
P['C19'] = [r'matrix::data_type::']
CALLEE_MODS = ('matrix::traits', 'matrix::row_major')
