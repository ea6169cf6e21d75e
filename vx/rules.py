"""Contracts that follow a pattern: every storage and buffer type presents one sequence of
elements, and every impl of a storage/role trait has to present that same sequence."""
import re

OWN = {'MatrixDataArray', 'MatrixDataBoxed', 'MatrixDataRef', 'MatrixDataMut'}
ADAPT = {'MatrixDataRowMajor', 'MatrixDataRowMajorMut'}


def is_buf(t):
    return t.endswith('Buffer')


def tname(ctx):
    m = re.match(r"(?:&'a(?:mut)?)?(?:[a-z_]+::)*([A-Za-z_]\w*)", ctx['type'])
    return m.group(1) if m else ctx['type']


def dims(ctx):
    """A, B of the bound `M: MatrixMut<A, B, T>` in the impl"""
    m = re.search(r"M:(?:\w+::)*Matrix(?:Mut)?<(\w+),(\w+),T>", ctx['where'] + ',' + ctx['gen'].replace(' ', ''))
    return m.groups() if m else None


def view(t):
    return 'self.0@' if t in OWN else 'self.0.data()'


# accessors: trait -> (method, field, mutable)
ACC = {}
for _tr, _m, _f in (('KalmanFilterStateVector', 'state_vector', 'x'), ('KalmanFilterStateTransition', 'state_transition', 'A'),
                    ('ExtendedKalmanFilterStateTransition', 'state_transition_jacobian', 'A'),
                    ('KalmanFilterEstimateCovariance', 'estimate_covariance', 'P'),
                    ('KalmanFilterDirectProcessNoiseCovariance', 'direct_process_noise', 'Q'),
                    ('KalmanFilterControlVector', 'control_vector', 'u'), ('KalmanFilterControlTransition', 'control_matrix', 'B'),
                    ('KalmanFilterControlProcessNoiseCovariance', 'process_noise_covariance', 'Q'),
                    ('KalmanFilterMeasurementVector', 'measurement_vector', 'z'),
                    ('KalmanFilterObservationTransformation', 'observation_matrix', 'H'),
                    ('ExtendedKalmanFilterObservationTransformation', 'observation_jacobian_matrix', 'H'),
                    ('KalmanFilterMeasurementNoiseCovariance', 'measurement_noise_covariance', 'R')):
    ACC[_tr] = (_m, _f, False)
    ACC[{'KalmanFilterDirectProcessNoiseCovariance': 'KalmanFilterDirectProcessNoiseMut', 'KalmanFilterControlProcessNoiseCovariance': 'KalmanFilterControlProcessNoiseMut',
         'KalmanFilterMeasurementVector': 'KalmanFilterObservationVectorMut'}.get(_tr, _tr + 'Mut')] = (_m, _f, True)
METHOD = {}
for _tr, (_m, _f, _mut) in ACC.items():
    METHOD[_m + ('_mut' if _mut else '')] = (_f, _mut)
FIELDS = {'RegularKalman': ['x', 'A', 'P', 'Q', 'predicted_x', 'temp_P'], 'ExtendedKalman': ['x', 'A', 'P', 'Q', 'predicted_x', 'temp_P'],
          'Control': ['u', 'B', 'Q', 'temp_BQ']}
FIELDS['RegularObservation'] = FIELDS['ExtendedObservation'] = ['z', 'H', 'R', 'y', 'S', 'K', 'temp_S_inv', 'temp_HP', 'temp_PHt', 'temp_KHP']
COUNTS = {'states': 'STATES', 'controls': 'CONTROLS', 'measurements': 'OBSERVATIONS', 'observations': 'OBSERVATIONS',
          'NUM_STATES': 'STATES', 'NUM_CONTROLS': 'CONTROLS', 'NUM_OBSERVATIONS': 'OBSERVATIONS'}


def rest_same(t, f, a, b):
    return ' && '.join('%s.%s == %s.%s' % (b, g, a, g) for g in FIELDS[t] if g != f)


def acc_extra(key, ctx):
    tr = key.split(' as ')[-1].split('<')[0]
    m, f, mut = ACC[tr]
    if not ctx:
        if mut:
            return ['/// everything but this component is the same\nspec fn %s_rest(&self, post: &Self) -> bool;' % m]
        return ['spec fn %s_data(&self) -> Seq<T>;' % m]
    t = tname(ctx)
    if t not in FIELDS:
        return []
    if mut:
        return ['open spec fn %s_rest(&self, post: &Self) -> bool { %s }' % (m, rest_same(t, f, 'self', 'post'))]
    return ['open spec fn %s_data(&self) -> Seq<T> { self.%s.data() }' % (m, f)]


def extra_rule(key, ctx):
    if key.split(' as ')[-1].split('<')[0] in ACC:
        return acc_extra(key, ctx)
    if not ctx or ' as ' not in key:
        return []
    t, tr = tname(ctx), key.split(' as ')[1]
    own, wrap = t in OWN, is_buf(t) or t in ADAPT
    if tr.startswith('From<'):
        return from_rule(key, ctx, t, tr)
    if not (own or wrap):
        return []
    v = view(t)
    if tr == 'RowMajorSequentialData':
        b = 'assert(self.0@.len() <= usize::MAX);' if own else 'self.0.buffer_bound();'
        if t in ('MatrixDataRef', 'MatrixDataMut', 'MatrixDataBoxed'):
            b = 'slice_bound(&*self.0);'
        if t == 'MatrixDataArray':
            b = 'assert(self.0@.len() == TOTAL);'
        return ['open spec fn data(&self) -> Seq<T> { %s }\nproof fn buffer_bound(&self) { %s }' % (v, b)]
    if tr == 'Index':
        return ['open spec fn index_req(&self, i: usize) -> bool { i < %s.len() }\nopen spec fn index_val(&self, i: usize) -> T { %s[i as int] }' % (v, v)]
    if tr == 'IndexMut':
        return ['open spec fn index_post(&self, i: usize, v: T, post: &Self) -> bool { %s == %s.update(i as int, v) }' % (v.replace('self', 'post'), v)]
    if tr == 'Matrix':
        return ['proof fn index_agrees(&self) {}']
    if tr == 'MatrixMut':
        return ['proof fn index_mut_agrees(&self) {}']
    if tr == 'AsMatrix':
        return ['open spec fn mdata(&self) -> Seq<T> { %s }' % v]
    if tr.startswith('AsRef'):
        return ['open spec fn as_ref_spec(&self) -> Seq<T> { %s }' % v]
    if tr.startswith('AsMut<'):
        return ['open spec fn as_mut_pre(&self) -> Seq<T> { %s }\nopen spec fn as_mut_post(&self, v: Seq<T>, post: &Self) -> bool { %s == v }' % (v, v.replace('self', 'post'))]
    if tr == 'IntoInnerData':
        e = 'r == self.0' if own or t in ADAPT else 'self.0.inner_post(r)'
        if t == 'MatrixDataMut':
            e = 'r@ == self.0@ && final(r)@ == final(self.0)@'
        return ['#[verifier::prophetic] open spec fn inner_post(self, r: Self::Target) -> bool { %s }' % e]
    if is_buf(t) and tr in VECROLES:
        return ['proof fn mdata_agrees(&self) {}']
    return []


VECROLES = {'StateVector', 'ControlVector', 'MeasurementVector', 'PredictedStateEstimateVector', 'InnovationVector'}


def from_rule(key, ctx, t, tr):
    arg = re.search(r'From<(.*)>$', ctx['trait']).group(1)
    m = re.match(r'From<(.*)>$', tr)
    req, post = 'true', None
    if t in OWN:
        post = 'r.0 == v'
        if t == 'MatrixDataArray':
            req = 'ROWS * COLS == TOTAL'
        if t == 'MatrixDataBoxed':
            req = 'v.into_req() && (forall|b: Box<[T]>| #[trigger] v.into_post(b) ==> b@.len() == ROWS * COLS) && ROWS * COLS <= usize::MAX'
            post = 'v.into_post(r.0)'
        if t == 'MatrixDataRef':
            post = 'r.0@ == v@' if 'mut' not in arg else 'r.0@ == (*v)@'
        if t == 'MatrixDataMut':
            post = 'r.0@ == v@ && final(r.0)@ == final(v)@'
    elif t in ADAPT:
        post = 'r.0 == v'
    elif is_buf(t):
        d = re.search(r'MatrixData(\w+)<(?:\'a,)?(\w+),(\w+)', ctx['type'])
        req = '%s * %s <= v@.len()' % (d.group(2), d.group(3))
        post = {'Array': 'r.0.0 == v', 'Mut': 'r.0.0@ == v@ && final(r.0.0)@ == final(v)@', 'Ref': 'r.0.0@ == v@'}[d.group(1)]
        if d.group(1) == 'Array' and d.group(2) + ',1,' + d.group(2) in ctx['type']:
            req = 'true'
        if d.group(1) == 'Mut':
            req = req.replace('v@', '(*v)@')
    elif ctx['type'].replace(' ', '') == "&'amut[T]":
        post = 'r@ == v.0@ && final(r)@ == final(v.0)@'
    elif re.match(r"(\[T;TOTAL\]|&'a(mut)?\s?\[T\])$", ctx['type']):
        post = 'r == v.0' if ctx['type'].startswith('[') or 'mut' in ctx['type'] else 'r@ == v.0@'
    if post is None:
        return []
    arg2 = re.sub(r'\bmut\b', 'mut ', arg).replace("&'a", "&'a ")
    return ['#[verifier::prophetic] open spec fn from_req(v: %s) -> bool { %s }\n#[verifier::prophetic] open spec fn from_post(v: %s, r: Self) -> bool { %s }' % (arg2, req, arg2, post)]


def fn_rule(key, ctx):
    if key.split('::')[0] in ACC:
        m, f, mut = ACC[key.split('::')[0]]
        if key.endswith('::' + m + ('_mut' if mut else '')):
            if mut:
                return {'loops': {}, 'ensures': 'r.data() == old(self).%s_data(), final(self).%s_data() == final(r).data(), old(self).%s_rest(final(self)),\n' % (m, m, m)}
            return {'loops': {}, 'ensures': 'r.data() == self.%s_data(),\n' % m}
    if key.split('::')[-1] in COUNTS and key.split('::')[0] in ('KalmanFilterNumStates', 'KalmanFilterNumControls', 'KalmanFilterNumObservations'):
        return {'loops': {}, 'ensures': 'r == %s,\n' % COUNTS[key.split('::')[-1]]}
    if not ctx:
        return None
    t = tname(ctx)
    if t in FIELDS and ' as ' not in key:
        n = key.split('::')[-1]
        if n in METHOD:
            f, mut = METHOD[n]
            if f in FIELDS[t]:
                if mut:
                    return {'loops': {}, 'ensures': '*r == old(self).%s, *final(r) == final(self).%s, %s,\n' % (f, f, rest_same(t, f, 'old(self)', 'final(self)'))}
                return {'loops': {}, 'ensures': '*r == self.%s,\n' % f}
        if n in COUNTS:
            return {'loops': {}, 'ensures': 'r == %s,\n' % COUNTS[n]}
    if t.endswith('Builder') and t[:-7] in FIELDS and key.endswith('::new') and ' as ' not in key:
        return {'loops': {}, 'ensures': ', '.join('r.%s == %s' % (g, g) for g in FIELDS[t[:-7]]) + ',\n'}
    t = tname(ctx)
    fn = key.split('::')[-1]
    tr = key.split(' as ')[1].split('::')[0] if ' as ' in key else ''
    L = {'loops': {}}
    if tr == 'Index' and is_buf(t):
        return dict(L, start='proof { self.0.index_agrees(); }')
    if tr == 'IndexMut' and is_buf(t):
        return dict(L, start='proof { self.0.index_agrees(); self.0.index_mut_agrees(); }')
    if t in OWN and fn in ('as_slice', 'as_mut_slice'):
        return dict(L, start='proof { self.buffer_bound(); }')
    if fn == 'from' and is_buf(t) and '[T])' in ctx['sig']:
        return dict(L, start='proof { slice_bound(&*value); }')
    if tr:
        return None
    if t.endswith('BufferBuilder') and fn in ('new', 'new_with'):
        ret = ctx['sig'].split('->')[1].split('where')[0]
        m = re.search(r'MatrixData(?:Boxed|Array)<(\w+),(\w+)', ret)
        if m:
            p = '%s * %s' % m.groups()
        else:
            n, a = re.match(r'(\w+)<(.*)>$', ret).groups()
            a = a.split(',')[:-1]
            p = '%s * %s' % ((a[0], '1') if 'Vector' in n else (a[0], a[-1]))
        e = 'r.0.0@.len() == %s, ' % p
        if fn == 'new_with':
            e += 'forall|i: int| 0 <= i < %s ==> #[trigger] r.0.0@[i] == init,\n' % p
        else:
            e += 'exists|d: T| #[trigger] call_ensures(T::default, (), d) && forall|i: int| 0 <= i < %s ==> #[trigger] r.0.0@[i] == d,\n' % p
        return dict(L, requires=p + ' <= usize::MAX,\n', ensures=e)
    if fn == 'new' and (is_buf(t) or t in ADAPT):
        return dict(L, ensures='r.0 == %s,\n' % ('matrix' if is_buf(t) else 'data'))
    if fn in ('new', 'new_unchecked') and t in OWN and t != 'MatrixDataMut':
        e = dict(L, ensures='r.0 == data,\n')
        if t == 'MatrixDataArray' and fn == 'new':
            e['requires'] = 'ROWS * COLS == TOTAL,\n'
        if t == 'MatrixDataBoxed':
            e['requires'] = 'data.into_req(), forall|b: Box<[T]>| #[trigger] data.into_post(b) ==> b@.len() == ROWS * COLS, ROWS * COLS <= usize::MAX,\n'
            e['ensures'] = 'data.into_post(r.0),\n'
        return e
    if fn == 'new' and t == 'MatrixDataMut':
        return dict(L, ensures='r.0@ == old(data)@, final(r.0)@ == final(data)@,\n')
    if fn == 'into_inner' and t == 'MatrixDataMut':
        return dict(L, ensures='r@ == old(self.0)@, final(r)@ == final(self.0)@,\n')
    if fn == 'into_inner' and t in OWN:
        return dict(L, ensures='r == self.0,\n')
    if is_buf(t) and dims(ctx):
        a, b = dims(ctx)
        p = '%s * %s' % (a, b)
        if fn == 'len':
            return dict(L, requires=p + ' <= usize::MAX,\n', ensures='r == %s,\n' % p)
        if fn == 'is_empty':
            return dict(L, start='proof { assert((%s == 0) == (%s == 0 || %s == 0)) by(nonlinear_arith) requires %s >= 0, %s >= 0; }' % (p, a, b, a, b), requires=p + ' <= usize::MAX,\n', ensures='r == (%s == 0),\n' % p)
        if fn == 'is_valid':
            return dict(L, requires=p + ' <= usize::MAX,\n', ensures='r == (%s <= self.0.data().len()),\n' % p)
    return None


# the size and buffer macros: number of dimensions, buffer type, rows, columns (a: first dimension, b: second)
MACROS = {
    'x': (1, 'StateVectorBuffer', 'a', '1'), 'A': (1, 'StateTransitionMatrixMutBuffer', 'a', 'a'), 'P': (1, 'EstimateCovarianceMatrixBuffer', 'a', 'a'),
    'Q_direct': (1, 'DirectProcessNoiseCovarianceMatrixMutBuffer', 'a', 'a'), 'u': (1, 'ControlVectorBuffer', 'a', '1'), 'B': (2, 'ControlMatrixMutBuffer', 'a', 'b'),
    'Q_control': (1, 'ControlProcessNoiseCovarianceMatrixMutBuffer', 'a', 'a'), 'z': (1, 'MeasurementVectorBuffer', 'a', '1'), 'H': (2, 'ObservationMatrixMutBuffer', 'a', 'b'),
    'R': (1, 'MeasurementNoiseCovarianceMatrixBuffer', 'a', 'a'), 'y': (1, 'InnovationVectorBuffer', 'a', '1'), 'S': (1, 'InnovationCovarianceMatrixBuffer', 'a', 'a'),
    'K': (2, 'KalmanGainMatrixBuffer', 'a', 'b'), 'temp_x': (1, 'PredictedStateEstimateVectorBuffer', 'a', '1'), 'temp_P': (1, 'TemporaryStateMatrixBuffer', 'a', 'a'),
    'temp_BQ': (2, 'TemporaryBQMatrixBuffer', 'a', 'b'), 'temp_S_inv': (1, 'TemporaryResidualCovarianceInvertedMatrixBuffer', 'a', 'a'), 'temp_HP': (2, 'TemporaryHPMatrixBuffer', 'a', 'b'),
    'temp_PHt': (2, 'TemporaryPHTMatrixBuffer', 'a', 'b'), 'temp_KHP': (1, 'TemporaryKHPMatrixBuffer', 'a', 'a'),
}
