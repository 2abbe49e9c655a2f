"""Meaning of the standard-library and deal.II primitives the code uses."""
import re
import terms as T
from terms import Value, ZERO, ONE, HALF


def _interp():
    import interp
    return interp


def dispatch(I, e, fr):
    X = _interp()
    k = e['k']
    q = e.get('q', '')
    n = e.get('n', '')
    if k == 'opcall':
        return _op(I, e, fr, X)
    if k == 'mcall':
        return _member(I, e, fr, X)
    fn = FREE.get(q)
    if fn is None and (q.startswith('std::') or '::' not in q or q.startswith('dealii::')):
        fn = FREE.get(n.split('<')[0])
        if fn is not None and e.get('own'):
            fn = None
    if fn is None:
        return NotImplemented
    return fn(I, e, fr, X)


# -- operators on tensors, arrays, vectorised numbers ------------------------------
def _op(I, e, fr, X):
    op = e['op']
    if e.get('own'):
        return NotImplemented
    a = e['a']
    cls = X.split_targs(e.get('cls', ''))[0]
    if op == '[]':
        lv = I.lv(e, fr)
        return X.Ref(lv)
    if op == '()':
        if cls in ('std::function',):
            c = I.eval(a[0], fr)
            if isinstance(c, X.Clos):
                return I.call_clos(c, a[1:], fr, e)
        return NotImplemented
    if op == '=':
        v = I.eval(a[1], fr)
        lv = I.lv(a[0], fr)
        if I.store is None:
            return ZERO
        old = None
        t0 = X.strip_type(a[0].get('t', ''))
        if isinstance(v, Value) and not X.is_scalar_type(t0):
            try:
                old = I.read(lv, a[0].get('t', ''))
            except X.AnalysisError:
                old = None
            if isinstance(old, X.Arr):
                v = I.map_tree(lambda _: v, old)
        if isinstance(v, X.Arr) and X.split_targs(t0)[0] == 'std::tuple':
            old = I.read(lv, t0)
            if isinstance(old, X.Arr) and any(isinstance(x, X.Ref) for x in old.e):
                for r, w in zip(old.e, v.e):
                    if isinstance(r, X.Ref):
                        I.assign(r.lv, w, e, fr)
                return X.Ref(lv)
        if isinstance(v, X.Opaque) and X.split_targs(t0)[0] in ('dealii::Tensor', 'std::array', 'dealii::Point'):
            v = I.symbolic(t0, v.path)
        I.assign(lv, v, e, fr)
        return X.Ref(lv)
    if op in ('+=', '-=', '*=', '/='):
        v = I.eval(a[1], fr)
        lv = I.lv(a[0], fr)
        if I.store is None:
            return ZERO
        old = I.deref(I.read(lv, a[0].get('t', '')), a[0].get('t', ''))
        if isinstance(old, (X.Opaque, X.Struct, X.Str)):
            if isinstance(old, X.Str) and isinstance(v, X.Str) and op == '+=':
                I.write(lv, X.Str(old.s + v.s))
                return X.Ref(lv)
            return NotImplemented
        I.assign(lv, I.binop(op[0], old, v, e), e, fr)
        return X.Ref(lv)
    if op in ('++', '--'):
        return NotImplemented if len(a) > 2 else _incdec(I, e, fr, X)
    if op in ('*', '->') and len(a) == 1:
        return X.Ref(I.lv(e, fr))
    if len(a) == 1 and op == '-':
        return I.neg(I.eval(a[0], fr))
    if len(a) == 1 and op == '!':
        return ONE - I.boolean(I.eval(a[0], fr))
    if len(a) == 2 and op in ('+', '-', '*', '/', '==', '!=', '<', '>', '<=', '>='):
        x = I.eval(a[0], fr)
        y = I.eval(a[1], fr)
        if isinstance(x, X.Str) and isinstance(y, X.Str):
            if op == '+':
                return X.Str(x.s + y.s)
            if op == '==':
                return ONE if x.s == y.s else ZERO
            if op == '!=':
                return ONE if x.s != y.s else ZERO
        return I.binop(op, x, y, e)
    return NotImplemented


def _incdec(I, e, fr, X):
    lv = I.lv(e['a'][0], fr)
    v = I.read(lv, e['a'][0].get('t', ''))
    if isinstance(v, Value):
        I.write(lv, v + (1 if e['op'] == '++' else -1))
    elif isinstance(v, X.Struct) and isinstance(v.base, X.Opaque):
        # an iterator through which something was written
        I.write(lv, X.Opaque('next(%s)' % v.base.path, v.t))
    elif isinstance(v, X.Opaque):
        I.write(lv, X.Opaque('next(%s)' % v.path, v.t))
    return X.Ref(lv)


# -- members ---------------------------------------------------------------------------
def _member(I, e, fr, X):
    if e.get('own'):
        return NotImplemented
    cls = X.split_targs(e.get('cls', ''))[0]
    n = e['n'].split('<')[0]
    if n.startswith('operator '):          # conversion
        return X.Ref(I.follow(I.lv(e['b'], fr)))
    if cls in ('dealii::Tensor', 'dealii::Point', 'dealii::SymmetricTensor'):
        b = I.eval(e['b'], fr)
        if isinstance(b, X.Arr):
            fl = I.flat(b)
            if n in ('norm_square', 'square'):
                r = ZERO
                for x in fl:
                    r = r + x * x
                return r
            if n == 'norm':
                r = ZERO
                for x in fl:
                    r = r + x * x
                return T.sqrt(r)
            if n == 'clear':
                I.write(I.lv(e['b'], fr), I.map_tree(lambda v: ZERO, b))
                return None
        elif isinstance(b, Value):
            if n in ('norm_square',):
                return b * b
            if n == 'norm':
                return T.absval(b)
    if cls in ('std::unique_ptr', 'std::shared_ptr', 'std::reference_wrapper', 'std::optional') and \
            n in ('get', 'operator->', 'operator*', 'value'):
        return X.Ref(I.follow(I.lv(e['b'], fr)))
    if cls == 'std::array':
        b = I.eval(e['b'], fr)
        if n == 'size' and isinstance(b, X.Arr):
            return T.const(len(b.e))
        if n == 'fill' and isinstance(b, X.Arr):
            v = I.eval(e['a'][0], fr)
            I.write(I.lv(e['b'], fr), X.Arr([v] * len(b.e), b.t))
            return None
        if n in ('front', 'at', 'back', 'data'):
            lv = I.follow(I.lv(e['b'], fr))
            if n == 'data':
                return X.Ref(lv)
            i = ZERO if n == 'front' else (T.const(len(b.e) - 1) if n == 'back' else I.eval(e['a'][0], fr))
            return X.Ref(I.index(lv, i))
    return NotImplemented


# -- free functions -------------------------------------------------------------------
def _vals(I, e, fr):
    return [I.eval(a, fr) for a in e['a']]


def unary(f):
    def g(I, e, fr, X):
        v = I.eval(e['a'][0], fr)
        if isinstance(v, Value):
            return f(v)
        if isinstance(v, X.Arr):
            return NotImplemented
        return NotImplemented
    return g


def uninterp(name, pos=False):
    return unary(lambda v: T.app(name, v, pos=pos))


def minmax(f):
    def g(I, e, fr, X):
        vs = _vals(I, e, fr)
        if len(vs) == 1 and isinstance(vs[0], X.Arr):
            vs = list(vs[0].e)
        if all(isinstance(v, Value) for v in vs):
            return f(*vs)
        return NotImplemented
    return g


def f_pow(I, e, fr, X):
    a, b = [x for x in _vals(I, e, fr)][:2]
    if isinstance(a, Value) and isinstance(b, Value):
        return T.power(a, b)
    return NotImplemented


def f_fixed_power(I, e, fr, X):
    v = I.eval(e['a'][0], fr)
    return T.power(v, T.const(int(e['ta'][0])))


CMP = {'less_than': lambda a, b: T.gt0(b - a), 'less_than_or_equal': lambda a, b: T.ge0(b - a),
       'greater_than': lambda a, b: T.gt0(a - b), 'greater_than_or_equal': lambda a, b: T.ge0(a - b),
       'equal': lambda a, b: T.eq0(a - b), 'not_equal': lambda a, b: ONE - T.eq0(a - b)}
CMPNUM = {'0': 'equal', '1': 'less_than'}


def f_mask(I, e, fr, X):
    op = e['ta'][0].split('::')[-1]
    if op not in CMP:
        raise X.AnalysisError('comparison predicate %s' % e['ta'][0])
    a, b, t, f = _vals(I, e, fr)
    return T.select(CMP[op](a, b), t, f)


def f_get(I, e, fr, X):
    lv = I.follow(I.lv(e['a'][0], fr))
    ta = e.get('ta') or []
    m = re.match(r'(\d+)U?L?L?$', ta[0]) if ta else None
    if not m:
        raise X.AnalysisError('std::get without an index')
    i = int(m.group(1))
    lv2 = (lv[0], lv[1] + (('i', i),))
    try:
        v = I.read(lv, '')
    except X.AnalysisError:
        v = None
    if isinstance(v, (X.Opaque, X.Struct)):
        base = X.split_targs(X.strip_type(e['a'][0].get('t', '')))[0].replace('const ', '').strip()
        if base == 'std::pair':
            return X.Ref((lv[0], lv[1] + (('f', ('first', 'second')[i]),)))
    return X.Ref(I.follow(lv2))


def f_tie(I, e, fr, X):
    return X.Arr([X.Ref(I.lv(a, fr)) for a in e['a']], 'std::tuple')


def f_tuple(I, e, fr, X):
    return X.Arr(_vals(I, e, fr), 'std::tuple')


def f_identity(I, e, fr, X):
    return X.Ref(I.lv(e['a'][0], fr))


def f_outer(I, e, fr, X):
    a, b = _vals(I, e, fr)
    if isinstance(a, X.Arr) and isinstance(b, X.Arr):
        def rec(x):
            if isinstance(x, X.Arr):
                return X.Arr([rec(y) for y in x.e])
            return I.map_tree(lambda v: x * v, b)
        return rec(a)
    return NotImplemented


def f_scalar_product(I, e, fr, X):
    a, b = _vals(I, e, fr)
    if isinstance(a, X.Arr) and isinstance(b, X.Arr):
        r = ZERO
        for x, y in zip(I.flat(a), I.flat(b)):
            r = r + x * y
        return r
    return NotImplemented


def f_swap(I, e, fr, X):
    a, b = I.lv(e['a'][0], fr), I.lv(e['a'][1], fr)
    x, y = I.read(a, e['a'][0].get('t', '')), I.read(b, e['a'][1].get('t', ''))
    I.write(a, y)
    I.write(b, x)
    return None


def f_symmetrize(I, e, fr, X):
    a = I.eval(e['a'][0], fr)
    if isinstance(a, X.Arr):
        n = len(a.e)
        return X.Arr([X.Arr([(a.e[i].e[j] + a.e[j].e[i]) * HALF for j in range(n)]) for i in range(n)])
    return NotImplemented


def f_transpose(I, e, fr, X):
    a = I.eval(e['a'][0], fr)
    if isinstance(a, X.Arr):
        n = len(a.e)
        return X.Arr([X.Arr([a.e[j].e[i] for j in range(n)]) for i in range(n)])
    return NotImplemented


def f_trace(I, e, fr, X):
    a = I.eval(e['a'][0], fr)
    if isinstance(a, X.Arr):
        r = ZERO
        for i, x in enumerate(a.e):
            r = r + x.e[i]
        return r
    return NotImplemented


def f_unreachable(I, e, fr, X):
    I.store = None
    return ZERO


def f_expect(I, e, fr, X):
    return I.eval(e['a'][0], fr)


def f_tmin(I, e, fr, X):
    return NotImplemented


FREE = {
    'sqrt': unary(T.sqrt), 'abs': unary(T.absval), 'fabs': unary(T.absval), 'exp': unary(T.exp),
    'log': unary(T.log), 'sin': uninterp('sin'), 'cos': uninterp('cos'), 'tan': uninterp('tan'),
    'atan': uninterp('atan'), 'sinh': uninterp('sinh'), 'cosh': uninterp('cosh', True), 'tanh': uninterp('tanh'),
    'floor': uninterp('floor'), 'ceil': uninterp('ceil'), 'cbrt': unary(lambda v: T.power(v, T.const(T.Fraction(1, 3)))),
    'max': minmax(T.vmax), 'min': minmax(T.vmin), 'fmax': minmax(T.vmax), 'fmin': minmax(T.vmin),
    'pow': f_pow, 'ryujin::pow': f_pow, 'ryujin::fast_pow': f_pow,
    'ryujin::fixed_power': f_fixed_power, 'dealii::Utilities::fixed_power': f_fixed_power,
    'compare_and_apply_mask': f_mask, 'dealii::compare_and_apply_mask': f_mask,
    'std::get': f_get, 'std::tie': f_tie, 'std::make_tuple': f_tuple, 'std::make_pair': f_tuple,
    'std::move': f_identity, 'std::forward': f_identity, 'std::as_const': f_identity,
    'std::ref': f_identity, 'std::cref': f_identity,
    'dealii::outer_product': f_outer, 'dealii::scalar_product': f_scalar_product,
    'dealii::symmetrize': f_symmetrize, 'dealii::transpose': f_transpose, 'dealii::trace': f_trace,
    'std::swap': f_swap, '__builtin_unreachable': f_unreachable, '__builtin_expect': f_expect,
}
