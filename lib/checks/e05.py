"""Initial data: the analytic state, moved to the chosen position and direction, is interpolated component by component."""
import itertools
import re
from fractions import Fraction
import terms as T
from terms import Value, ZERO, ONE
import export
from interp import AnalysisError, Arr, Struct, Opaque, Str, Ref, Clos, Frame, strip_type, split_targs, pretty
from trace import plain, path
import sys
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import sympy
from checks.e04 import EQS, Names, Small, go, one, names, plainarg

RULES = {
    'rigid': 'points are moved by a rigid motion: distances to the initial position are kept and orientation is not reversed',
    'aligned': 'the initial position is the origin and the initial direction the x-axis of the analytic state',
    'inverse': 'vectors are turned back by the inverse of the rotation of the points',
    'unit': 'the initial direction is normalised before it is used',
    'selected': 'the state whose name was configured is used',
    'state': 'the initial state is the analytic state at the moved point and the time asked for, its momentum turned back',
    'perturbed': 'the initial state is perturbed relative to its components at the initial time alone',
    'momentum': 'turning the state changes its momentum alone',
    'function': 'the scalar function of component k is component k of the state',
    'component': 'component d of the vector is the interpolated component d of the initial data',
    'layout': 'interpolated vectors live on the partitions of the offline data and have up to date ghost values',
}
HALF = Fraction(1, 2)


class C:
    def __init__(self, R, key, f):
        self.R, self.key, self.f = R, key, f

    def ok(self, key, cond, rule, detail=''):
        self.R.count('obligations')
        self.R.ok('E05:%s:%s' % (self.key, key), bool(cond), self.f, RULES[rule], detail)
        return bool(cond)


def exact(P, name, dim):
    fs = [f for f in P.find(r'ryujin::(?:\(anonymous[^)]*\)::)?%s' % name) if f['params'] and 'Tensor<1, %d,' % dim in f['params'][0]['t']]
    if len(fs) != 1:
        raise AnalysisError('anchor %s: %d definitions found' % (name, len(fs)))
    return fs[0]


def directions(dim):
    """directions in general position, by sign, and the degenerate ones"""
    n = [T.sym('n%d' % d) for d in range(dim)]
    for sg in itertools.product((1, -1), repeat=dim):
        yield 'general:' + ''.join('+-'[s < 0] for s in sg), n, sg
    for zero in range(1, dim):
        for zs in itertools.combinations(range(dim), zero):
            for sg in itertools.product((1, -1), repeat=dim - zero):
                it = iter(sg)
                full = tuple(0 if d in zs else next(it) for d in range(dim))
                yield 'special:' + ''.join('0+-'[s] for s in full), [ZERO if d in zs else n[d] for d in range(dim)], full


def evaluate(P, f, dim, vals):
    m = Names(P)
    args = {p['n']: Arr(list(v), plainarg(p['t'])) for p, v in zip(f['params'], vals)}
    return flat(go(m, f, args), dim)


def flat(r, dim):
    while isinstance(r, Struct) and not hasattr(r, 'e'):
        r = next(iter(r.f.values()))
    if not isinstance(r, Arr) or len(r.e) != dim:
        raise AnalysisError('result %s' % pretty(r))
    return r.e


def settled(v, sg):
    """the value for directions of the given signs that are not degenerate"""
    for _ in range(8):
        bs = [a for a in v.deep_atoms() if a.kind == 'bool']
        if not bs:
            return v
        v = T.subst(v, {a: T.const(int(holds(a, sg))) for a in bs if not any(b.kind == 'bool' for b in a.args[0].deep_atoms())})
    raise AnalysisError('cases')


def number(v, sg):
    e = sympy.sympify(pretty(v).replace('^', '**').replace('abs', 'Abs'), rational=True)
    e = e.subs({sympy.Symbol('n%d' % d): sympy.Integer((3, 12, 4)[d] * s) for d, s in enumerate(sg)})
    if not e.is_number:
        raise AnalysisError('case distinction by %s' % pretty(v))
    return e


def holds(a, sg):
    x = number(a.args[0], sg)
    if a.name not in ('gt0', 'ge0', 'eq0'):
        raise AnalysisError('case %s' % a.name)
    return bool({'gt0': x > 0, 'ge0': x >= 0, 'eq0': sympy.Eq(x, 0)}[a.name])


class Radicals:
    """identities of expressions with square roots, modulo their squares"""

    def __init__(self):
        self.rel, self.rev = [], {}

    def conv(self, v):
        s = sympy.sympify(pretty(v).replace('^', '**').replace('abs', 'Abs'), rational=True)
        return self.plain(s)

    def plain(self, e):
        if e.is_Atom:
            return e
        a = [self.plain(x) for x in e.args]
        if e.func is sympy.Abs:
            return self.root(sympy.expand(a[0] ** 2))
        if e.is_Pow and e.exp.is_Rational and e.exp.q == 2:
            return self.root(sympy.expand(a[0])) ** int(2 * e.exp)
        return e.func(*a)

    def root(self, b):
        if b not in self.rev:
            s = sympy.Symbol('r%d' % len(self.rev))
            self.rev[b] = s
            self.rel.append(s ** 2 - b)
        return self.rev[b]

    def zero(self, e):
        n = sympy.numer(sympy.together(e))
        n = sympy.expand(n)
        if n == 0:
            return True
        if not self.rel:
            return False
        rs = list(self.rev.values())[::-1]
        gens = sorted((n.free_symbols | set().union(*[r.free_symbols for r in self.rel])) - set(rs), key=str)
        G = sympy.groebner([sympy.numer(sympy.together(r)) for r in self.rel], *gens[::-1], *rs, order='lex')
        return G.reduce(n)[1] == 0


def motions(R, P):
    for dim in (1, 2, 3):
        f, g = exact(P, 'affine_transform', dim), exact(P, 'affine_transform_vector', dim)
        x = [T.sym('x%d' % d) for d in range(dim)]
        p = [T.sym('p%d' % d) for d in range(dim)]
        cache = {}
        for key, n, sg in directions(dim):
            kd = tuple(s != 0 for s in sg)
            if kd not in cache:
                cache[kd] = evaluate(P, f, dim, [n, p, x]), evaluate(P, g, dim, [n, x])
            y, z = [[settled(v, sg) for v in w] for w in cache[kd]]
            rigid(C(R, 'points:%d:%s' % (dim, key), f), C(R, 'vectors:%d:%s' % (dim, key), g), dim, n, sg, x, p, y, z)


def rigid(c, cv, dim, n, sg, x, p, y, z):
    A = Radicals()
    xs, ps = [[next(iter(u.atoms())) for u in w] for w in (x, p)]

    def coefficients(w, by):
        m = [[T.diff(v, b) for b in by] for v in w]
        rest = [v - sum((m[i][k] * T.atom_value(b) for k, b in enumerate(by)), ZERO) for i, v in enumerate(w)]
        return m, rest
    M, rest = coefficients(y, xs)
    Mp, rest = coefficients(rest, ps)
    V, vrest = coefficients(z, xs)
    free = all(not any(a in xs + ps for a in e.deep_atoms()) for m in (M, Mp, V) for r in m for e in r)
    if not c.ok('linear', free and all(A.zero(A.conv(v)) for v in rest + vrest), 'rigid', lambda: [pretty(v) for v in y]):
        return
    M, Mp, V = [sympy.Matrix([[A.conv(e) for e in r] for r in m]) for m in (M, Mp, V)]
    null = lambda m: all(A.zero(e) for e in m)
    c.ok('origin', null(M + Mp), 'aligned', lambda: [pretty(v) for v in y])
    n2 = A.conv(sum((v * v for v in n), ZERO))
    N = sympy.Matrix([A.conv(v) for v in n])
    if dim == 1:
        c.ok('identity', null(M - sympy.eye(1)), 'rigid')
        return cv.ok('identity', null(V - sympy.eye(1)), 'inverse')
    c.ok('distance', null(M * M.T - sympy.eye(dim)), 'rigid', lambda: [pretty(v) for v in y])
    c.ok('orientation', A.zero(M.det() - 1), 'rigid', lambda: [pretty(v) for v in y])
    D = M * N
    ok = null(D[1:, :]) and A.zero(D[0] ** 2 - n2)
    at = {sympy.Symbol('n%d' % d): sympy.Integer((3, 12, 4)[d] * s) for d, s in enumerate(sg)}
    for b, s in A.rev.items():
        at[s] = sympy.sqrt(b.subs(at))
    ok = ok and bool(sympy.simplify(D[0].subs(at)) > 0)
    c.ok('direction', ok, 'aligned', lambda: [str(e) for e in D])
    cv.ok('inverse', null(V * M - sympy.eye(dim)), 'inverse', lambda: [pretty(v) for v in z])


class Data(Small):
    """the analytic data are unknown functions of the moved point and the time"""

    def __init__(self, P, nstate, npre, dim):
        super().__init__(P)
        h = self.I.hooks
        self.dim, self.draws = dim, 0
        h['affine_transform'] = self.move
        h['affine_transform_vector'] = self.turn
        h['compute'] = lambda I, e, fr: self.data('state', e, fr, nstate)
        h['initial_precomputations'] = lambda I, e, fr: self.data('pre', e, fr, npre)
        h['apply_galilei_transform'] = self.galilei
        h['draw'] = self.draw
        h['bind'] = lambda I, e, fr: Opaque('draw', e.get('t', ''))

    def draw(self, I, e, fr):
        self.draws += 1
        return T.sym('draw%d' % self.draws)

    def values(self, es, fr):
        r = []
        for x in es:
            v = self.val(x, fr)
            while isinstance(v, Ref):
                v = self.I.read(v.lv, '')
            if isinstance(v, Struct):
                v = Opaque(path(v), '')
            r += list(v.e) if isinstance(v, Arr) else [v if isinstance(v, Value) else plain(path(v))]
        return r

    def move(self, I, e, fr):
        a = self.values(e['a'], fr)
        return Arr([T.app('moved', d, *a) for d in range(self.dim)], e['t'])

    def turn(self, I, e, fr):
        a = self.values(e['a'], fr)
        return Arr([T.app('turned', d, *a) for d in range(self.dim)], e['t'])

    def data(self, name, e, fr, n):
        b = self.val(e['b'], fr)
        while isinstance(b, Ref):
            b = self.I.read(b.lv, '')
        return Arr([T.app(name, plain(path(b)), k, *self.values(e['a'], fr)) for k in range(n)], e['t'])

    def galilei(self, I, e, fr):
        return NotImplemented


def point(dim, name='x'):
    return Arr([T.sym('%s%d' % (name, d)) for d in range(dim)], 'dealii::Point<%d, double>' % dim)


def call(m, v, f, *args):
    r = m.I.call_clos(v, [m.I.new_root(a) for a in args], Frame(func=f))
    while isinstance(r, Ref):
        r = m.I.read(r.lv, '')
    if not isinstance(r, Arr):
        raise AnalysisError('result %s' % pretty(r))
    return r.e


def closures(R, P, eq, dim, nstate, npre):
    f = one(P, r'ryujin::InitialValues<ryujin::\w+::Description, %d, double>::parse_parameters_callback' % dim)
    c = C(R, '%s:%d:initial' % (eq, dim), f)
    n = [T.sym('o.initial_direction_[%d]' % d) for d in range(dim)]
    norm = T.power(sum((v * v for v in n), ZERO), T.const(HALF))
    unit = [v * T.inv(norm) for v in n]
    x, t = point(dim), T.sym('t')
    at = [T.sym('o.initial_position_[%d]' % d) for d in range(dim)]
    to = [T.app('moved', d, *unit, *at, *x.e) for d in range(dim)]
    for pert in (ZERO, T.sym('eps')):
        m = Data(P, nstate, npre, dim)
        st = [Opaque('st%d' % k, 'std::unique_ptr<ryujin::InitialState<X>>') for k in range(3)]
        go(m, f, {}, {'initial_state_list_': Arr(st), 'configuration_': Opaque('conf', 'std::string'), 'perturbation_': pert})
        put = {k: [e for e in m.calls('=') if plain(path(e.value[0])) == 'o.' + k] for k in ('initial_state_', 'initial_precomputed_')}
        names_ = [T.atom_value(a) for e in put['initial_precomputed_'] for a in e.guard.deep_atoms() if a.name == 'same']
        first = []
        for k in range(3):
            s = [a for a in names_ if 'st%d' % k in pretty(a) and 'conf' in pretty(a)]
            if not s:
                first = None
                break
            first.append(next(iter(s[0].atoms())))
        c.ok('named:%s' % pretty(pert), first is not None, 'selected', lambda: put)
        if first is None:
            continue
        for what, npl in (('initial_state_', nstate), ('initial_precomputed_', npre)):
            es = put[what]
            plus = 1 if what == 'initial_state_' and not pert.is_zero() else 0
            if not c.ok('choices:%s:%s' % (what, pretty(pert)), len(es) == 3 + plus and all(isinstance(e.value[1], Clos) and not e.loops for e in es), 'selected', lambda: es):
                continue
            for k in range(3):
                c.ok('choice:%s:%s:%d' % (what, pretty(pert), k), chosen(es[k].guard, first) == [int(j == k) for j in range(3)], 'selected', lambda: es[k].guard)
                if what == 'initial_state_':
                    got = call(m, es[k].value[1], f, x, t)
                    want = [T.app('state', 'st%d' % k, j, *to, t) for j in range(nstate)]
                    if momentum(eq):
                        want[1:1 + dim] = [T.app('turned', j, *unit, *want[1:1 + dim]) for j in range(dim)]
                else:
                    got = call(m, es[k].value[1], f, x)
                    want = [T.app('pre', 'st%d' % k, j, *to) for j in range(npre)]
                ok = len(got) == len(want) and all((a - b).is_zero() for a, b in zip(got, want))
                c.ok('value:%s:%s:%d' % (what, pretty(pert), k), ok, 'state', lambda: [pretty(a) for a in got])
            if not plus:
                continue
            e = es[3]
            base = [call(m, es[2].value[1], f, x, t)][0]
            got = call(m, e.value[1], f, x, t)
            later = T.gt0(t)
            a = next(iter(later.atoms()))
            for j in range(nstate):
                here, there = T.subst(got[j], {a: ZERO}), T.subst(got[j], {a: ONE})
                ok = (there - base[j]).is_zero() and not any(b.kind == 'bool' for b in here.deep_atoms())
                dr = [b for b in here.deep_atoms() if 'uniform_real_distribution<double>(-1,1)' in str(b.args and b.args[0]) and b.name == 'operator()']
                ok = ok and len(dr) == 1 and (here - base[j] * (ONE + pert * T.atom_value(dr[0]))).is_zero()
                c.ok('perturbed:%d' % j, ok, 'perturbed', lambda: pretty(got[j]))
            c.ok('perturbed', chosen(e.guard, first) == [1, 1, 1], 'perturbed', lambda: e.guard)


def chosen(g, names_):
    """whether a guard holds if one of the (different) names was configured"""
    return [T.subst(g, {a: ONE if a is b else ZERO for a in names_}).const() for b in names_]


def momentum(eq):
    return eq in ('euler', 'euler_aeos', 'navier_stokes', 'shallow_water')


def interpolation(R, P, eq, dim, nstate, npre):
    for fn, n, src in (('interpolate_hyperbolic_vector', nstate, 'initial_state'), ('interpolate_initial_precomputed_vector', npre, 'initial_precomputed')):
        f = one(P, r'ryujin::InitialValues<ryujin::\w+::Description, %d, double>::%s' % (dim, fn))
        c = C(R, '%s:%d:%s' % (eq, dim, src), f)
        m = Names(P, ('insert_component', 'reinit_with_scalar_partitioner'))
        m.I.hooks[src] = lambda I, e, fr, m=m, n=n: Arr([T.app('data', k, *flat_args(m, e, fr)) for k in range(n)], e.get('t', ''))
        args = {f['params'][0]['n']: T.sym('t')} if f['params'] else {}
        r = go(m, f, args, {})
        inter, ins = m.calls('interpolate'), m.calls('insert_component')
        lay, ghost = m.calls('reinit', 'reinit_with_scalar_partitioner'), m.calls('update_ghost_values')
        us = set(plain(path(e.value[0])) for e in ins) or set(plain(path(e.value[0])) for e in lay)
        if not c.ok('one vector', len(us) == 1, 'component', lambda: ins):
            continue
        u = us.pop()
        mine = [e for e in lay if plain(path(e.value[0])) == u]
        want = ('hyperbolic_vector_partitioner_', 'reinit') if src == 'initial_state' else ('scalar_partitioner_', 'reinit_with_scalar_partitioner')
        ok = len(mine) == 1 and mine[0].arr == want[1] and plain(path(mine[0].value[1])) == 'od.' + want[0] and mine[0].guard == ONE and not mine[0].loops
        c.ok('partition', ok, 'layout', lambda: lay)
        start = m.at(mine[0]) if mine else 0
        for k in range(n):
            e = [x for x in ins if isinstance(x.value[2], Value) and x.value[2].const() == k]
            ok = len(e) == 1 and e[0].guard == ONE and not e[0].loops and m.at(e[0]) > start
            if ok:
                tmp = plain(path(e[0].value[1]))
                src_ = [x for x in inter if plain(path(x.value[3])) == tmp and m.at(x) < m.at(e[0])]
                ok = bool(src_) and src_[-1].guard == ONE and not src_[-1].loops and plain(path(src_[-1].value[1])) == 'od.dof_handler_'
                tl = [x for x in lay if plain(path(x.value[0])) == tmp]
                ok2 = len(tl) == 1 and plain(path(tl[0].value[1])) == 'od.scalar_partitioner_' and ok and m.at(tl[0]) < m.at(src_[-1])
                c.ok('scratch:%d' % k, ok2, 'layout', lambda: tl)
            if c.ok('component:%d' % k, ok, 'component', lambda: (e, inter)):
                v = value(m, P, src_[-1].value[2], dim)
                x = list(point(dim).e) + ([T.sym('t')] if args else [])
                c.ok('function:%d' % k, (v - T.app('data', k, *x)).is_zero(), 'function', lambda: pretty(v))
        c.ok('nothing else', len(ins) == n, 'component', lambda: ins)
        if n:
            ok = len([e for e in ghost if plain(path(e.value[0])) == u and e.guard == ONE]) == 1 and m.at(ghost[-1]) > max([m.at(e) for e in ins] or [0])
            c.ok('ghosts', ok, 'layout', lambda: ghost)


def value(m, P, fn, dim):
    """the scalar function at a point"""
    if not isinstance(fn, Struct):
        raise AnalysisError('function %s' % pretty(fn))
    fs = [f for f in P.find(r'.*::value') if f.get('cls') == fn.t]
    if len(fs) != 1:
        raise AnalysisError('anchor value of %s: %d definitions found' % (fn.t, len(fs)))
    return m.M.run(fs[0], [m.I.new_root(point(dim)), m.I.new_root(ZERO)], this=m.I.new_root(fn), keep=True)


def flat_args(m, e, fr):
    r = []
    for x in e['a']:
        v = m.val(x, fr)
        while isinstance(v, Ref):
            v = m.I.read(v.lv, '')
        r += list(v.e) if isinstance(v, Arr) else [v]
    return r


def check(R, item):
    tu, eq = item
    P = export.programs([tu])[tu]
    if eq == EQS[0]:
        motions(R, P)
    for dim in (1, 2, 3):
        L = names(P, eq, dim)
        n, k = len(L['component_names']), len(L['initial_precomputed_names'])
        closures(R, P, eq, dim, n, k)
        interpolation(R, P, eq, dim, n, k)


def run(R):
    for r in RULES:
        R.rule(RULES[r])
    items = [('%s:initial_values.cc' % eq, eq) for eq in EQS]
    export.programs([t for t, _ in items])
    R.each(items, check)
    R.floor('obligations', 1000)
