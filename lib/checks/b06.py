"""B06: order conditions and stage times of the time-stepping schemes"""
from fractions import Fraction
import re
import export
import terms as T
from terms import Value, ZERO, ONE
from interp import AnalysisError, Struct, Opaque, pretty, Ref
from rk import Integrator

EQS = ('euler', 'euler_aeos', 'navier_stokes', 'scalar_conservation', 'shallow_water', 'skeleton')
TOL = Fraction(1, 10**12)
TAU = T.sym('tau', True)


def expand(v, x, memo):
    """the explicit part: implicit updates replaced by their argument"""
    def fn(a, args):
        if a.kind == 'sym':
            b = x.bases.get(T.atom_value(a))
            if b is not None:
                return expand(b, x, memo)
        if a.kind == 'app' and a.name == 'F':
            return T.atom_value(a)
        if a.kind == 'app' and a.name == 'P':
            return expand(a.args[0], x, memo)
        return None
    r = ZERO
    for m, c in v.t.items():
        k = T.norm({(): c})
        for a, e in m:
            w = fn(a, a.args if a.kind == 'app' else ())
            w = T.atom_value(a) if w is None else w
            k = k * (w if e == 1 else T.power(w, e))
        r = r + k
    return r


def rational(v):
    c = v.const() if isinstance(v, Value) else v
    return None if c is None else Fraction(c)


class Tableau:
    def __init__(self, x, final, dt):
        self.x, self.dt = x, dt
        self.index, self.rows, self.times = {}, [], []
        self.rate = x.I if False else None
        self.bad = []
        self.b = self.row(expand(final, x, {}))

    def row(self, v):
        """{stage: coefficient}; v = U + sum coefficient tau F"""
        r = {}
        u = ZERO
        for m, c in v.t.items():
            fs = [(a, e) for a, e in m if a.kind == 'app' and a.name == 'F']
            if not fs:
                u = u + T.norm({m: c})
                continue
            k = T.norm({tuple(y for y in m if y[0] is not fs[0][0]): c}) * T.inv(TAU)
            q = rational(k)
            if len(fs) != 1 or fs[0][1] != 1 or q is None:
                self.bad.append('coefficient %s' % pretty(k)[:60])
                continue
            j = self.stage(fs[0][0])
            r[j] = r.get(j, 0) + q / self.dt
        if u != T.sym('U'):
            self.bad.append('base %s' % pretty(u)[:100])
        return r

    def stage(self, a):
        if a not in self.index:
            r = self.row(expand(a.args[0], self.x, {}))
            t = rational((a.args[1] - T.sym('t')) * T.inv(TAU)) if isinstance(a.args[1], Value) else None
            self.index[a] = len(self.rows)
            self.rows.append(r)
            self.times.append(None if t is None else t / self.dt)
            if t is None:
                self.bad.append('stage evaluated at %s' % pretty(a.args[1])[:60])
        return self.index[a]

    def conditions(self, order):
        n = len(self.rows)
        A = [[self.rows[i].get(j, Fraction(0)) for j in range(n)] for i in range(n)]
        b = [self.b.get(j, Fraction(0)) for j in range(n)]
        c = [sum(r) for r in A]
        Ac = [sum(A[i][j] * c[j] for j in range(n)) for i in range(n)]
        Ac2 = [sum(A[i][j] * c[j]**2 for j in range(n)) for i in range(n)]
        AAc = [sum(A[i][j] * Ac[j] for j in range(n)) for i in range(n)]
        dot = lambda *v: sum((__import__('math').prod(x) for x in zip(*v)), Fraction(0))
        r = [('sum b = 1', dot(b), 1)]
        if order >= 2:
            r += [('b.c = 1/2', dot(b, c), Fraction(1, 2))]
        if order >= 3:
            r += [('b.c^2 = 1/3', dot(b, c, c), Fraction(1, 3)), ('b.A.c = 1/6', dot(b, Ac), Fraction(1, 6))]
        if order >= 4:
            r += [('b.c^3 = 1/4', dot(b, c, c, c), Fraction(1, 4)), ('(b.c).A.c = 1/8', dot(b, c, Ac), Fraction(1, 8)),
                  ('b.A.c^2 = 1/12', dot(b, Ac2), Fraction(1, 12)), ('b.A.A.c = 1/24', dot(b, AAc), Fraction(1, 24))]
        t = [(i, c[i], self.times[i]) for i in range(n)]
        return r, t, n


def nominal(name):
    """(stages, order) promised by the name of a scheme"""
    m = re.search(r'(\d)(\d)', name)
    st, o = int(m.group(1)), int(m.group(2))
    return st, o


def limit_of(x, v):
    while isinstance(v, Ref):
        v = x.I.read(v.lv, '')
    if isinstance(v, Value):
        return v
    if isinstance(v, Struct):
        for y in v.f.values():
            if isinstance(y, Value):
                return y
    if isinstance(v, Opaque) and getattr(v, 'args', None):
        for y in v.args:
            if isinstance(y, Value):
                return y
    return None


def one(R, cfg):
    eq, dim, scheme = cfg
    x = Integrator(eq, dim, scheme, 'bang_bang_control')
    ret = x.step()
    R.count('schemes')
    f = x.f
    tag = '%s:%dd:%s' % cfg

    def ok(what, cond, rule, detail=''):
        R.count('scheme obligations')
        return R.ok('%s:%s' % (tag, what), cond, f, rule, detail)
    dt = rational(ret * T.inv(TAU)) if isinstance(ret, Value) else None
    if not ok('advance', dt is not None and dt > 0, 'the step returns a multiple of the explicit step size', lambda: pretty(ret)[:100]):
        return
    first = x.steps[0]
    lim = limit_of(x, first.tmax)
    ok('limit', first.kind == 'H' and first.tau.is_zero() and lim is not None and lim * dt == T.sym('t_final') - T.sym('t'),
       'the explicit step size is limited so that the whole step does not pass the final time', lambda: pretty(first.tmax)[:100])
    ok('same-tau', all(s.tau == TAU for s in x.steps[1:] if s.kind == 'H'), 'all explicit stages use the step size of the first one',
       lambda: str([pretty(s.tau) for s in x.steps]))
    stages, order = nominal(scheme)
    tab = Tableau(x, x.get('state_vector'), dt)
    conds, times, n = tab.conditions(order)
    ok('combination', not tab.bad, 'the new state is the old one plus weighted fluxes', '; '.join(tab.bad))
    if tab.bad:
        return
    for name, v, w in conds:
        ok('order:' + name, abs(v - w) < TOL, 'order condition of a method of order %d' % order, '%s: %.15g' % (name, float(v)))
    for i, c, t in times:
        ok('time:%d' % i, abs(c - t) < TOL, 'a stage is evaluated at the time its coefficients imply', 'stage %d: coefficients %.6g, evaluated at %.6g' % (i, float(c), float(t)))
    exp = [s for s in x.steps if s.kind == 'H']
    want = stages * (2 if scheme.startswith('strang') else 1)
    ok('stages', len(exp) == want, 'the number of explicit stages', str(len(exp)))
    # implicit steps
    imp = [s for s in x.steps if s.kind == 'P']
    if scheme.startswith('strang'):
        good = len(imp) == 1
        ok('implicit', good, 'one implicit step between two explicit ones', str(len(imp)))
        if good:
            p = imp[0]
            P = T.app('P', p.value, p.t, p.tau, tuple(p.stagevals), tuple(p.weights))
            B = list(x.bases.values())
            ok('crank-nicolson', len(B) == 1 and B[0] == T.const(2) * P - p.value, 'the implicit step is extrapolated to a Crank-Nicolson step',
               lambda: str([pretty(b)[:200] for b in B]))
            ok('implicit-size', p.tau * T.const(2) == ret, 'the Crank-Nicolson step spans the whole step', lambda: pretty(p.tau))
            ok('implicit-time', p.t == T.sym('t'), 'the Crank-Nicolson step starts with the step', lambda: pretty(p.t))
            half = Tableau(x, p.value, dt)
            ok('half', abs(sum(half.b.values()) - Fraction(1, 2)) < TOL, 'half of the explicit update precedes the implicit step', str(sum(half.b.values())))
            ok('half-order', len(half.rows) == stages, 'all stages of the first half precede the implicit step', str(len(half.rows)))
    elif scheme.startswith('imex'):
        ok('implicit', len(imp) == stages and sum((rational(p.tau * T.inv(TAU)) or 0) for p in imp) == dt, 'the implicit stages span the whole step', str([pretty(p.tau) for p in imp]))
        ok('implicit-times', all(p.t == T.sym('t') + T.const(k) * TAU for k, p in enumerate(imp)), 'an implicit stage starts where the one before ended', str([pretty(p.t) for p in imp]))
        fin = x.get('state_vector')
        ok('implicit-last', len(fin.t) == 1 and next(iter(fin.atoms())).name == 'P', 'the last stage is implicit', pretty(fin)[:100])
    else:
        ok('implicit', not imp, 'an explicit scheme has no implicit stage', '')
    # storage
    res = x.prepare()
    size = [rational(v) for p, v in res if p.endswith('temp_')]
    used = [int(m.group(1)) for s in x.steps for l in [s.old, s.new] + s.stages for m in [re.search(r'temp_\[(\d+)\]', l)] if m]
    ok('storage', len(size) == 1 and size[0] is not None and (not used or max(used) < size[0]), 'the temporary vectors a scheme uses are allocated', '%s / %s' % (size, sorted(set(used))))
    eff = x.efficiency()
    ok('efficiency', eff == dt, 'the CFL statistics account for the number of explicit steps a step spans', str(eff))


def run(R):
    export.programs(['%s:time_integrator.cc' % e for e in EQS])
    R.rule('Each time-stepping scheme is executed abstractly over formal combinations of fluxes at prepared states; the resulting Runge-Kutta tableau '
           'must satisfy the order conditions of the order in the name of the scheme, in exact rational arithmetic up to 1e-12.')
    en = export.programs(['euler:time_integrator.cc'])['euler:time_integrator.cc'].enums['ryujin::TimeSteppingScheme']
    names = [n for n, _ in en['vals']]
    cfgs = [(e, d, n) for e in EQS for d in (1, 2, 3) for n in names]
    if R.tier == 'quick':
        cfgs = [(e, d, n) for e, d, n in cfgs if (e, d) in (('euler', 1), ('navier_stokes', 2), ('shallow_water', 3))]
    R.each(cfgs, one)
    R.floor('schemes', 20)
    R.floor('scheme obligations', 200)
