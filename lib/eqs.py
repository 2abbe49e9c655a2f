"""The equation modules: configured systems, views and symbolic states."""
import re
import export
import terms as T
from terms import Value, ZERO, ONE, HALF
from interp import AnalysisError, Arr, Struct, Opaque, Str, Ref, Clos, strip_type, split_targs, pretty, tkey
from model import Model, S, vec, flat, same, first_difference

EPS = T.sym('eps', True)   # machine epsilon of double

GM1 = S('gamma-1', True)                 # gamma > 1
GAMMA = ONE + GM1


def va(prog):
    for q in prog.class_by_q:
        pass
    for f in prog.funcs.values():
        m = re.search(r'dealii::VectorizedArray<double, ?\d+>', f['q'])
        if m:
            return m.group(0)
    raise AnalysisError('no vectorised instantiation found')


class Eq:
    """one instantiation <dim, number> of an equation module"""

    def __init__(self, ns, unit, dim, vect=False, params=None, callbacks=True):
        self.ns, self.dim, self.vect = ns, dim, vect
        self.P = export.programs(['probe:' + unit])['probe:' + unit]
        self.num = va(self.P) if vect else 'double'
        self.M = Model(self.P)
        self.I = self.M.I
        self.prepare()
        self.system = self.M.configure('ryujin::%s::HyperbolicSystem' % ns, params=params or {})
        self.view = self.M.construct(self.cls('HyperbolicSystemView'), [self.system])
        self.tag = '%s<%d,%s>' % (ns, dim, 'simd' if vect else 'scalar')

    def prepare(self):
        pass

    def cls(self, n):
        return 'ryujin::%s::%s<%d, %s>' % (self.ns, n, self.dim, self.num)

    def fn(self, n, cls='HyperbolicSystemView', pred=None):
        return self.P.one(re.escape(self.cls(cls) + '::' + n), pred)

    def pfn(self, n, scalar=False):
        if scalar:
            return self.P.one(re.escape('probe::ScalarProbe<%d>::%s' % (self.dim, n)))
        return self.P.one(re.escape('probe::Probe<%d, %s>::%s' % (self.dim, self.num, n)))

    def member(self, n, *args, pred=None):
        """a member of the view"""
        return self.M.run(self.fn(n, pred=pred), list(args), self.view)

    def probe(self, n, *args, scalar=False):
        return self.M.run(self.pfn(n, scalar), [self.view] + list(args))

    def static(self, n):
        """a compile-time constant of the view"""
        c = self.P.class_by_q[self.cls('HyperbolicSystemView')]
        for x in c['statics']:
            if x['n'] == n and x.get('e', {}).get('k') == 'num':
                return int(x['e']['v'])
        raise AnalysisError('no constant %s in %s' % (n, c['q']))

    def produced(self, U, neighbour=None, upto=None):
        """what the precomputation stores for a row with state U, after all
        cycles; neighbour = (state, stored values) of every other row of the
        stencil.  Also returns the guards, index ranges and keys of the writes."""
        M = self.M
        f = self.pfn('precompute')
        cur = None
        info = []
        for cycle in range(self.static('n_precomputation_cycles') if upto is None else upto):
            def prov(p, k, t, cur=cur):
                nb = k.startswith('at(*')
                if p == 'arg.state_vector<0>':
                    return (neighbour[0] if neighbour else None) if nb else U
                if p == 'arg.state_vector<1>':
                    return (neighbour[1] if neighbour else None) if nb else cur
            M.provider = prov
            M.writes.clear()
            try:
                M.run(f, [self.view, T.const(cycle)] +
                      [self.I.symbolic(p['t'], 'arg.' + p['n']) for p in f['params'][2:]])
            finally:
                M.provider = None
            ws = list(M.writes)
            if len(ws) != 1 or ws[0][0] != 'arg.state_vector<1>' or not isinstance(ws[0][2], Arr):
                raise AnalysisError('%s: precomputation cycle %d stores %d values' % (self.tag, cycle, len(ws)))
            cur = ws[0][2]
            info.append(ws[0])
        return cur, info

    def with_tables(self, tables, fn):
        """evaluate fn with the tensors of the given (path, key) tables"""
        M = self.M
        old = dict(M.tensors)
        M.tensors.update(tables)
        try:
            return fn()
        finally:
            M.tensors = old

    def interface(self, Ui, Uj, c, pi=None, pj=None, zi=None, zj=None, high=False, name=None, extra=()):
        """the flux between row i (state Ui, precomputed pi, initial zi) and a column j"""
        t = {}
        if pi is not None:
            t[('pv', 'at(i)')], t[('pv', 'at(*js)')] = pi, pj
        if zi is not None:
            t[('iv', 'at(i)')], t[('iv', 'at(*js)')] = zi, zj
        name = name or ('interface_high' if high else 'interface')
        args = [Opaque('pv'), Opaque('iv'), S('i'), S('js'), Ui, Uj] + ([c] if c is not None else []) + list(extra)
        return self.with_tables(t, lambda: self.probe(name, *args))


def dot(a, b):
    r = ZERO
    for x, y in zip(a, b):
        r = r + x * y
    return r


def sq(a):
    return dot(a, a)


def names(p, n):
    return [S('%s%d' % (p, k)) for k in range(n)]


def unit_normal(dim, p='n'):
    """a generic unit vector, normalised by construction"""
    if dim == 1:
        return [S(p + '.sign')]
    return names(p, dim)


class Euler(Eq):
    params = {'gamma': GAMMA, 'reference density': S('rho_ref', True),
              'vacuum state relaxation small': S('relax_small', True),
              'vacuum state relaxation large': S('relax_large', True)}

    def __init__(self, dim, vect=False):
        super().__init__('Euler', 'euler', dim, vect, self.params)

    def state(self, s=''):
        """(density, velocity, pressure) and the conserved state"""
        rho, p = S('rho' + s, True), S('p' + s, True)
        u = names('u%s_' % s, self.dim)
        return rho, u, p, self.cons(rho, u, p)

    def cons(self, rho, u, p):
        return vec(rho, *[rho * x for x in u], p / GM1 + HALF * rho * sq(u))

    def raw(self, s=''):
        return vec(S('rho' + s, True), *names('m%s_' % s, self.dim), S('E' + s))

    def flux(self, rho, u, p):
        E = p / GM1 + HALF * rho * sq(u)
        r = [[rho * x for x in u]]
        for i in range(self.dim):
            r.append([rho * u[i] * u[k] + (p if i == k else ZERO) for k in range(self.dim)])
        r.append([u[k] * (E + p) for k in range(self.dim)])
        return r


class EulerAEOS(Eq):
    params = {'reference density': S('rho_ref', True),
              'vacuum state relaxation small': S('relax_small', True),
              'vacuum state relaxation large': S('relax_large', True)}

    def __init__(self, dim, vect=False, strict=None):
        p = dict(self.params)
        p['compute strict bounds'] = T.boolsym('strict') if strict is None else (ONE if strict else ZERO)
        super().__init__('EulerAEOS', 'euler_aeos', dim, vect, p)

    def prepare(self):
        h = self.I.hooks

        def ev(name, nargs, pos=False):
            def f(I, e, fr):
                if e['k'] != 'mcall' or 'EquationOfState' not in e.get('cls', '') or len(e['a']) != nargs:
                    return NotImplemented
                a = [I.deref(I.eval(x, fr), 'double') for x in e['a']]
                return T.app('eos.' + name, *a, pos=pos) if a else S('eos.' + name, pos)
            return f
        for n in ('pressure', 'specific_internal_energy', 'temperature', 'speed_of_sound'):
            h[n] = ev(n, 2, n == 'speed_of_sound')
        for n in ('interpolation_b', 'interpolation_pinfty', 'interpolation_q'):
            h[n] = ev(n, 0)
        h['prefer_vector_interface'] = lambda I, e, fr: getattr(self, 'vector_interface', ZERO)

    b, pinf, q = S('eos.interpolation_b'), S('eos.interpolation_pinfty'), S('eos.interpolation_q')

    def state(self, s=''):
        rho, e = S('rho' + s, True), S('e' + s)
        u = names('u%s_' % s, self.dim)
        return rho, u, e, self.cons(rho, u, e)

    def cons(self, rho, u, e):
        return vec(rho, *[rho * x for x in u], rho * e + HALF * rho * sq(u))

    def raw(self, s=''):
        return vec(S('rho' + s, True), *names('m%s_' % s, self.dim), S('E' + s))

    def flux(self, rho, u, e, p):
        E = rho * e + HALF * rho * sq(u)
        r = [[rho * x for x in u]]
        for i in range(self.dim):
            r.append([rho * u[i] * u[k] + (p if i == k else ZERO) for k in range(self.dim)])
        r.append([u[k] * (E + p) for k in range(self.dim)])
        return r


G = S('gravity', True)


class ShallowWater(Eq):
    params = {'gravity': G, 'manning friction coefficient': S('manning', True),
              'reference water depth': S('h_ref', True),
              'dry state relaxation factor': S('relax_factor', True),
              'dry state relaxation small': S('relax_small', True),
              'dry state relaxation large': S('relax_large', True)}

    def __init__(self, dim, vect=False):
        super().__init__('ShallowWater', 'shallow_water', dim, vect, self.params)

    cut_small = S('h_ref', True) * S('relax_small', True) * EPS
    cut_large = S('h_ref', True) * S('relax_large', True) * EPS

    def wet(self, *hs):
        """rules that fix comparisons of the given depths with the cut-offs: the regime h >= cut-off"""
        r = {}
        for h in hs:
            for c in (self.cut_small, self.cut_large):
                for b in T.bools(T.gt0(h - c)):
                    r[b] = 1 if T.restrict(T.gt0(h - c), b, 1).const() == 1 else 0
        return r

    def state(self, s=''):
        h = S('h' + s, True)
        u = names('u%s_' % s, self.dim)
        return h, u, vec(h, *[h * x for x in u])

    def raw(self, s=''):
        return vec(S('h' + s, True), *names('m%s_' % s, self.dim))


def regime(v, rules):
    """the value in a regime given by comparisons fixed to true / false"""
    if isinstance(v, Arr):
        return Arr([regime(x, rules) for x in v.e], v.t)
    if isinstance(v, Value):
        for a, val in rules.items():
            v = T.restrict(v, a, val)
    return v


class Scalar(Eq):
    params = {}

    def __init__(self, dim, vect=False):
        super().__init__('ScalarConservation', 'scalar_conservation', dim, vect, self.params)

    def prepare(self):
        h = self.I.hooks

        def ev(name):
            def f(I, e, fr):
                if e['k'] != 'mcall' or 'Flux' not in e.get('cls', '') or len(e['a']) != 2:
                    return NotImplemented
                u, k = [I.deref(I.eval(x, fr), 'double') for x in e['a']]
                return T.app('flux.' + name, u, k)
            return f
        h['value'] = ev('f')
        h['gradient'] = ev('df')
        h['derivative_approximation_delta'] = lambda I, e, fr: S('delta', True) if 'Flux' in e.get('cls', '') else NotImplemented

    def raw(self, s=''):
        return vec(S('u' + s))


ALL = [(Euler, 'Euler'), (EulerAEOS, 'EulerAEOS'), (ShallowWater, 'ShallowWater'), (Scalar, 'ScalarConservation')]
_cache = {}


def get(c, dim, vect=False, **kw):
    k = (c.__name__, dim, vect, repr(kw))
    if k not in _cache:
        _cache[k] = c(dim, vect, **kw)
    return _cache[k]


def variants():
    for dim in (1, 2, 3):
        for v in (False, True):
            yield dim, v


def preload():
    export.programs(['probe:euler', 'probe:euler_aeos', 'probe:shallow_water', 'probe:scalar_conservation'])
