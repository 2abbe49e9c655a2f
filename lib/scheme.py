"""The explicit update of one row, as normal forms over the row i, its neighbour j and the entry ij."""
import re
import terms as T
from terms import Value, ZERO, ONE
from interp import AnalysisError, Arr, pretty
from model import flat, S
from stepper import Stepper, Access, Call, Mark, Phase

EQS = [('euler', 'Euler'), ('euler_aeos', 'Euler AEOS'), ('navier_stokes', 'Navier-Stokes'), ('scalar_conservation', 'scalar'),
       ('shallow_water', 'shallow water'), ('skeleton', 'skeleton')]
I, J, C = T.sym('i'), T.sym('j'), T.sym('c', True)
SYMMETRIC = {'mass_matrix', 'mass_matrix_inverse', 'incidence_matrix', 'dij_matrix'}


def short(p):
    """this.offline_data_.mass_matrix_ -> mass_matrix"""
    return p.split('.')[-1].rstrip('_')


TAB = re.compile(r'^(.*?)(?:@([0-9.]+|mixed))?(\^T)?((?:\[\d+\])*)$')


class Scheme:
    def __init__(self, eq, dim, stages=2, iterations=2, dg=False, number='double'):
        self.eq, self.dim, self.stages, self.iterations, self.dg = eq, dim, stages, iterations, dg
        self.st = st = Stepper('%s:hyperbolic_module.cc' % eq, eq, dim)
        st.fix('this.limiter_parameters_.iterations_', T.const(iterations))
        en = st.P.enums.get('ryujin::Ansatz')
        if not en:
            raise AnalysisError('enumeration of ansatz spaces not found')
        en = {n: int(v) for n, v in en['vals']}
        st.fix('this.offline_data_.discretization_.ansatz_', T.const(en['dg_q1' if dg else 'cg_q1']))
        fs = st.P.find(r'.*HyperbolicModule.*, %d, %s>::step' % (dim, number), pred=lambda f: f['ta'] == [str(stages)])
        if len(fs) != 1:
            raise AnalysisError('%s dim %d: %d instantiations of the step with %d stages' % (eq, dim, len(fs), stages))
        self.f = fs[0]
        self.memo = {}
        self.ret = st.run(self.f)
        self.tag = '%s:%dd:%ds:%dp%s' % (eq, dim, stages, iterations, ':dg' if dg else '')
        self.phases = [e.phase for e in st.events if isinstance(e, Mark) and e.kind == 'phase']

    # -- normal form over i, j, c -------------------------------------------------------------------
    def fn(self, x, args):
        if x.name == 'iv':
            d = args[0].const() if isinstance(args[0], Value) else args[0]
            if d == 0:
                return I
            if d == 1:
                return C
        if x.name == 'col' and len(args) == 2:
            if args[0] == I and args[1] == C:
                return J
            if args[0] == I and args[1].is_zero():
                return I
        if x.name == 'deref' and isinstance(args[0], Value):
            off = args[0] - T.app('columns', I)
            if off == C:
                return J
            if off.is_zero():
                return I
        if x.name == 'eq0' and args[0] == T.sym('tau'):
            return ZERO
        if x.name == 'sum' and x.kind == 'app':
            body = args[-1]
            la = args[:-1]
            return T.app('sum', *la, body)
        return None

    def n(self, v):
        if isinstance(v, Arr):
            return Arr([self.n(x) for x in v.e], v.t)
        if isinstance(v, Value):
            return T.rewrite(v, self.fn, self.memo)
        if isinstance(v, tuple):
            return tuple(self.n(x) for x in v)
        return v

    # -- what happened ---------------------------------------------------------------------------------
    def marks(self, *kinds):
        return [e for e in self.st.events if isinstance(e, Mark) and e.kind in kinds]

    def row_writes(self, array):
        """[(phase, access)] of a table by short name"""
        return [(p, a) for p in self.phases for a in p.writes() if short(a.array) == array]

    def value_of(self, name, comp, row, col, ver, tr):
        """the normal form last written to an entry before a given version was read"""
        return None


def split_sum(v):
    """v = rest + sum over the stencil of body: (rest, body, loops)"""
    rest, body, loops = ZERO, ZERO, set()
    for m, c in v.t.items():
        sums = [x for x, e in m if x.name == 'sum' and x.kind == 'app']
        if not sums:
            rest = rest + T.norm({m: c})
            continue
        if len(sums) != 1 or any(e != 1 for x, e in m if x is sums[0]):
            raise AnalysisError('sum in a nonlinear position')
        k = T.norm({tuple((x, e) for x, e in m if x is not sums[0]): c})
        body = body + k * sums[0].args[-1]
        loops.add(tuple(pretty(a) if isinstance(a, Value) else str(a) for a in sums[0].args[:-1]))
    return rest, body, loops


def atoms_like(v, pred):
    return sorted({a for a in v.deep_atoms() if pred(a)})


def table(x):
    """(array, version, transposed, component) of a table atom"""
    if x.kind != 'app' or not x.args or not all(isinstance(a, Value) for a in x.args):
        return None
    m = TAB.match(x.name)
    if not m or x.name in ('iv', 'col', 'row_length', 'columns', 'max', 'abs', 'log'):
        return None
    return m.group(1), m.group(2), bool(m.group(3)), m.group(4)


def swapped(v):
    """the same expression seen from the neighbour: i and j exchanged, entry ij becomes ji"""
    def fn(x, args):
        if x.kind == 'sym' and x.name == 'i':
            return J
        if x.kind == 'sym' and x.name == 'j':
            return I
        t = table(x)
        if t and len(args) == 2 and isinstance(x.args[1], Value) and x.args[0] == I and x.args[1] == C:
            # matrix entries: (i, c) becomes the transposed entry
            arr, ver, tr, comp = t
            nm = short(arr)
            if nm == 'cij_matrix':
                return -T.app(x.name, I, C)
            if nm in SYMMETRIC and not tr:
                return T.app(x.name, I, C)
            nm2 = arr + ('@' + ver if ver else '') + ('' if tr else '^T') + comp
            return T.app(nm2, I, C)
        return None
    return T.rewrite(v, fn)


def bilinear(v, dim, symmetric=lambda comp: True, kernels=('flux_divergence', 'high_order_flux_divergence')):
    """flux divergences are linear in the stencil vector and symmetric in the two states (decided by A02, A03)"""
    def fn(x, args):
        m = re.match(r'^(\w+)((?:\[\d+\])*)\.(\d+)$', x.name)
        if x.kind == 'app' and m and m.group(1) in kernels and len(args) == 2:
            if symmetric(m.group(2)) and T.keyof(args[1]) < T.keyof(args[0]):
                return T.app(x.name, args[1], args[0])
            return None
        m = re.match(r'^(\w+)((?:\[\d+\])*)$', x.name)
        if x.kind != 'app' or not m or m.group(1) not in kernels or len(args) != 3:
            return None
        a, b, c = args
        comp = m.group(2)
        if symmetric(comp) and T.keyof(b) < T.keyof(a):
            a, b = b, a
        cs = c if isinstance(c, tuple) else (c,)
        r = ZERO
        for d, cd in enumerate(cs):
            r = r + cd * T.app('%s%s.%d' % (m.group(1), comp, d), a, b)
        return r
    return T.rewrite(v, fn)


# -- the documented scheme -------------------------------------------------------------------------
PRE = ('this.initial_precomputed_',)


class Reference:
    """the documented update, written with the same symbols"""

    def __init__(self, s, ncomp):
        self.s, self.m = s, ncomp
        self.sw = s.eq == 'shallow_water'
        self.hf = 'high_order_flux_divergence' if self.sw else 'flux_divergence'
        self.tau = T.sym('tau')

    def U(self, x, stage=None):
        a = 'old_state_vector<0>' if stage is None else 'stage_state_vectors[%d][0]' % stage
        return [T.app('%s[%d]' % (a, k), x) for k in range(self.m)]

    def prec(self, stage=None):
        return 'old_state_vector<1>' if stage is None else 'stage_state_vectors[%d][1]' % stage

    def flux(self, x, stage=None):
        return T.app('flux', (self.prec(stage),), PRE, x, tuple(self.U(x, stage)))

    def c(self, col):
        return tuple(T.app('this.offline_data_.cij_matrix_[%d]' % d, I, col) for d in range(self.s.dim))

    def div(self, kernel, a, b, col, k):
        return T.app('%s[%d]' % (kernel, k), a, b, self.c(col))

    def source(self, x, k, stage=None):
        return T.app('nodal_source[%d]' % k, (self.prec(stage),), x, tuple(self.U(x, stage)), self.tau) if self.sw else ZERO

    def weights(self):
        w = [T.app('stage_weights[%d]' % s) if False else T.sym('stage_weights[%d]' % s) for s in range(self.s.stages)]
        r = ONE
        for x in w:
            r = r - x
        return r, w

    def off(self, name, *a):
        return T.app('this.offline_data_.%s_' % name, *a)

    def minv(self, x):
        return T.inv(self.off('lumped_mass_matrix', x))

    def dij(self, col):
        return T.app('this.dij_matrix_@%s' % self.s.versions['dij'], I, col)

    def factor(self, x, col):
        al = self.s.versions['alpha']
        f = (T.app('this.alpha_@%s' % al, I) + T.app('this.alpha_@%s' % al, x)) * T.HALF
        if self.s.dg:
            f = T.vmax(f, self.off('incidence_matrix', I, col))
        return f

    def jump(self, x, k):
        """the difference of states the graph viscosity acts on"""
        if self.sw:
            a, b = self.flux(I), self.flux(x)
            return T.app('equilibrated_states[1][%d]' % k, a, b) - T.app('equilibrated_states[0][%d]' % k, a, b)
        return self.U(x)[k] - self.U(I)[k]

    def low(self, x, col, k):
        """m_i / tau times the contribution of one neighbour to the low-order update"""
        return self.div('flux_divergence', self.flux(I), self.flux(x), col, k) + self.dij(col) * self.jump(x, k)

    def highflux(self, x, col, k):
        w0, w = self.weights()
        r = w0 * self.div(self.hf, self.flux(I), self.flux(x), col, k)
        for s, ws in enumerate(w):
            r = r + ws * self.div(self.hf, self.flux(I, s), self.flux(x, s), col, k)
        return r

    def highsource(self, x, k):
        w0, w = self.weights()
        r = w0 * self.source(x, k)
        for s, ws in enumerate(w):
            r = r + ws * self.source(x, k, s)
        return r

    def r(self, x, col, k):
        m = self.off('mass_matrix', I, col)
        return (self.dij(col) * self.factor(x, col) * self.jump(x, k) + self.highflux(x, col, k)
                + m * (self.highsource(x, k) - self.highsource(I, k)))

    def p(self, x, col, k):
        m = self.off('mass_matrix', I, col)
        d = self.dij(col)
        return (-self.div('flux_divergence', self.flux(I), self.flux(x), col, k) + d * (self.factor(x, col) - ONE) * self.jump(x, k)
                + self.highflux(x, col, k) + m * (self.highsource(x, k) - self.source(I, k)))


def normalise(v, s):
    """facts decided elsewhere: linear and symmetric fluxes, the lumped mass inverse"""
    sw = s.eq == 'shallow_water'

    def fn(x, args):
        if x.kind != 'app':
            return None
        if x.name == 'this.offline_data_.lumped_mass_matrix_inverse_':
            return T.inv(T.app('this.offline_data_.lumped_mass_matrix_', *args))
        if x.name.startswith('equilibrated_states[') and T.keyof(args[1]) < T.keyof(args[0]):
            n = x.name[len('equilibrated_states['):]
            return T.app('equilibrated_states[%d%s' % (1 - int(n[0]), n[1:]), args[1], args[0])
        return None
    v = T.rewrite(v, fn)
    return bilinear(v, s.dim, (lambda c: c == '[0]') if sw else (lambda c: True))


def clip(v, n=500):
    t = pretty(v)
    t = t.replace('this.offline_data_.', '').replace('this.', '').replace('old_state_vector<0>', 'U').replace('old_state_vector<1>', 'prec')
    return t[:n]


def ranges(p):
    lo, hi = p.range
    return (pretty(lo).split('.')[-1], pretty(hi).split('.')[-1])


class Update:
    """the phases of one step by the role they play"""

    def __init__(self, s):
        self.s = s
        new = [p for p in s.phases if any(short(a.array).startswith('new_state_vector') for a in p.writes())]
        if not new:
            raise AnalysisError('%s: no phase writes the new state' % s.tag)
        low = new[0].region
        self.low = [p for p in new if p.region == low]
        self.passes = []
        for p in new:
            if p.region != low:
                if not self.passes or self.passes[-1][0].region != p.region:
                    self.passes.append([])
                self.passes[-1].append(p)
        self.limit = [p for p in s.phases if p.region > low and any(short(a.array) == 'lij_matrix' for a in p.writes()) and p not in new]
        self.alpha = [p for p in s.phases if p.region < low and any(short(a.array) == 'alpha' for a in p.writes())]
        self.dij = [p for p in s.phases if p.n < self.low[0].n and any(short(a.array) == 'dij_matrix' for a in p.writes())]
        ref = Reference(s, self.ncomp())
        s.versions = {'alpha': self.version('alpha', self.low), 'dij': self.version('dij_matrix', self.low)}
        self.ref = ref

    def ncomp(self):
        for p in self.low:
            for a in p.writes():
                if short(a.array).startswith('new_state_vector'):
                    return len(flat(a.value))

    def version(self, name, phases):
        vs = {str(a.ver) for p in phases for a in p.reads() if short(a.array) == name}
        return sorted(vs)[0] if vs else '?'

    def groups(self):
        r = {}
        for p in self.s.phases:
            r.setdefault(p.region, []).append(p)
        return r


def writes(p, name):
    """[(col, [components], guard, loops)] written by a phase"""
    return [a for a in p.writes() if short(a.array) == name or (name == 'new' and short(a.array).startswith('new_state_vector'))]


def configs(tier):
    """(equation, dim, stages, passes, discontinuous)"""
    r = []
    for eq, _ in EQS:
        for dim in (1, 2, 3):
            for dg in (False, True):
                for stages in range(5) if tier != 'quick' else ((0, 2) if dim == 1 else (4 if eq == 'shallow_water' and dim == 2 else 1,)):
                    for it in (0, 1, 2) if tier != 'quick' else ((0, 1, 2) if dim == 1 and stages == 2 else (2,)):
                        r.append((eq, dim, stages, it, dg))
    return r


CACHE = {}


def build(cfg):
    if cfg not in CACHE:
        CACHE.clear()
        eq, dim, stages, it, dg = cfg
        s = Scheme(eq, dim, stages, it, dg)
        CACHE[cfg] = (s, Update(s))
    return CACHE[cfg]


def preload():
    import export
    export.programs(['%s:hyperbolic_module.cc' % e for e, _ in EQS])
