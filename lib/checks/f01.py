"""The viscous step: the discrete equations of the implicit substep and of the operators of its linear systems."""
import re
from fractions import Fraction
import terms as T
from terms import Value, ZERO, ONE
import export
from interp import AnalysisError, Arr, Struct, Opaque, Str, Ref, Clos, strip_type, split_targs, pretty
from trace import Locals, plain, path
from checks.e04 import Small, go, one, plainarg, counter
from interp import is_scalar_type

HALF = T.const(Fraction(1, 2))
INVALID = 4294967295


def stripped(v):
    """a value whose cells are named without the versions of their arrays"""
    mp = {}
    for a in v.deep_atoms():
        if a.name == 'cell' and isinstance(a.args[0], str) and '@' in a.args[0]:
            mp[a] = T.app('cell', plain(a.args[0]), *a.args[1:])
    return T.subst(v, mp) if mp else v


class Visc(Small):
    """evaluators of cell integrals are recorded"""

    def __init__(self, P, opaque=()):
        super().__init__(P, opaque)
        self.tagged = Locals(*self.tagged.prefixes, 'dealii::FEEvaluation')
        self.controls = []
        self.bodies = []
        h = self.I.hooks
        h['block'] = self.block
        h['cell_loop'] = self.cell_loop
        h['trace'] = self.trace
        h['write_tensor'] = self.write_tensor
        h['update_ghost_values'] = self.opaque
        self.construct0, self.I.construct = self.I.construct, self.construct
        h['operator*'] = self.times
        h['scalar_product'] = h['double_contract'] = self.contract
        for n in ('reinit', 'gather_evaluate', 'read_dof_values', 'evaluate', 'integrate', 'integrate_scatter', 'distribute_local_to_global', 'submit_value', 'submit_gradient',
                  'submit_symmetric_gradient', 'submit_divergence', 'get_gradient', 'get_symmetric_gradient', 'get_divergence', 'get_value', 'begin_dof_values', 'set_dof_values'):
            h[n] = self.evaluator(n, h.get(n))
        self.I.s_try = self.s_try
        self.fails = False
        self.handled = 0

    # -- solvers that do not converge ------------------------------------------------------
    def s_try(self, s, fr):
        I = self.I
        st, g = I.store, I.guard
        I.exec(s['b'], fr)
        if I.store is None or self.fails:
            if I.store is None:
                I.store, I.guard = st, g
            if len(s['h']) != 1:
                raise AnalysisError('handlers at line %s' % s.get('l'))
            self.handled += 1
            self.note('call', 'caught', None, [None, Str(s['h'][0].get('t', ''))], s)
            I.exec(s['h'][0]['b'], fr)

    # -- vectors ------------------------------------------------------------------------------
    def block(self, I, e, fr):
        if e['k'] != 'mcall':
            return NotImplemented
        return Opaque('%s.block(%s)' % (self.arrpath(e['b'], fr), pretty(self.val(e['a'][0], fr))), e['t'])

    def write_tensor(self, I, e, fr):
        if e['k'] != 'mcall' or 'MultiComponentVector' not in e.get('cls', ''):
            return NotImplemented
        self.note('state', plain(self.arrpath(e['b'], fr)), self.val(e['a'][1], fr), self.val(e['a'][0], fr), e)
        return None

    def construct(self, e, fr):
        if split_targs(strip_type(e['t']))[0] == 'std::atomic':
            return self.val(e['a'][0], fr) if e['a'] else ZERO
        r = self.construct0(e, fr)
        if isinstance(r, Opaque) and split_targs(strip_type(e['t']))[0] == 'dealii::SolverControl':
            self.controls.append(r.args)
            return Opaque('control%d' % (len(self.controls) - 1), e['t'])
        return r

    # -- tensors -------------------------------------------------------------------------------
    def trace(self, I, e, fr):
        if e['k'] != 'call' or len(e['a']) != 1:
            return NotImplemented
        v = self.val(e['a'][0], fr)
        return sum((v.e[d].e[d] for d in range(len(v.e))), ZERO)

    def times(self, I, e, fr):
        xs = e['a'] if e['k'] in ('opcall', 'call') else [e['b']] + e['a']
        if len(xs) != 2 or not all('SymmetricTensor<2' in x.get('t', '') for x in xs):
            return NotImplemented
        return dot(*[self.val(x, fr) for x in xs])

    def contract(self, I, e, fr):
        a = [self.val(x, fr) for x in e['a']]
        return dot(*a) if len(a) == 2 else NotImplemented

    # -- cells ----------------------------------------------------------------------------------
    def cell_loop(self, I, e, fr):
        f = self.val(e['a'][0], fr)
        if not isinstance(f, Clos):
            raise AnalysisError('cell loop over %s' % pretty(f))
        dst, src = plain(self.arrpath(e['a'][1], fr)), plain(path(self.val(e['a'][2], fr))) or ''
        zero = self.val(e['a'][3], fr) if len(e['a']) > 3 else ZERO
        self.note('call', 'cell_loop', None, [Opaque(plain(self.arrpath(e['b'], fr)), ''), Opaque(dst, ''), Opaque(src, ''), zero], e)
        ev = self.events[-1]
        n = len(self.events)
        ops = [Opaque('data', ''), Opaque('#dst', ''), Opaque('#src', '')]
        rng = Arr([T.sym('range0'), T.sym('range1')], 'std::pair<unsigned int, unsigned int>')
        I.call_clos(f, [I.new_root(x) for x in ops] + [I.new_root(rng)], fr)
        self.bodies.append((ev, [x for x in self.events[n:] if x.kind == 'fe']))
        return None

    def evaluator(self, n, old):
        def do(I, e, fr):
            c = e.get('cls', '') + (e['b'].get('t', '') if e['k'] == 'mcall' else '')
            if e['k'] != 'mcall' or 'FEEvaluation' not in c:
                return old(I, e, fr) if old else NotImplemented
            p = plain(self.arrpath(e['b'], fr))
            t = split_targs(strip_type(e['b']['t']).replace('const ', '').rstrip(' &'))[1]
            dim, comp = int(t[0]), int(t[3])
            a = [self.val(x, fr) for x in e['a']]
            if n.startswith('get_'):
                g = [[T.app('grad', p, c, d, a[0]) for d in range(dim)] for c in range(comp)]
                self.record(n, p, a, (dim, comp), e)
                if n == 'get_gradient':
                    return Arr(g[0], e['t']) if comp == 1 else Arr([Arr(r, '') for r in g], e['t'])
                if n == 'get_divergence':
                    return sum((g[d][d] for d in range(dim)), ZERO)
                if n == 'get_symmetric_gradient':
                    return Arr([Arr([(g[c][d] + g[d][c]) * HALF for d in range(dim)], '') for c in range(dim)], e['t'])
                v = [T.app('shape', p, c, a[0]) for c in range(comp)]
                return v[0] if comp == 1 else Arr(v, e['t'])
            if n == 'begin_dof_values':
                return T.sym('P:dofs of ' + p)
            self.record(n, p, [x if isinstance(x, (Value, Arr)) else plain(path(x)) for x in a], (dim, comp), e)
            return None
        return do

    def record(self, op, p, args, shape, e):
        self.note('fe', p, None, [op] + args, e, field=shape)


def dot(a, b):
    if isinstance(a, Arr):
        if len(a.e) != len(b.e):
            raise AnalysisError('contraction')
        return sum((dot(x, y) for x, y in zip(a.e, b.e)), ZERO)
    return a * b


TU = 'navier_stokes:navier_stokes/parabolic_solver.cc'
S = r'ryujin::NavierStokes::'
RULES = {
    'start': 'density, velocity and specific internal energy of the old state are the initial values of the iterations, in every owned row',
    'momentum': 'the right hand side of the velocity update is the mass times the old momentum',
    'boundary': 'on slip boundaries the normal part of the velocity is removed, on no-slip boundaries the velocity is zero, on Dirichlet boundaries it is that of the '
                'boundary state at the new time; other boundaries are natural',
    'heat boundary': 'the internal energy is that of the boundary state at the new time on Dirichlet boundaries; all other boundaries are insulating',
    'constrained': 'eliminated degrees of freedom are taken out of every vector of the linear systems after it was filled',
    'order': 'every vector is filled, fixed at the boundary, cleared where it is constrained and then used, and in no other order',
    'system': 'the linear systems solved are those of the velocity with step size tau and of the internal energy with tau times the heat conductivity, with their right hand sides',
    'fallback': 'when the multigrid iteration is not used or does not converge the same system is solved with the diagonal preconditioner',
    'tolerance': 'the iteration stops at the tolerance times the norm asked for of the right hand side',
    'diagonal': 'the diagonal preconditioner is the inverse of density times mass, and cleared where constrained',
    'stress': 'the stress is 2 mu eps + (lambda - 2/3 mu) div v I with eps the symmetric gradient of the velocity',
    'heating': 'the heating of a cell is the integral of stress times symmetric gradient of the new velocity, over all cells and quadrature points',
    'energy': 'the right hand side of the energy update is m rho (e + |V - V_new|^2/2) + tau times the heating, so that total energy is kept',
    'minimum': 'a new minimum of the internal energy of all processes below the old one requests a restart, and nothing else does',
    'verdict': 'a requested restart is counted as a warning or raised, as configured, after the state is complete',
    'state': 'the new state is (rho, rho V, rho e + rho V^2/2) in every owned row, with up to date ghost values',
    'mass': 'the operator acts as mass times density on every owned row, plus the integrals over all cells',
    'natural': 'rows of boundaries with prescribed values return what they are given, and slip boundaries return the normal part they are given',
    'diffusion': 'the cell integrals of the energy operator are the factor times gradient times gradient of the test function',
    'smoother': 'the smoother of a level is the inverse of mass times density plus the diagonal of the cell integrals, and one where values are prescribed',
    'jacobi': 'the diagonal preconditioner multiplies every owned row by the entry of the diagonal, that of the component where there is one',
    'level': 'the operators of the levels are those of the finest mesh with the mass, boundary and density of the level and the same factor',
}


class C:
    def __init__(self, R, key, f):
        self.R, self.key, self.f = R, key, f

    def ok(self, key, cond, rule, detail=''):
        self.R.count('obligations')
        self.R.ok('F01:%s:%s' % (self.key, key), bool(cond), self.f, RULES[rule], detail)
        return bool(cond)


MUTATORS = ('=', 'operator=', 'operator+=', 'operator-=', 'operator*=', 'operator/=', '+=', '-=', '*=', '/=', 'add', 'sadd', 'equ', 'scale', 'swap', 'distribute', 'reinit',
            'copy_locally_owned_data_from', 'import_elements', 'import', 'compress', 'add_local', 'zero_out', 'fill')
I, E = T.sym('i'), T.sym('e')


def nil(v):
    return T.lift(v).is_zero()


def counts(v):
    """the number of owned degrees of freedom under its names"""
    r = [T.sym('od.n_locally_owned_')]
    for a in v.deep_atoms():
        if str(a.name).split('#')[0] in ('locally_owned_size', 'n_locally_owned'):
            r.append(T.atom_value(a))
    return r


def at(v):
    """entries of vectors under one name"""
    v = T.lift(v)
    for _ in range(4):
        mp = {}
        for a in v.deep_atoms():
            if a.name == 'entry':
                mp[a] = T.app('at', plain(str(a.args[0])), a.args[1])
            elif a.name == 'cell' and len(a.args) == 3 and a.args[1] == '':
                mp[a] = T.app('at', plain(str(a.args[0])), a.args[2])
            elif a.name == 'cell' and '@' in str(a.args[0]):
                mp[a] = T.app('cell', plain(str(a.args[0])), *a.args[1:])
        if not mp:
            return v
        v = T.subst(v, mp)
    return v


def name(x):
    return plain(pretty(x) if isinstance(x, Value) else path(x))


class Log:
    """what happens to the vectors of a function, in order"""

    def __init__(self, m, bmap):
        self.m, self.bmap = m, bmap
        self.entry = [T.app('cell', bmap, '<%d>' % k, E) for k in (0, 4)]
        self.i, self.id = self.entry

    def loop(self, e):
        """(kind, position, condition) of the only loop around an event"""
        if len(e.loops) != 1:
            return None
        L = e.loops[0]
        if any(not b.is_zero() for b in L.breaks):
            return None
        h = counter(L, self.m, counts(L.cond))
        if h is not None:
            return 'rows', h, L.cond
        for n, (init, head, end, after) in L.carried.items():
            if plain(str(n)) == 'element of ' + self.bmap and nil(init) and nil(end - head - 1):
                for a in L.cond.deep_atoms():
                    if a.name == 'size':
                        z = T.atom_value(a)
                        if any(nil(L.cond - c) for c in (T.gt0(z - head), ONE - T.ge0(head - z), ONE - T.eq0(z - head))):
                            return 'entries', head, L.cond
        return None

    def ops(self, vec, also=()):
        """(letter, position of the event) in order"""
        r = []
        for k, e in enumerate(self.m.events):
            c = None
            if e.kind in ('store', 'write', 'state') and plain(e.arr) == vec:
                lo = self.loop(e)
                c = {'rows': 'R', 'entries': 'B'}.get(lo[0] if lo else '', '?')
            elif e.kind == 'call':
                p = [plain(path(x)) if x is not None and not isinstance(x, Value) else None for x in e.value]
                names = (vec,) + also
                if e.arr == 'set_zero' and vec in p[1:]:
                    c = 'Z' if e.guard == ONE and not e.loops else '?'
                elif e.arr == 'solve' and any(n in p[2:3] for n in names):
                    c = 'S'
                elif e.arr == 'solve' and any(n in p[3:4] for n in names):
                    c = 'U'
                elif e.arr == 'cell_loop' and any(n in p[1:2] for n in names):
                    c = 'C' if nil(e.value[3] - 1) else 'A'
                    if e.guard != ONE or e.loops:
                        c = '?'
                elif e.arr == 'cell_loop' and any(n in p[2:3] for n in names):
                    c = 'L'
                elif e.arr in MUTATORS and p and p[0] in names:
                    c = 'X'
            if c and not (r and r[-1][0] == c == 'B'):
                r.append((c, k))
        return r

    def row(self, vec, k):
        """the value written to row i at event k"""
        e = self.m.events[k]
        _, h, cond = self.loop(e)
        if not nil(e.guard - cond) or not nil(e.idx - h):
            return None
        sub = lambda v: at(T.subst(T.lift(v), {h: I}))
        v = e.value
        return [sub(x) for x in v.e] if isinstance(v, Arr) else sub(v)

    def fixed(self, vec, code, owned=True, lo=0, hi=None):
        """the value of an entry of the boundary map after the loops over the map, before: at(vec, i)"""
        v = T.app('at', vec, self.i)
        for e in self.m.events[lo:hi]:
            if e.kind not in ('store', 'write') or plain(e.arr) != vec:
                continue
            l = self.loop(e)
            if not l or l[0] != 'entries':
                continue
            h = l[1]

            def sub(x):
                x = T.subst(at(T.subst(T.lift(x), {h: E})), {self.id: T.const(code)})
                mp = {}
                for b in T.bools(x):
                    if b.args and isinstance(b.args[0], Value):
                        w = T.atom_value(b)
                        for n in counts(x):
                            for c, y in ((T.gt0(n - self.i), owned), (T.ge0(self.i - n), not owned)):
                                if nil(w - c):
                                    mp[b] = T.const(int(y))
                        for a in x.deep_atoms():
                            if a.name == 'size':
                                z = T.atom_value(a)
                                for c, y in ((T.gt0(z - E), 1), (T.ge0(E - z), 0), (T.eq0(z - E), 0)):
                                    if nil(w - c):
                                        mp[b] = T.const(y)
                return T.subst(x, mp) if mp else x
            g, w = sub(e.guard), sub(e.value)
            if g.is_zero():
                continue
            if not nil(at(T.subst(e.idx, {h: E})) - self.i):
                return None
            if g.const() is None:
                return None
            v = w
        return v


def letters(o):
    return ''.join(c for c, _ in o)


def step(R, P, dim, mode):
    f = one(P, S + r'ParabolicSolver<%sDescription, %d, double>::backward_euler_step' % (S, dim))
    codes = {n: int(v) for n, v in P.enums['ryujin::Boundary']['vals']}
    strategies = {n: int(v) for n, v in P.enums['ryujin::IDViolationStrategy']['vals']}
    c = C(R, 'step:dim %d:%s' % (dim, mode), f)
    runs = {}
    for s, k in strategies.items():
        m = Visc(P, ('compute_diagonal', 'initialize', 'interpolate_to_mg'))
        m.fails = mode == 'no convergence'
        use = [T.const(int(mode in (x, 'multigrid', 'no convergence'))) for x in ('velocity multigrid', 'energy multigrid')]
        args = {'id_violation_strategy': T.const(k), 'reinitialize_gmg': T.const(int(mode.endswith('multigrid')))}
        go(m, f, args, {'use_gmg_velocity_': use[0], 'use_gmg_internal_energy_': use[1]})
        runs[s] = m
    m = runs['raise_exception']
    L = Log(m, 'od.boundary_map_')
    ev = m.events
    old = [T.app('U', 'old_state_vector[0]', I, k) for k in range(dim + 2)]
    rho, e0 = old[0], (old[dim + 1] - sum((old[1 + d] * old[1 + d] for d in range(dim)), ZERO) * T.inv(old[0]) * HALF) * T.inv(old[0])
    mass = T.app('at', 'od.lumped_mass_matrix_', I)
    V = ['o.velocity_.block(%d)' % d for d in range(dim)]
    W = ['o.velocity_rhs_.block(%d)' % d for d in range(dim)]
    # -- the life of every vector
    solves = 'SS' if m.fails else 'S'
    want = {'o.density_': 'RZ', 'o.internal_energy_': 'RBZ' + solves, 'o.internal_energy_rhs_': 'CRBZ' + 'U' * len(solves)}
    for v in V:
        want[v] = 'RBZ' + solves + 'L'
    for v in W:
        want[v] = 'RBZ' + 'U' * len(solves)
    ops = {}
    good = True
    for v, w in want.items():
        ops[v] = o = L.ops(v, (v.split('.block')[0],))
        good = c.ok('order:' + v, letters(o) == w, 'order', lambda: '%s, not %s: %s' % (letters(o), w, [ev[k].line for _, k in o])) and good
    if not good:
        return
    pos = {v: {x: k for x, k in o} for v, o in ops.items()}
    for v in want:
        e = ev[pos[v]['Z']]
        c.ok('constrained:' + v, plain(path(e.value[0])) == 'od.affine_constraints_', 'constrained', lambda: e)
    # -- initial values and right hand sides
    for v, x, r in [('o.density_', rho, 'start'), ('o.internal_energy_', e0, 'start')] + [(V[d], old[1 + d] * T.inv(rho), 'start') for d in range(dim)] + \
            [(W[d], mass * old[1 + d], 'momentum') for d in range(dim)]:
        y = L.row(v, pos[v]['R'])
        c.ok('row:' + v, y is not None and nil(y - x), r, lambda: '%s, not %s' % (pretty(y), pretty(x)))
    # -- boundary
    n = [T.app('cell', L.bmap, '<1>[%d]' % d, E) for d in range(dim)]
    X = Arr([T.app('cell', L.bmap, '<5>[%d]' % d, E) for d in range(dim)], '')
    states = [x for x in ev if x.kind == 'call' and 'initial_state' in str(path(x.value[0]) if x.value[0] is not None else '')]

    def bstate(x):
        """components of the boundary state in a value"""
        r = {}
        for a in x.deep_atoms():
            k = re.match(r'operator\(\)\[(\d+)\]', str(a.name))
            if k:
                r[int(k.group(1))] = a
        return r
    for x in states:
        lo = L.loop(x)
        p = x.value[1]
        good = lo is not None and lo[0] == 'entries' and isinstance(p, Arr) and all(nil(at(T.subst(a, {lo[1]: E})) - b) for a, b in zip(p.e, X.e)) and \
            nil(x.value[2] - T.sym('t') - T.sym('tau')) and plain(path(x.value[0])) == 'o.initial_values_.initial_state_'
        c.ok('boundary state:%d' % states.index(x), good, 'boundary', lambda: x)
    c.ok('boundary states', len(states) >= 2, 'boundary', lambda: states)

    def reference(vals):
        """the components of the boundary state as one set of symbols"""
        mp = {}
        for x in vals:
            for k, a in bstate(x).items():
                mp[a] = T.sym('D%d' % k, k == 0)
        return [T.subst(x, mp) for x in vals]
    D = [T.sym('D%d' % k, k == 0) for k in range(dim + 2)]
    eD = (D[dim + 1] - sum((D[1 + d] * D[1 + d] for d in range(dim)), ZERO) * T.inv(D[0]) * HALF) * T.inv(D[0])
    for b, code in codes.items():
        for vs, nm in ((V, 'velocity'), (W, 'right hand side')):
            x = [T.app('at', v, L.i) for v in vs]
            xn = sum((x[d] * n[d] for d in range(dim)), ZERO)
            w = {'slip': [x[d] - xn * n[d] for d in range(dim)], 'no_slip': [ZERO] * dim, 'dirichlet': [D[1 + d] * T.inv(D[0]) for d in range(dim)]}.get(b, x)
            y = [L.fixed(v, code) for v in vs]
            ok = all(z is not None for z in y)
            y = reference(y) if ok else y
            c.ok('boundary:%s:%s' % (nm, b), ok and all(nil(a - z) for a, z in zip(y, w)), 'boundary', lambda: ([z if z is None else pretty(z) for z in y], [pretty(z) for z in w]))
            y = [L.fixed(v, code, owned=False) for v in vs]
            c.ok('boundary:%s:%s:others' % (nm, b), all(z is not None and nil(z - a) for z, a in zip(y, x)), 'boundary', lambda: y)
        for v in ('o.internal_energy_', 'o.internal_energy_rhs_'):
            y = L.fixed(v, code)
            w = eD if b == 'dirichlet' else T.app('at', v, L.i)
            c.ok('boundary:%s:%s' % (v, b), y is not None and nil(reference([y])[0] - w), 'heat boundary', lambda: (y if y is None else pretty(y), pretty(w)))
            y = L.fixed(v, code, owned=False)
            c.ok('boundary:%s:%s:others' % (v, b), y is not None and nil(y - T.app('at', v, L.i)), 'heat boundary', lambda: y)
    # -- the systems
    inits = [(k, x) for k, x in enumerate(ev) if x.kind == 'call' and x.arr == 'initialize']
    for eq, x, b, after in (('Velocity', 'o.velocity_', 'o.velocity_rhs_', V + W + ['o.density_']), ('Energy', 'o.internal_energy_', 'o.internal_energy_rhs_', ['o.internal_energy_rhs_', 'o.density_'])):
        ks = [k for k, e in enumerate(ev) if e.kind == 'call' and e.arr == 'solve' and plain(path(e.value[2])) == x]
        g = one(P, S + r'%sMatrix<%d, double, double>::initialize' % (eq, dim))
        mine = [(k, e) for k, e in inits if '%sMatrix<%d, double, double>' % (eq, dim) in str(path(e.value[0]))]
        good = len(mine) == 1 and len(ks) == len(solves)
        c.ok('system:%s:once' % eq, good, 'system', lambda: (mine, ks))
        if not good:
            continue
        k0, e = mine[0]
        a = dict(zip([p['n'] for p in g['params']], e.value[1:]))
        tau = T.sym('tau')
        good = e.guard == ONE and not e.loops and k0 > pos['o.density_']['Z'] and set(a) == set(p['n'] for p in g['params'])
        for n_, v in a.items():
            t = strip_type(next(p['t'] for p in g['params'] if p['n'] == n_))
            if 'ParabolicSystem' in t:
                good = good and plain(path(v)) == 'o.parabolic_system_'
            elif 'OfflineData' in t:
                good = good and plain(path(v)) == 'od'
            elif 'MatrixFree' in t:
                good = good and plain(path(v)) == 'o.matrix_free_'
            elif 'Vector' in t:
                good = good and plain(path(v)) == 'o.density_'
            elif n_ == 'level':
                good = good and nil(v - INVALID)
            else:
                good = good and nil(v - (tau if eq == 'Velocity' else tau * T.sym('o.parabolic_system_.cv_inverse_kappa_')))
        c.ok('system:%s:operator' % eq, good, 'system', lambda: e)
        for q, k in enumerate(ks):
            s = ev[k]
            last = q == len(ks) - 1 and mode not in (eq.lower() + ' multigrid', 'multigrid')
            op = s.value[1]
            same = plain(path(op)) == plain(path(e.value[0]))
            good = s.guard == ONE and not s.loops and same and plain(path(s.value[3])) == b and k > k0 and all(k > pos[v]['Z'] for v in after) and \
                'SolverCG' in str(path(s.value[0]))
            c.ok('system:%s:solved:%d' % (eq, q), good, 'system', lambda: (s, plain(path(op)), plain(path(e.value[0]))))
            if last:
                c.ok('system:%s:preconditioner' % eq, 'DiagonalMatrix' in str(pretty(s.value[4])), 'fallback', lambda: s)
            n_ = re.search(r'control(\d+)', str(path(s.value[0])))
            ctl = m.controls[int(n_.group(1))] if n_ else None
            norm = T.boolsym('o.tolerance_linfty_norm_')
            tol = T.lift(ctl[1]) if ctl else ZERO
            ns = {str(a_.name).split('#')[0].split('[')[0]: T.atom_value(a_) for a_ in tol.deep_atoms() if plain(pretty(T.atom_value(a_))) in ('linfty_norm(%s)' % b, 'l2_norm(%s)' % b)}
            good = ctl and len(ns) == 2
            if good:
                w = T.sym('o.tolerance_', True) if False else None
                good = nil(T.subst(tol, {norm: ONE}) * ns['l2_norm'] - T.subst(tol, {norm: ZERO}) * ns['linfty_norm']) and \
                    all(str(a_.name) in ('o.tolerance_', 'linfty_norm', 'l2_norm') or 'norm' in str(a_.name) for a_ in tol.deep_atoms()) and \
                    nil(T.diff(T.subst(tol, {norm: ONE}), ns['linfty_norm']) - T.sym('o.tolerance_'))
            c.ok('system:%s:tolerance:%d' % (eq, q), good, 'tolerance', lambda: pretty(tol))
            nrm = [k2 for k2, e2 in enumerate(ev) if e2.kind == 'call' and e2.arr in ('linfty_norm', 'l2_norm') and plain(path(e2.value[0])) == b]
            c.ok('system:%s:norm:%d' % (eq, q), nrm and all(k2 > max(pos[v]['Z'] for v in after if v.startswith(b)) for k2 in nrm), 'tolerance', lambda: nrm)
    # -- the diagonal
    dv = [e.arr for e in ev if e.kind == 'write' and 'DiagonalMatrix' in e.arr]
    good = len(dv) == 1
    c.ok('diagonal:one', good, 'diagonal', lambda: dv)
    if good:
        o = L.ops(dv[0])
        c.ok('diagonal:order', letters(o) == 'XRZ' and o[1][1] > pos['o.density_']['R'], 'diagonal', lambda: letters(o))
        y = L.row(dv[0], next(k for k, e in enumerate(ev) if e.arr == dv[0] and e.kind == 'write'))
        c.ok('diagonal:row', y is not None and nil(y * mass * T.app('at', 'o.density_', I) - 1), 'diagonal', lambda: y)
    # -- heating
    heat = [(k, e, b) for k, (e, b) in ((ev.index(e), (e, b)) for e, b in m.bodies) if plain(path(e.value[1])) == 'o.internal_energy_rhs_']
    good = len(heat) == 1 and plain(path(heat[0][1].value[0])) == 'o.matrix_free_' and plain(path(heat[0][1].value[2])) == 'o.velocity_' and \
        heat[0][0] > max(k for k, e in enumerate(ev) if e.kind == 'call' and e.arr == 'solve' and plain(path(e.value[2])) == 'o.velocity_')
    c.ok('heating:source', good, 'heating', lambda: [h[1] for h in heat])
    if good:
        integrals(c, m, heat[0][2], 'heating', dim, 'value')
    # -- energy right hand side
    e = ev[pos['o.internal_energy_rhs_']['R']]
    y = L.row('o.internal_energy_rhs_', pos['o.internal_energy_rhs_']['R'])
    r_ = T.app('at', 'o.density_', I)
    dv2 = sum(((old[1 + d] * T.inv(rho) - T.app('at', V[d], I)) * (old[1 + d] * T.inv(rho) - T.app('at', V[d], I)) for d in range(dim)), ZERO)
    w = mass * rho * (T.app('at', 'o.internal_energy_', I) + HALF * dv2) + T.sym('tau') * T.app('at', 'o.internal_energy_rhs_', I)
    k = pos['o.internal_energy_rhs_']['R']
    vs = max(k2 for k2, e2 in enumerate(ev) if e2.kind == 'call' and e2.arr == 'solve' and plain(path(e2.value[2])) == 'o.velocity_')
    es = [k2 for k2, e2 in enumerate(ev) if e2.kind == 'call' and e2.arr == 'solve' and plain(path(e2.value[2])) == 'o.internal_energy_']
    c.ok('energy:row', y is not None and nil(T.subst(y, {r_: rho}) - w), 'energy', lambda: (pretty(y) if y is not None else y, pretty(w)))
    c.ok('energy:new velocity', k > vs and k < min(es) and k > pos['o.internal_energy_']['Z'], 'energy', lambda: (k, vs, es))
    # -- verdict
    mins = [k2 for k2, e2 in enumerate(ev) if e2.kind == 'call' and e2.arr == 'min_element']
    red = [k2 for k2, e2 in enumerate(ev) if e2.kind == 'call' and e2.arr == 'allmin']
    good = len(mins) == len(red) == 2
    for k2 in mins:
        good = good and all(name(x) == '%s(o.internal_energy_)' % n_ for n_, x in zip(('begin', 'end'), ev[k2].value[1:])) and ev[k2].guard == ONE
    for k2 in red:
        good = good and plain(path(ev[k2].value[1])) == 'o.mpi_communicator_' and ev[k2].guard == ONE
    good = good and pos['o.internal_energy_']['Z'] < mins[0] < min(es) and max(es) < mins[1]
    c.ok('minimum:taken', good, 'minimum', lambda: [ev[k2] for k2 in mins + red])
    state = [k2 for k2, e2 in enumerate(ev) if e2.kind == 'state']
    for s, mm in runs.items():
        throws = [e2 for e2 in mm.events if e2.kind == 'call' and e2.arr == 'throw' and 'Restart' in str(e2.value[1].s)]
        cnt = {}
        for e2 in mm.events:
            if e2.kind == 'call' and e2.arr in ('=', '++') and str(plain(path(e2.value[0]))) in ('o.n_warnings_', 'o.n_restarts_'):
                cnt.setdefault(plain(path(e2.value[0])), []).append(e2)
        want_t = s == 'raise_exception'
        good = len(throws) == int(want_t)
        gs = [e2.guard for e2 in throws] + [e2.guard for v_ in cnt.values() for e2 in v_]
        for g in gs:
            b = [a_ for a_ in T.bools(g)]
            if len(b) != 1 or b[0].name != 'gt0' or not nil(g - T.atom_value(b[0])):
                good = False
                continue
            x = T.lift(b[0].args[0])
            am = sorted(set(a_ for a_ in x.deep_atoms() if str(a_.name).startswith('allmin')), key=lambda a_: [int(v_) for v_ in re.findall(r'@(\d+)', str(a_.args[-1]))])
            good = good and len(am) == 2
            if len(am) == 2:
                new, o_ = T.atom_value(am[1]), T.atom_value(am[0])
                co, cn = T.diff(x, o_).const(), T.diff(x, new).const()
                if co is not None and cn is not None and co < 0 < cn:       # atoms in the other order
                    new, o_, co, cn = o_, new, cn, co
                good = good and co is not None and cn is not None and co > 0 > cn and nil(x - o_ * T.const(co) - new * T.const(cn)) and 1 - Fraction(1, 10 ** 6) < Fraction(co) / -Fraction(cn) <= 1
        c.ok('verdict:' + s, good and (not want_t or throws[0] is mm.events[-1] or mm.events.index(throws[0]) > max(k2 for k2, e2 in enumerate(mm.events) if e2.kind == 'state')), 'verdict',
             lambda: (throws, cnt))
    # -- the new state
    good = len(state) == 1 and L.loop(ev[state[0]]) is not None and L.loop(ev[state[0]])[0] == 'rows' and plain(ev[state[0]].arr) == 'new_state_vector[0]' and state[0] > max(es)
    c.ok('state:once', good, 'state', lambda: [ev[k2] for k2 in state])
    if good:
        y = L.row('new_state_vector[0]', state[0])
        vn = [T.app('at', v, I) for v in V]
        w = [rho] + [rho * v for v in vn] + [rho * T.app('at', 'o.internal_energy_', I) + HALF * rho * sum((v * v for v in vn), ZERO)]
        good = y is not None and len(y) == len(w)
        for k2 in range(len(w)):
            c.ok('state:component %d' % k2, good and nil(y[k2] - w[k2]), 'state', lambda: (pretty(y[k2]) if good else y, pretty(w[k2])))
        gh = [k2 for k2, e2 in enumerate(ev) if e2.kind == 'call' and e2.arr == 'update_ghost_values' and plain(path(e2.value[0])) == 'new_state_vector[0]']
        c.ok('state:ghosts', gh and gh[-1] > state[0] and ev[gh[-1]].guard == ONE and not ev[gh[-1]].loops, 'state', lambda: gh)
    if mode.endswith('multigrid'):
        levels(c, P, m, dim, [x for x in ('Velocity', 'Energy') if mode in (x.lower() + ' multigrid', 'multigrid')])


def levels(c, P, m, dim, eqs):
    ev = m.events
    for eq in eqs:
        g = one(P, S + r'%sMatrix<%d, float, double>::initialize' % (eq, dim))
        mine = [e for e in ev if e.kind == 'call' and e.arr == 'initialize' and 'level_%s_matrices_[' % eq.lower() in str(path(e.value[0]))]
        good = len(mine) == 1 and len(mine[0].loops) == 1
        if good:
            e = mine[0]
            Lp = e.loops[0]
            hs = [(init, head) for init, head, end, after in Lp.carried.values() if isinstance(head, Value) and isinstance(end, Value) and nil(end - head - 1)]
            good = len(hs) == 1
            if good:
                init, l = hs[0]
                good = plain(pretty(init)) == 'min_level(o.level_matrix_free_)' and nil(e.guard - Lp.cond) and not any(not b.is_zero() for b in Lp.breaks)
                top = [T.atom_value(a) for a in Lp.cond.deep_atoms() if plain(pretty(T.atom_value(a))) == 'max_level(o.level_matrix_free_)']
                good = good and len(top) == 1 and any(nil(Lp.cond - x) for x in (T.ge0(top[0] - l), ONE - T.gt0(l - top[0]), T.gt0(top[0] + 1 - l)))
                good = good and plain(path(e.value[0])) == 'o.level_%s_matrices_[%s]' % (eq.lower(), pretty(l))
                for p, v in zip(g['params'], e.value[1:]):
                    t = strip_type(p['t'])
                    if 'ParabolicSystem' in t:
                        good = good and plain(path(v)) == 'o.parabolic_system_'
                    elif 'OfflineData' in t:
                        good = good and plain(path(v)) == 'od'
                    elif 'MatrixFree' in t:
                        good = good and plain(path(v)) == 'o.level_matrix_free_[%s]' % pretty(l)
                    elif 'Vector' in t:
                        good = good and plain(path(v)) == 'o.level_density_[%s]' % pretty(l)
                    elif p['n'] == 'level':
                        good = good and nil(v - l)
                    else:
                        good = good and nil(v - (T.sym('tau') if eq == 'Velocity' else T.sym('tau') * T.sym('o.parabolic_system_.cv_inverse_kappa_')))
        c.ok('level:' + eq, good, 'level', lambda: mine)
    it = [k for k, e in enumerate(ev) if e.kind == 'call' and e.arr == 'interpolate_to_mg']
    first = [k for k, e in enumerate(ev) if e.kind == 'call' and e.arr == 'initialize' and re.search(r'level_(velocity|energy)_matrices_\[', str(path(e.value[0])))]
    good = len(it) == 1 and len(first) == len(eqs) and ev[it[0]].guard == ONE and not ev[it[0]].loops and it[0] < first[0] and [plain(path(x)) for x in ev[it[0]].value[2:]] == ['o.level_density_', 'o.density_'] and \
        it[0] > max(k for k, e in enumerate(ev[:it[0]]) if e.kind == 'call' and e.arr == 'set_zero' and plain(path(e.value[1])) == 'o.density_')
    c.ok('level:density', good, 'level', lambda: [ev[k] for k in it])


def integrals(c, m, body, key, dim, tested):
    """the sum over the quadrature points of all cells of the range"""
    P0 = {}
    for b in body:
        P0.setdefault(b.value[0].s if isinstance(b.value[0], Str) else str(b.value[0]), []).append(b)
    sub = P0.get('submit_value', []) + P0.get('submit_gradient', []) + P0.get('submit_symmetric_gradient', []) + P0.get('submit_divergence', [])
    rule = {'heating': 'heating', 'velocity': 'stress', 'energy': 'diffusion'}[key]
    good = len(sub) == 1 and len(sub[0].loops) == 2
    c.ok(key + ':submitted', good, rule, lambda: body)
    if not good:
        return
    s = sub[0]
    Lc, Lq = s.loops
    cell = [h for i_, h, e_, a_ in Lc.carried.values() if isinstance(h, Value) and isinstance(e_, Value) and nil(i_ - T.sym('range0')) and nil(e_ - h - 1)]
    good = len(cell) == 1 and nil(Lc.cond - T.gt0(T.sym('range1') - cell[0])) and not any(not b.is_zero() for L in s.loops for b in L.breaks)
    q = None
    for i_, h, e_, a_ in Lq.carried.values():
        if isinstance(h, Value) and isinstance(e_, Value) and nil(i_) and nil(e_ - h - 1):
            for a in Lq.cond.deep_atoms():
                if plain(str(a.name)) in ('#%s.n_q_points' % x for x in ('velocity', 'energy')) or str(a.name).endswith('.n_q_points'):
                    z = T.atom_value(a)
                    if any(nil(Lq.cond - x) for x in (T.gt0(z - h), ONE - T.ge0(h - z), ONE - T.eq0(z - h))):
                        q = h
    good = good and q is not None and nil(s.guard - Lc.cond * Lq.cond) and nil(s.value[-1] - q)
    c.ok(key + ':range', good, rule, lambda: (s.loops, s))
    if not good:
        return
    # what was evaluated, in order, once per cell
    w = s.arr
    gets = [b for n, bs in P0.items() if n.startswith('get_') for b in bs]
    v = gets[0].arr if gets else w
    idx = {id(b): k for k, b in enumerate(body)}

    def cells(bs):
        return [b for b in bs if b.loops == (Lc,) and nil(b.guard - Lc.cond)]
    good = all(b.arr == v for b in gets)
    for p in {v, w}:
        r = [b for b in cells(P0.get('reinit', [])) if b.arr == p and nil(b.value[1] - cell[0])]
        good = good and len(r) == 1 and len([b for b in P0.get('reinit', []) if b.arr == p]) == 1
    ge, rd, evl = (cells(P0.get(n, [])) for n in ('gather_evaluate', 'read_dof_values', 'evaluate'))
    GRAD, VAL = 2, 1
    if ge:
        good = good and len(ge) == 1 and not rd and not evl and ge[0].arr == v and str(ge[0].value[1]).strip("'<>") in ('#src',) or (good and plain(path(ge[0].value[1])) == '#src')
        good = good and int(ge[0].value[2].const()) & GRAD
        first = ge
    else:
        good = good and len(rd) == 1 and len(evl) == 1 and rd[0].arr == evl[0].arr == v and plain(path(rd[0].value[1])) == '#src' and int(evl[0].value[1].const()) & GRAD and idx[id(rd[0])] < idx[id(evl[0])]
        first = evl
    it = cells(P0.get('integrate_scatter', []))
    it1, ds = cells(P0.get('integrate', [])), cells(P0.get('distribute_local_to_global', []))
    flag = VAL if tested == 'value' else GRAD
    if it:
        good = good and len(it) == 1 and not it1 and not ds and it[0].arr == w and int(it[0].value[1].const()) == flag and plain(path(it[0].value[2])) == '#dst'
        last = it
    else:
        good = good and len(it1) == 1 and len(ds) == 1 and it1[0].arr == ds[0].arr == w and int(it1[0].value[1].const()) == flag and plain(path(ds[0].value[1])) == '#dst' and idx[id(it1[0])] < idx[id(ds[0])]
        last = it1
    if good:
        re_ = [idx[id(b)] for b in P0['reinit']]
        good = max(re_) < idx[id(first[0])] < idx[id(s)] < idx[id(last[0])]
    c.ok(key + ':evaluated', good, rule, lambda: body)
    integrand(c, s, P0, key, dim, v, q)


def integrand(c, s, P0, key, dim, v, q):
    rule = {'heating': 'heating', 'velocity': 'stress', 'energy': 'diffusion'}[key]
    x = s.value[1]
    comp = 1 if key == 'energy' else dim
    g = [[T.app('grad', v, a, d, q) for d in range(dim)] for a in range(comp)]
    mu, la = T.sym('o.parabolic_system_.mu_'), T.sym('o.parabolic_system_.lambda_')
    if key == 'energy':
        y = [x.e] if isinstance(x, Arr) else [[x]]
        want = [[T.sym('FACTOR') * g[0][d] for d in range(dim)]]
    else:
        eps = [[HALF * (g[a][d] + g[d][a]) for d in range(dim)] for a in range(dim)]
        div = sum((g[d][d] for d in range(dim)), ZERO)
        st = [[2 * mu * eps[a][d] + ((la - T.const(Fraction(2, 3)) * mu) * div if a == d else ZERO) for d in range(dim)] for a in range(dim)]
        if key == 'heating':
            want = [[sum((st[a][d] * eps[a][d] for a in range(dim) for d in range(dim)), ZERO)]]
            y = [[x]]
        else:
            want = [[T.sym('FACTOR') * st[a][d] for d in range(dim)] for a in range(dim)]
            y = [r.e if isinstance(r, Arr) else [r] for r in x.e] if isinstance(x, Arr) else [[x]]
            if dim == 1 and isinstance(x, Arr) and not isinstance(x.e[0], Arr):
                y = [x.e]
            if P0.get('submit_symmetric_gradient'):
                y = [[HALF * (y[a][d] + y[d][a]) for d in range(dim)] for a in range(dim)]
    if key == 'velocity' and P0.get('submit_divergence') or (key != 'heating') != (not P0.get('submit_value')):
        y = None
    good = y is not None and len(y) == len(want) and all(len(a) == len(b) for a, b in zip(y, want))
    bad = [(pretty(a), pretty(b)) for r1, r2 in zip(y, want) for a, b in zip(r1, r2) if not nil(T.lift(a) - b)][:1] if good else ['form']
    c.ok(key + ':integrand', not bad, 'stress' if key == 'heating' else rule, lambda: bad)


def operator(R, P, eq, dim, num):
    cls = S + r'%sMatrix<%d, %s, double>' % (eq, dim, num)
    f, g = one(P, cls + '::vmult'), one(P, cls + '::initialize')
    codes = {n: int(v) for n, v in P.enums['ryujin::Boundary']['vals']}
    c = C(R, 'operator:%s:dim %d:%s' % (eq, dim, num), f)
    m = Visc(P)
    level = 3 if num == 'float' else INVALID
    this = m.I.new_root(Struct(f['cls'], {}, Opaque('o', f['cls'])))
    a = []
    for p in g['params']:
        t = plainarg(p['t'])
        v = T.const(level) if p['n'] == 'level' else T.sym('FACTOR') if is_scalar_type(t) else \
            Opaque('od' if 'OfflineData' in t else 'o.parabolic_system_' if 'ParabolicSystem' in t else 'mf' if 'MatrixFree' in t else 'rho', t)
        a.append(m.I.new_root(v))
    m.M.run(g, a, this=this, keep=True)
    m.M.run(f, [m.I.new_root(Opaque(p['n'], plainarg(p['t']))) for p in f['params']], this=this, keep=True)
    bmap, mm = ('od.boundary_map_', 'od.lumped_mass_matrix_') if num == 'double' else ('od.level_boundary_map_[%d]' % level, 'od.level_lumped_mass_matrix_[%d]' % level)
    L = Log(m, bmap)
    ev = m.events
    ds = ['dst.block(%d)' % d for d in range(dim)] if eq == 'Velocity' else ['dst']
    ss = ['src.block(%d)' % d for d in range(dim)] if eq == 'Velocity' else ['src']
    good = True
    pos = {}
    for d in ds:
        o = L.ops(d, ('dst',) if eq == 'Velocity' else ())
        good = c.ok('order:' + d, letters(o) == 'RAB', 'order', lambda: (letters(o), [ev[k].line for _, k in o])) and good
        pos[d] = dict(o)
    if not good:
        return
    for d, s in zip(ds, ss):
        y = L.row(d, pos[d]['R'])
        w = T.app('at', mm, I) * T.app('at', 'rho', I) * T.app('at', s, I)
        own = [T.atom_value(a_) for a_ in L.loop(ev[pos[d]['R']])[2].deep_atoms() if 'locally_owned_size' in str(a_.name)]
        c.ok('row:' + d, y is not None and nil(y - w), 'mass', lambda: (y if y is None else pretty(y), pretty(w)))
        c.ok('rows:' + d, all(plain(str(x.deep_atoms() and next(iter(x.atoms())).args[0])).split('.get_partitioner')[0] in (mm, 'rho', 'dst', s, d) for x in own), 'mass', lambda: own)
    e, body = m.bodies[0]
    c.ok('cells', len(m.bodies) == 1 and plain(path(e.value[0])) == 'mf' and plain(path(e.value[1])) == 'dst' and plain(path(e.value[2])) == 'src', 'mass', lambda: m.bodies)
    integrals(c, m, body, eq.lower(), dim, 'gradient')
    n = [T.app('cell', bmap, '<1>[%d]' % d, E) for d in range(dim)]
    for b, code in codes.items():
        x, z = [T.app('at', d, L.i) for d in ds], [T.app('at', s, L.i) for s in ss]
        if eq == 'Velocity':
            xn, zn = (sum((u[d] * n[d] for d in range(dim)), ZERO) for u in (x, z))
            w = {'slip': [x[d] - xn * n[d] + zn * n[d] for d in range(dim)], 'no_slip': z, 'dirichlet': z}.get(b, x)
        else:
            w = z if b == 'dirichlet' else x
        y = [L.fixed(d, code) for d in ds]
        c.ok('boundary:' + b, all(u is not None and nil(u - v) for u, v in zip(y, w)), 'natural', lambda: ([u if u is None else pretty(u) for u in y], [pretty(u) for u in w]))
        y = [L.fixed(d, code, owned=False) for d in ds]
        c.ok('boundary:%s:others' % b, all(u is not None and nil(u - v) for u, v in zip(y, x)), 'natural', lambda: y)


def smoother(R, P, eq, dim):
    cls = S + r'%sMatrix<%d, float, double>' % (eq, dim)
    f, g = one(P, cls + '::compute_diagonal'), one(P, cls + '::initialize')
    codes = {n: int(v) for n, v in P.enums['ryujin::Boundary']['vals']}
    c = C(R, 'smoother:%s:dim %d' % (eq, dim), f)
    m = Visc(P)
    this = m.I.new_root(Struct(f['cls'], {}, Opaque('o', f['cls'])))
    a = []
    for p in g['params']:
        t = plainarg(p['t'])
        v = T.const(3) if p['n'] == 'level' else T.sym('FACTOR') if is_scalar_type(t) else \
            Opaque('od' if 'OfflineData' in t else 'o.parabolic_system_' if 'ParabolicSystem' in t else 'mf' if 'MatrixFree' in t else 'rho', t)
        a.append(m.I.new_root(v))
    m.M.run(g, a, this=this, keep=True)
    m.M.run(f, [m.I.new_root(Opaque(p['n'], plainarg(p['t']))) for p in f['params']], this=this, keep=True)
    bmap, mm = 'od.level_boundary_map_[3]', 'od.level_lumped_mass_matrix_[3]'
    L = Log(m, bmap)
    ev = m.events
    vecs = sorted({plain(e.arr) for e in ev if e.kind == 'write' and L.loop(e) and L.loop(e)[0] == 'rows'})
    whole = plain(path(m.bodies[0][0].value[1])) if m.bodies else None
    good = c.ok('vectors', len(m.bodies) == 1 and vecs == ([whole] if eq == 'Energy' else ['%s.block(%d)' % (whole, d) for d in range(dim)]), 'smoother', lambda: (vecs, whole))
    if not good:
        return
    pos = {}
    for v in vecs:
        o = L.ops(v, (whole,) if eq == 'Velocity' else ())
        o = o[1:] if o and o[0][0] == 'X' else o
        good = c.ok('order:' + v, letters(o) == 'CRB', 'smoother', lambda: (letters(o), [ev[k].line for _, k in o])) and good
        pos[v] = dict(o)
    if not good:
        return
    for v in vecs:
        y = L.row(v, pos[v]['R'])
        w = T.inv(T.app('at', mm, I) * T.app('at', 'rho', I) + T.app('at', v, I))
        c.ok('row:' + v, y is not None and nil(y - w), 'smoother', lambda: (y if y is None else pretty(y), pretty(w)))
    e, body = m.bodies[0]
    c.ok('cells', plain(path(e.value[0])) == 'mf', 'smoother', lambda: e)
    P0 = {}
    for b in body:
        P0.setdefault(b.value[0].s if isinstance(b.value[0], Str) else str(b.value[0]), []).append(b)
    sub = P0.get('submit_gradient', []) + P0.get('submit_symmetric_gradient', []) + P0.get('submit_value', []) + P0.get('submit_divergence', [])
    gets = [b for n_, bs in P0.items() if n_.startswith('get_') for b in bs]
    if c.ok('submitted', len(sub) == 1 and gets and all(b.arr == sub[0].arr for b in gets), 'smoother', lambda: body):
        integrand(c, sub[0], P0, eq.lower(), dim, sub[0].arr, sub[0].value[-1])
    n = [T.app('cell', bmap, '<1>[%d]' % d, E) for d in range(dim)]
    for b, code in codes.items():
        x = [T.app('at', v, L.i) for v in vecs]
        if eq == 'Velocity':
            xn = sum((u * k for u, k in zip(x, n)), ZERO)
            one_n = sum(n, ZERO)
            w = {'slip': [x[d] - xn * n[d] + one_n * n[d] for d in range(dim)], 'no_slip': [ONE] * dim, 'dirichlet': [ONE] * dim}.get(b, x)
        else:
            w = [ONE] if b == 'dirichlet' else x
        y = [L.fixed(v, code) for v in vecs]
        c.ok('boundary:' + b, all(u is not None and nil(u - k) for u, k in zip(y, w)), 'smoother', lambda: ([u if u is None else pretty(u) for u in y], [pretty(u) for u in w]))
        y = [L.fixed(v, code, owned=False) for v in vecs]
        c.ok('boundary:%s:others' % b, all(u is not None and nil(u - k) for u, k in zip(y, x)), 'smoother', lambda: y)


def jacobi(R, P, dim, num):
    fs = P.find(S + r'DiagonalMatrix<%d, %s>::vmult' % (dim, num))
    if not fs:
        raise AnalysisError('no application of the diagonal preconditioner')
    for f in fs:
        block = 'BlockVector' in f['params'][0]['t']
        c = C(R, 'jacobi:dim %d:%s:%s' % (dim, num, 'block' if block else 'scalar'), f)
        m = Visc(P)
        go(m, f, {}, {})
        L = Log(m, '')
        ws = [e for e in m.events if e.kind == 'write']
        names = ['dst.block(%d)' % d for d in range(dim)] if block else ['dst']
        good = c.ok('written', {plain(e.arr) for e in ws} == set(names), 'jacobi', lambda: ws)
        for v in names if good else ():
            s_ = v.replace('dst', 'src')
            x, total = T.app('at', s_, I), ZERO
            mine = [e for e in ws if plain(e.arr) == v]
            for e in mine:
                lo = L.loop(e)
                if lo is None or lo[0] != 'rows':
                    total = None
                    break
                h, cond = lo[1], lo[2]
                g = at(T.subst(e.guard, {h: I}))
                k = at(T.subst(cond, {h: I}))
                y = at(T.subst(T.lift(e.value), {h: I}))
                for d in ('o.diagonal', 'o.diagonal_block' + v[3:]):
                    if nil(y - x * T.app('at', d, I)) and nil(e.idx - h):
                        # the blocks are used exactly when there are any
                        q = [T.atom_value(a) for a in g.deep_atoms() if plain(pretty(T.atom_value(a))) == 'size(o.diagonal_block)']
                        empty = T.eq0(q[0]) if q else ONE
                        total = total + (g - k * (empty if d == 'o.diagonal' else ONE - empty) if block else g - k)
                        break
                else:
                    total = None
                    break
            c.ok('row:' + v, mine and total is not None and total.is_zero() and len(mine) == (2 if block else 1), 'jacobi', lambda: mine)


def check(R, item):
    kind, dim, what = item
    P = export.programs([TU])[TU]
    if kind == 'step':
        step(R, P, dim, what)
    elif kind == 'smoother':
        smoother(R, P, what, dim)
    elif kind == 'jacobi':
        jacobi(R, P, dim, what)
    else:
        operator(R, P, *what[:1], dim, what[1])


def run(R):
    for r in RULES:
        R.rule(RULES[r])
    export.programs([TU])
    items = [('step', d, md) for d in (1, 2, 3) for md in ('conjugate gradients', 'multigrid', 'velocity multigrid', 'energy multigrid', 'no convergence')]
    items += [('operator', d, (eq, num)) for d in (1, 2, 3) for eq in ('Velocity', 'Energy') for num in ('double', 'float')]
    items += [('smoother', d, eq) for d in (1, 2, 3) for eq in ('Velocity', 'Energy')]
    items += [('jacobi', d, num) for d in (1, 2, 3) for num in ('double', 'float')]
    R.each(items, check)
    R.floor('obligations', 300)
