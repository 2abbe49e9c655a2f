"""B02: graph viscosity and time-step size"""
from scheme import *

PAIRS = 'this.offline_data_.coupling_boundary_pairs_'


def find(v, pred):
    return [a for a in v.deep_atoms() if pred(a)]


def one(R, cfg):
    s, u = build(cfg)
    f = s.f
    R.count('configurations')

    def ok(what, cond, rule, detail=''):
        R.count('viscosity obligations')
        return R.ok('%s:%s' % (s.tag, what), cond, f, rule, detail)

    m = u.ncomp()

    def fixrow(v, constrained):
        a = next(iter(T.eq0(ONE - s.n(T.app('row_length', I, pos=True))).atoms()))
        return T.restrict(v, a, constrained) if isinstance(v, Value) else v
    free = lambda v: fixrow(v, False)
    delta = T.sym('delta', True)

    def above(v):
        return T.subst(free(v), {J: I + delta})

    def below(v):
        return T.subst(free(v), {I: J + delta})

    def unit(c):
        n = T.sqrt(sum((x * x for x in c), ZERO))
        return n, tuple(x * T.inv(n) for x in c)
    U = lambda x: tuple(T.app('old_state_vector<0>[%d]' % k, x) for k in range(m))
    lam = lambda a, b, n: T.app('RiemannSolver.compute', U(a), U(b), a, b, n)
    regions = []
    for p in u.dij:
        if p.region not in regions:
            regions.append(p.region)
    ups, pairs, sym = [], [], []
    for p in u.dij:
        for a in writes(p, 'dij_matrix'):
            row = a.row
            if find(row, lambda x: PAIRS in x.name):
                pairs.append((p, a))
            elif isinstance(a.value, Value) and find(a.value, lambda x: x.name == 'RiemannSolver.compute'):
                ups.append((p, a))
            else:
                sym.append((p, a))
    # upper triangle
    n, nij = unit(u.ref.c(C))
    want = n * lam(I, J, nij)
    for p, a in ups:
        rg = '%s..%s' % ranges(p)
        g, v = above(s.n(a.guard)), s.n(a.value)
        ok('upper:%s' % rg, v == want and s.n(a.row) == I and s.n(a.col) == C,
           'the viscosity of an entry is the norm of c_ij times the maximal wave speed in its direction', lambda: clip(v - want))
        ok('upper-guard:%s' % rg, g.is_one() if hasattr(g, 'is_one') else g == ONE,
           'every entry above the diagonal of an unconstrained row is computed', lambda: clip(g))
        ok('upper-columns:%s' % rg, len(a.loops) == 2 and tuple(pretty(s.n(x)) if isinstance(x, Value) else str(x) for x in a.loops[1][1:]) in (('1', 'row_length(i)', '1'),),
           'all entries next to the diagonal are visited', str([str(x) for x in a.loops]))
    ok('upper-rows', {ranges(p) for p, a in ups} in FULL, 'all locally owned rows are visited', str([ranges(p) for p, a in ups]))
    # boundary pairs
    ok('pairs', len(pairs) == 1, 'boundary couplings are completed once', str(len(pairs)))
    for p, a in pairs:
        k = T.app('iv', 0, *p.loopargs) if hasattr(p, 'loopargs') else None
        row, col = a.row, a.col
        base = pretty(row)[:-3]
        jj = [x for x in a.guard.deep_atoms() | a.value.deep_atoms() if pretty(T.atom_value(x)) == base + '[2]']
        ok('pairs-entry', pretty(row) == base + '[0]' and pretty(col) == base + '[1]' and len(jj) == 1, 'the entry of the coupling is completed', pretty(row))
        if len(jj) != 1:
            continue
        jv = T.atom_value(jj[0])
        cji = tuple(T.app('this.offline_data_.cij_matrix_^T[%d]' % d, row, col) for d in range(s.dim))
        nn, nji = unit(cji)
        d = find(a.value, lambda x: short(x.name.split('@')[0]) == 'dij_matrix')
        want2 = T.vmax(T.atom_value(d[0]), nn * lam(jv, row, nji)) if len(d) == 1 else ZERO
        ok('pairs-value', len(d) == 1 and a.value == want2 and d[0].args == (row, col),
           'on boundary couplings the larger of the two viscosities is taken', lambda: clip(a.value - want2))
        g = T.subst(a.guard, {jv: row + delta})
        ok('pairs-guard', g == ONE, 'every boundary coupling above the diagonal is completed', lambda: clip(g))
        ok('pairs-range', pretty(p.range[0]) == '0' and pretty(p.range[1]) == 'size(%s)' % PAIRS, 'all boundary couplings are visited', pretty(p.range[1]))
        ok('pairs-order', all(p.n > q.n for q, _ in ups) and all(p.n < q.n for q, _ in sym), 'couplings are completed between computing and mirroring', '')
    # mirror and diagonal
    low = [(p, a) for p, a in sym if s.n(a.col) == C]
    dia = [(p, a) for p, a in sym if s.n(a.col) is not None and s.n(a.col).is_zero()]
    ok('mirror-rows', {ranges(p) for p, a in low} in FULL and {ranges(p) for p, a in dia} in FULL, 'all locally owned rows are mirrored', '')
    last = max((p.n for p, a in pairs), default=-1)
    up = max((p.n for p, a in ups), default=-1)
    for p, a in low:
        v = below(s.n(a.value))
        t = table(next(iter(s.n(a.value).atoms()))) if len(s.n(a.value).t) == 1 else None
        vis = str(t[1]) if t else ''
        ok('mirror', t is not None and t[2] and short(t[0]) == 'dij_matrix' and current(u, s, p, 'dij_matrix', vis),
           'an entry below the diagonal is the completed entry of the transposed position', lambda: clip(s.n(a.value)))
        g = below(s.n(a.guard))
        ok('mirror-guard', g == ONE, 'every entry below the diagonal is mirrored', lambda: clip(g))
        g = above(s.n(a.guard))
        ok('mirror-keep', g.is_zero(), 'entries above the diagonal keep their value', lambda: clip(g))
    dmin = T.sym('dblmin') if False else None
    diag = None
    for p, a in dia:
        v = s.n(a.value)
        sums = find(v, lambda x: x.name == 'sum')
        good = len(sums) == 1
        body = sums[0].args[-1] if good else ZERO
        tr = [x for x in body.deep_atoms() if table(x) and short(table(x)[0]) == 'dij_matrix']
        own = [T.atom_value(x) for x in tr if not table(x)[2]]
        mir = [T.atom_value(x) for x in tr if table(x)[2]]
        # the sum may be accumulated with either sign
        sg = T.const(-1) if len(own) == 1 and above(body) == -above(own[0]) else ONE
        ok('diagonal-sum', good and len(own) == 1 and above(body) == sg * above(own[0]) and (not mir or len(mir) == 1 and below(body) == sg * below(mir[0])),
           'the diagonal is minus the sum of the (mirrored) entries of the row', lambda: clip(body))
        ok('diagonal-columns', good and tuple(pretty(x) if isinstance(x, Value) else str(x) for x in sums[0].args[:-1]) == (str(('loop', 1, '1', 'row_length(i)', '1')),) or good and looks_full(sums[0]),
           'all neighbours enter the diagonal', lambda: str(sums[0].args[:-1]))
        if good:
            sv = T.atom_value(sums[0])
            rest = find(v, lambda x: x.name == 'dblmin')
            ok('diagonal-value', bool(rest) and v == T.vmin(-sg * sv, T.const(-1000000) * T.atom_value(rest[0])),
               'the diagonal is bounded away from zero from below only by a tiny number', lambda: clip(v))
        g = free(s.n(a.guard))
        ok('diagonal-guard', g == ONE, 'every unconstrained row has a diagonal', lambda: clip(g))
        diag = v
    # time step
    coll = [e for e in s.marks('collective') if e.name == 'min']
    ok('tau-collective', len(coll) == 1 and all(c.guard == ONE for c in coll), 'one global minimum over all ranks', str(len(coll)))
    if coll and diag is not None:
        v = coll[0].value
        rec = find(v, lambda x: x.name == 'recur')
        tm = [x for x in v.deep_atoms() if x.kind == 'sym' and x.name == 'tau_max']
        ok('tau-threads', len(rec) == 1 and len(tm) == 1 and v == T.vmin(T.atom_value(tm[0]), T.atom_value(rec[0])),
           'the minimum over the threads is combined with the given upper bound', lambda: clip(v))
        if len(rec) == 1:
            la, ph, end, init = rec[0].args
            end = s.n(end)
            mass = u.ref.off('lumped_mass_matrix', I)
            cfl = T.sym('this.cfl_')
            want3 = T.vmin(ph, cfl * mass * T.inv(T.const(-2) * diag))
            ok('tau-row', free(end) == want3, 'a row bounds the time step by cfl m_i / (2 |d_ii|)', lambda: clip(free(end) - want3))
            con = fixrow(end, True)
            ok('tau-constrained', con == ph, 'constrained rows do not bound the time step', lambda: clip(con))
            ok('tau-init', pretty(init) == 'dblmax', 'the minimum starts at the largest number', pretty(init))
            ok('tau-rows', [pretty(x) if isinstance(x, Value) else str(x) for x in la][2:] == ['0', 'this.offline_data_.n_locally_owned_', '1'],
               'all locally owned rows bound the time step', str(la))
        g = T.app('MPI.min', v)
        tau = T.sym('tau')
        want4 = T.select(T.eq0(tau), g, tau)
        ok('tau-return', isinstance(s.ret, Value) and s.ret == want4, 'the step uses and returns the given time step, or the computed bound if none is given', lambda: clip(s.ret - want4))
        # the update uses the very same time step
        memo = {}

        def zero(x, args):
            if x.name == 'eq0' and args[0] == tau:
                return ONE
            return s.fn(x, args)
        for p in u.low:
            for a in writes(p, 'new'):
                x = T.rewrite(flat(a.value)[0], zero, memo)
                rest, body, loops = split_sum(x)
                body = normalise(body, s)
                u.ref.tau = T.rewrite(g, zero, memo)
                want5 = normalise(u.ref.tau * u.ref.minv(I) * u.ref.low(J, C, 0), s)
                u.ref.tau = tau
                ok('tau-used:%s..%s' % ranges(p), body == want5, 'the update uses the time step that is returned', lambda: clip(body - want5))
        # sanity of the bound
        asserts = [e for e in s.marks('assert')]
        bad = ONE - (ONE - T.boolapp('isnan', g)) * (ONE - T.boolapp('isinf', g)) * T.gt0(g)
        ok('tau-sane', any(e.guard == bad for e in asserts), 'the step ends with an error unless the time step is a positive finite number',
           lambda: str([clip(e.guard, 200) for e in asserts]))


def looks_full(x):
    la = [y for y in x.args[:-1]]
    f = []
    for y in la:
        f += list(y) if isinstance(y, tuple) else [y]
    f = [pretty(y) if isinstance(y, Value) else str(y) for y in f]
    return f[-3:] == ['1', 'row_length(i)', '1']


FULL = ({('n_locally_internal_', 'n_locally_owned_'), ('0', 'n_locally_internal_')}, {('0', 'n_locally_owned_')})


def current(u, s, p, array, ver):
    """ver denotes the last completed write of the array before phase p (other than p itself)"""
    best = 0
    for q in s.phases:
        if q.n >= p.n:
            break
        if any(short(a.array) == array for a in q.writes()):
            best = q.n + 0.5 if q.region == p.region else q.region
    return ver == str(best)


def run(R):
    preload()
    R.rule('The phases that compute the viscosity matrix are summarised over arbitrary rows and entries: which entries are written under which guard, '
           'with which value, in which order; the time step is the recurrence over all rows combined over threads (atomic) and ranks (collective).')
    R.assume('indices j different from i')
    R.each([c for c in configs(R.tier) if c[3] == 2 or R.tier != 'quick'], one)
    R.floor('configurations', 6)
    R.floor('viscosity obligations', 300)
