"""B08: preparing a state"""
from prep import *
import eqs

MAP = 'this.offline_data_.boundary_map_'
N_INT, N_OWN = 'this.offline_data_.n_locally_internal_', 'this.offline_data_.n_locally_owned_'


def entry(k, size=None):
    return re.compile(r'^elem\(%s, <%d>(\[(\d)\])?, iv\(0, 0, size\(%s\), 1\)\)$' % (re.escape(MAP), k, re.escape(MAP)))


def is_entry(v, k, comp=None):
    m = entry(k).match(pretty(v)) if isinstance(v, Value) else None
    return bool(m) and (m.group(2) or None) == (None if comp is None else str(comp))


def boundary(R, s, donothing):
    f = s.f
    ev = s.st.events
    ws = [e for e in ev if isinstance(e, Access) and e.mode == 'write' and e.array == 'state_vector<0>']
    cs = [e for e in ev if isinstance(e, Call) and e.name == 'apply_boundary_conditions']
    syncs = [k for k, e in enumerate(ev) if isinstance(e, Mark) and e.kind == 'sync' and e.array == 'state_vector<0>']

    def ok(what, cond, rule, detail=''):
        R.count('boundary obligations')
        R.ok('%s:boundary:%s' % (s.tag, what), cond, f, rule, detail)
    ok('write', len(ws) == 1 and len(cs) == 1, 'one write of the state per entry of the boundary map', '%d writes, %d calls' % (len(ws), len(cs)))
    if len(ws) != 1 or len(cs) != 1:
        return
    w, c = ws[0], cs[0]
    ok('row', is_entry(w.row, 0), 'the state of the degree of freedom of the entry is written, for all entries of the map', lambda: clip(w.row))
    gs = T.bools(w.guard)
    want = None
    for b in gs:
        if b.name == 'eq0' and len(b.args) == 1:
            d = b.args[0] if isinstance(b.args[0], Value) else T.lift(b.args[0])
            idv = [x for x in d.atoms() if is_entry(T.atom_value(x), 4)]
            if len(idv) == 1:
                e = d - T.atom_value(idv[0])
                e2 = d + T.atom_value(idv[0])
                k = e.const() if e.const() is not None else e2.const()
                if k is not None and abs(k) == donothing:
                    want = b
    ok('guard', len(gs) == 1 and want is not None and w.guard == ONE - T.restrict(w.guard, want, 0) * T.atom_value(want) and T.restrict(w.guard, want, 0) == ONE
       and T.restrict(w.guard, want, 1).is_zero(),
       'every entry is treated unless its identifier says to do nothing', lambda: clip(w.guard))
    a = c.args
    st = flat(a[1]) if len(a) > 2 and isinstance(a[1], Arr) else []
    ok('id', bool(a) and is_entry(a[0], 4), 'the boundary condition is that of the entry', lambda: clip(a[0]))
    reads = [e for e in ev if isinstance(e, Access) and e.mode == 'read' and e.array == 'state_vector<0>' and e.phase is None]
    ok('state', bool(st) and all(re.match(r'^state_vector<0>\[%d\]\(' % k, pretty(x)) and len(x.atoms()) == 1 and is_entry(next(iter(x.atoms())).args[0], 0) for k, x in enumerate(st)),
       'the boundary condition is applied to the old state of the same degree of freedom', lambda: clip(st))
    nrm = flat(a[2]) if len(a) > 2 and isinstance(a[2], Arr) else []
    ok('normal', len(nrm) == s.dim and all(is_entry(x, 1, k) for k, x in enumerate(nrm)), 'with the normal of the entry', lambda: clip(nrm))
    for d in s.dirichlet[:3]:
        good = isinstance(d, Arr) and bool(d.e)
        for k, x in enumerate(flat(d)):
            y = next(iter(x.atoms()), None)
            good = good and y is not None and x == T.atom_value(y) and y.name == 'initial_state[%d]' % k and len(y.args) == 2 \
                and len(tuple(y.args[0])) == s.dim and all(is_entry(z, 5, m) for m, z in enumerate(y.args[0])) and y.args[1] == T.sym('t')
        ok('dirichlet', good, 'prescribed data are those at the position of the entry and at the requested time', lambda: clip(d))
    ok('dirichlet-given', len(s.dirichlet) > 0, 'prescribed data are handed over', '')
    res = flat(w.value)
    good = len(res) == len(st)
    for k, x in enumerate(res):
        y = next(iter(x.atoms()), None)
        good = good and y is not None and x == T.atom_value(y) and y.name == 'apply_boundary_conditions[%d]' % k
    ok('result', good, 'the state becomes the result of the boundary condition', lambda: clip(res))
    k = ev.index(w)
    ok('exchange', any(x > k for x in syncs) and all(x > k for x in syncs), 'the boundary values are set before the state is exchanged', '')


def rows(p, a):
    """(offset, lo, hi) of the rows a phase visits and the substitution of its loop index by the row"""
    r = a.row
    iv = [x for x in r.atoms() if x.kind == 'app' and x.name == 'iv']
    if len(iv) != 1:
        raise AnalysisError('row of a precomputed value: %s' % clip(r))
    off = r - T.atom_value(iv[0])
    if any(x.name == 'iv' for x in off.deep_atoms()):
        raise AnalysisError('row of a precomputed value: %s' % clip(r))
    return off, off + T.lift(iv[0].args[1]), off + T.lift(iv[0].args[2]), iv[0]


def normal(s, v, iv, off):
    def fn(x, args):
        if x == iv or (x.name == 'iv' and tuple(x.args) == tuple(iv.args)):
            return I - off
        return None
    return s.n(T.rewrite(v, fn))


def stored(R, s, pressure=None):
    """per group of phases: the values stored in the table of precomputed values, over the row i"""
    f = s.f
    groups = {}
    for p in s.phases:
        for a in p.writes():
            if a.array == 'state_vector<1>':
                groups.setdefault(p.region, []).append((p, a))
    out = []

    def ok(what, cond, rule, detail=''):
        R.count('precomputation obligations')
        R.ok('%s:%s' % (s.tag, what), cond, f, rule, detail)
    ev = s.st.events
    starts = {id(e.phase): k for k, e in enumerate(ev) if isinstance(e, Mark) and e.kind == 'phase'}
    ends = {id(e.phase): k for k, e in enumerate(ev) if isinstance(e, Mark) and e.kind == 'endphase'}
    order = sorted(groups)
    for n, g in enumerate(order):
        lo = max(ends[id(p)] for p, _ in groups[g])
        hi = min(starts[id(p)] for p, _ in groups[order[n + 1]]) if n + 1 < len(order) else len(ev)
        names = [e.name for e in ev[lo:hi] if isinstance(e, Mark) and e.kind == 'sync' and e.array == 'state_vector<1>']
        ok('cycle%d:exchange' % n, names in (['update_ghost_values_start', 'update_ghost_values_finish'], ['update_ghost_values']),
           'the values of a cycle are exchanged with the other ranks before they are used', str(names))
        spans, vals = [], []
        for p, a in groups[g]:
            off, lo, hi, iv = rows(p, a)
            spans.append((pretty(lo), pretty(hi)))
            tag = 'cycle%d:%s..%s' % (n, pretty(lo).split('.')[-1], pretty(hi).split('.')[-1])
            gd = normal(s, a.guard, iv, off)
            rl = T.eq0(T.app('row_length', I, pos=True) - ONE)
            ok(tag + ':guard', gd == ONE - rl, 'every row that is not constrained gets its values', lambda: clip(gd))
            vs = [normal(s, x, iv, off) for x in flat(a.value)]
            table = buffers(s, p, iv, off, ok, tag)
            vs = [T.rewrite(x, lambda y, args: table.get((y.name, pretty(args[0]))) if y.kind == 'app' and len(args) == 1 and isinstance(args[0], Value) else None) for x in vs]
            vs = [T.rewrite(x, own_version) for x in vs]
            foreign = set()
            for x in vs:
                for y in x.deep_atoms():
                    if y.kind == 'app' and y.name.startswith(('state_vector<', 'static.')):
                        r = y.args[0]
                        if r != I and r != J and not (y.name.startswith('state_vector<') and pretty(r).startswith('col(i, c') or pretty(r).startswith('col(i, iv(')):
                            foreign.add(pretty(r))
            ok(tag + ':rows', not foreign, 'a row only uses its own values and those of its neighbours', lambda: clip(sorted(foreign)))
            vals.append(vs)
        want = {('0', N_INT), (N_INT, N_OWN)}
        got = set(spans)
        ok('cycle%d:ranges' % n, got == want or got == {('0', N_OWN)}, 'all owned rows are visited, each once', lambda: str(spans))
        for vs in vals[1:]:
            ok('cycle%d:same' % n, len(vs) == len(vals[0]) and all(x == y for x, y in zip(vs, vals[0])), 'all index ranges store the same formula',
               lambda: [clip(x - y) for x, y in zip(vs, vals[0]) if x != y][:1])
        out.append(vals[0])
    return out


def own_version(x, args):
    """the table of this cycle as it was before, whatever the version is called"""
    m = TAB.match(x.name) if x.kind == 'app' else None
    if m and m.group(2) and x.name.startswith('state_vector<1>'):
        return T.app(m.group(1) + (m.group(3) or '') + m.group(4), *args)
    return None


def buffers(s, p, iv, off, ok, tag):
    """scratch vectors a call of the vector interface fills: {(name, index): value}"""
    ev = s.st.events
    here = [k for k, e in enumerate(ev) if isinstance(e, Mark) and e.kind == 'phase' and e.phase is p][0]
    fills, r = {}, {}
    for k, e in enumerate(ev[:here]):
        if isinstance(e, Access) and e.mode == 'write' and e.array.startswith('static.'):
            fills[e.array] = e
        if getattr(e, 'name', None) == 'pressure' and not isinstance(e, (Access, Mark)):
            names = [re.search(r'\((static\.\w+)\)', str(x)) for x in e.args]
            names = [m.group(1) if m else None for m in names]
            if not any(names):
                continue
            if len(names) != 3 or None in names:
                raise AnalysisError('call of the vector interface: %s' % clip(e.args))
            out, rho, en = names
            vals = []
            for nm in (rho, en):
                w = fills.get(nm)
                if w is None:
                    raise AnalysisError('%s is not filled before the call of the vector interface' % nm)
                wiv = [x for x in w.row.atoms() if x.name == 'iv']
                same = len(wiv) == 1 and w.row == T.atom_value(wiv[0]) and tuple(wiv[0].args) == tuple(iv.args)
                if not same:
                    break
                vals.append(normal(s, w.value, iv, off))
                ok(tag + ':fill:' + nm, w.guard == ONE, 'all entries of the arguments of the vector interface are set', lambda: clip(w.guard))
            if len(vals) == 2:
                eos = [x for x in s.eosname]
                r[(out, pretty(I - off))] = T.app('pressure', *s.eosname, *vals)
    return r


def one(R, cfg):
    eq, dim = cfg
    R.count('configurations')
    ps = prepares(eq, dim)
    en = ps[0].st.P.enums.get('ryujin::Boundary')
    if not en:
        raise AnalysisError('enumeration of boundary conditions not found')
    dn = {n: int(v) for n, v in en['vals']}['do_nothing']
    results = []
    for s in ps:
        s.eosname = eos(ps[0])
        boundary(R, s, dn)
        results.append(stored(R, s))
    f = ps[0].f
    cyc = [x for c in ps[0].st.P.class_by_q.values() if 'HyperbolicSystemView<%d, double>' % dim in c['q'] for x in c['statics'] if x['n'] == 'n_precomputation_cycles']
    if cyc:
        n = int(cyc[0]['e']['v'])
        for s, r in zip(ps, results):
            R.ok('%s:cycles' % s.tag, len(r) == n, f, 'every cycle of the precomputation is executed', '%d of %d' % (len(r), n))
    if len(results) == 2:
        for n, (a, b) in enumerate(zip(*results)):
            R.count('interface comparisons')
            R.ok('%s:vector:%d' % (ps[1].tag, n), len(a) == len(b) and all(x == y for x, y in zip(a, b)), f,
                 'the vector interface of the equation of state stores what the scalar one stores', lambda: [clip(x - y) for x, y in zip(a, b) if x != y][:1])


def eos(s):
    """how the scalar branch spells the receiver of a call of the equation of state"""
    for p in s.phases:
        for a in p.writes():
            for x in flat(a.value):
                for y in x.deep_atoms():
                    if y.kind == 'app' and y.name == 'pressure' and len(y.args) == 3:
                        return y.args[:1]
    return ()


def run(R):
    preload()
    R.rule('Abstract execution of the preparation of a state vector for a symbolic entry of the boundary map and a symbolic row: which entry and which row each value is read from, stored to, '
           'and under which condition; the formulas of all index ranges and of both interfaces of the equation of state are compared as normal forms.')
    R.assume('the formulas stored per row are decided in A05, the boundary conditions themselves in A06')
    R.each([(eq, d) for eq, _ in EQS for d in (1, 2, 3)], one)
    R.floor('boundary obligations', 150)
    R.floor('precomputation obligations', 80)
    R.floor('interface comparisons', 6)
