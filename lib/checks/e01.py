"""E01: checkpoints, restart and mesh adaptation carry the whole state over"""
import re
from trace import *
import export

EQ = ('euler', 'shallow_water', 'euler_aeos', 'navier_stokes', 'scalar_conservation', 'skeleton')
RULES = {
    'components': 'every component of the state is handed over, each in one place, with its current values, on the current partition',
    'positions': 'a component is read back from the place where it was stored',
    'metadata': 'time and output cycle are read in the order and with the types in which they were written, and have the same value on all processes',
    'files': 'what is read is what was written, and an existing checkpoint is moved out of the way first',
    'order': 'mesh, data structures, vectors and values are set up in an order in which each finds what it needs',
    'source': 'a checkpoint holds the solution, its time and output cycle, and is made exactly when asked for',
    'restart': 'a resumed computation starts from the checkpoint, any other from the interpolated initial values',
    'kernels': 'after every change of the mesh all data structures are prepared again, the offline data first',
}
OPAQUE = ('extract_component', 'insert_component', 'read_checkpoint', 'write_checkpoint', 'output', 'adapt_mesh_and_transfer_state_vector', 'compute_error',
          'print_parameters', 'print_mpi_partition', 'print_cycle_statistics', 'print_info', 'schedule_output', 'step', 'analyze', 'accumulate', 'write_out',
          'reinit_state_vector', 'interpolate_hyperbolic_vector', 'prepare_state_vector', 'reset_bounds', 'setup', 'assemble', 'create_multigrid_data')
KEEPS = ('update_ghost_values', 'prepare_for_serialization', 'prepare_for_coarsening_and_refinement', 'exists', 'append')
S = T.sym


class Ctx:
    def __init__(self, R, key, f):
        self.R, self.key, self.f = R, key, f

    def ok(self, key, cond, rule, detail=''):
        self.R.count('obligations')
        self.R.ok('E01:%s:%s' % (self.key, key), bool(cond), self.f, RULES[rule], detail)
        return bool(cond)


class Part:
    """one member function of the time loop, executed abstractly"""

    def __init__(self, P, name, dim, opaque=OPAQUE):
        self.P = P
        self.f = f = P.one(r'ryujin::TimeLoop<.*, %d, \w+>::%s(<.*>)?' % (dim, name))
        self.tr = tr = Trace(P, [n for n in opaque if n != name])
        I = tr.I
        self.renewed = 0
        self.this = I.new_root(Struct(f['cls'], {'offline_data_': Opaque('od', 'ryujin::OfflineData<%d, double>' % dim)}, Opaque('tl', f['cls'])))
        args = []
        self.kernels = []
        for p in f['params']:
            t = strip_type(p['t']).replace('const ', '').rstrip(' &')
            if is_scalar_type(t):
                args.append(I.new_root(I.symbolic(t, p['n'])))
            else:
                args.append(I.new_root(Opaque(p['n'], t)))
            if 'lambda' in t or 'std::function' in t:
                self.kernels.append(p['n'])
        I.hooks['operator()'] = self.invoke
        self.args = {p['n']: a for p, a in zip(f['params'], args)}
        self.order = [p['n'] for p in f['params']]
        tr.M.run(f, args, this=self.this, keep=True)

    def invoke(self, I, e, fr):
        if e['k'] != 'opcall' or not self.kernels:
            return NotImplemented
        try:
            v = self.tr.val(e['a'][0], fr)
        except AnalysisError:
            return NotImplemented
        if path(v) not in self.kernels:
            return NotImplemented
        self.tr.note('call', 'prepare kernels', None, [v], e)
        self.renewed += 1
        lv = (self.this[0], (('f', 'offline_data_'),))
        I.write(lv, Opaque('od%d' % self.renewed, I.read(lv, '').t))
        return None

    def param(self, k):
        return self.order[k]

    def final(self, k):
        return self.tr.I.read(self.args[self.order[k]], '')


def ncomp(f):
    m = re.search(r'MultiComponentVector<\w+, (\d+)', f['params'][0]['t'])
    if not m:
        raise AnalysisError('state vector of %s' % f['q'])
    return int(m.group(1))


def one(C, tr, key, rule, *names):
    r = tr.calls(*names)
    C.ok(key, len(r) == 1 and r[0].guard == ONE and not r[0].loops, rule, lambda: r or tr.events[:40])
    return r[0] if len(r) == 1 else None


def sized(tr, p, at, od):
    """the last partition a vector was given before an event"""
    r = [e for e in tr.events[:at] if e.kind == 'call' and e.arr == 'reinit' and plain(path(e.value[0])) == p]
    return bool(r) and path(r[-1].value[1]) == od + '.scalar_partitioner_' and r[-1].guard == ONE


def stored(C, tr, use, U, n, od):
    """the component in every position of the list handed over"""
    at = tr.at(use)
    objs = tr.listed(path(use.value[1]) or '', at)
    if not C.ok('list', objs is not None and len(objs) == n and None not in objs and len(set(objs)) == n, 'components', lambda: (objs, use)):
        return None
    r = []
    for k, p in enumerate(objs):
        ex = [e for e in tr.calls('extract_component') if plain(path(e.value[1])) == p and tr.at(e) < at]
        good = len(ex) >= 1 and ex[-1].guard == ONE and not ex[-1].loops and plain(path(ex[-1].value[0])) == U
        C.ok('extracted:%d' % k, good, 'components', lambda: (p, ex))
        if not good:
            return None
        i = tr.at(ex[-1])
        C.ok('sized:%d' % k, sized(tr, p, i, od), 'components', lambda: tr.touching(p, 0, at))
        C.ok('kept:%d' % k, all(e.arr in KEEPS for e in tr.touching(p, i, at)), 'components', lambda: tr.touching(p, i, at))
        C.ok('source kept:%d' % k, not [e for e in tr.touching(U, i, at) if e.arr not in ('extract_component',)], 'components', lambda: tr.touching(U, i, at))
        c = ex[-1].value[2].const()
        r.append(int(c) if c is not None else None)
    if not C.ok('all', None not in r and sorted(r) == list(range(n)), 'components', lambda: r):
        return None
    return r


def restored(C, tr, use, U, n, od, places):
    """every component is filled from its place in the list"""
    at = tr.at(use)
    objs = tr.listed(path(use.value[1]) or '', at)
    if not C.ok('list read', objs is not None and len(objs) == n and None not in objs and len(set(objs)) == n, 'components', lambda: (objs, use)):
        return
    ins = [e for e in tr.calls('insert_component') if plain(path(e.value[0])) == U]
    last = at
    for d in range(n):
        x = [e for e in ins if e.value[2].const() == d]
        good = len(x) == 1 and x[0].guard == ONE and not x[0].loops and tr.at(x[0]) > at
        C.ok('inserted:%d' % d, good, 'components', lambda: ins)
        if not good:
            return
        p = plain(path(x[0].value[1]))
        C.ok('position:%d' % d, p in objs and places is not None and places[objs.index(p)] == d, 'positions', lambda: (d, p, objs, places))
        C.ok('kept read:%d' % d, not [e for e in tr.touching(p, at, tr.at(x[0])) if e.arr not in KEEPS], 'components', lambda: tr.touching(p, at, tr.at(x[0])))
        C.ok('sized read:%d' % d, sized(tr, p, at, od), 'components', lambda: tr.touching(p, 0, at))
        last = max(last, tr.at(x[0]))
    C.ok('nothing else inserted', len(ins) == n, 'components', lambda: ins)
    init = [e for e in tr.calls('reinit_state_vector') if plain(path(e.value[1])) == U.rsplit('[0]', 1)[0]]
    C.ok('state sized', len(init) == 1 and init[0].guard == ONE and path(init[0].value[2]) == od and tr.at(init[0]) < min(tr.at(e) for e in ins), 'components', lambda: init)
    g = [e for e in tr.calls('update_ghost_values') if plain(path(e.value[0])) == U and tr.at(e) > last]
    C.ok('ghosts', g and g[-1].guard == ONE, 'components', lambda: g)


def meta(tr, kind):
    return [e for e in tr.events if e.kind == kind]


def archive(tr, p, kind):
    """name of the file behind an archive"""
    made = tr.made.get(p, p) if p else ''
    m = re.match(r'boost::archive::(\w+?)_%sarchive\((.*)\)$' % kind, made or '')
    if not m:
        return None
    s = re.search(r'basic_%sfstream<[^(]*>\((.*),(\d+)\)' % kind, m.group(2))
    if not s:
        return None
    return m.group(1), pieces(Opaque(plain(s.group(1)))), int(s.group(2))


def rank0(g):
    """executed exactly on process zero"""
    a = list(g.atoms())
    return len(a) == 1 and a[0].kind == 'bool' and a[0].name == 'eq0' and (g - T.atom_value(a[0])).is_zero() and pretty(a[0].args[0]).endswith('mpi_rank_')


def checkpoint(R, P, eq, dim):
    w = Part(P, 'write_checkpoint', dim)
    C = Ctx(R, '%s:%d:write' % (eq, dim), w.f)
    tr, n = w.tr, ncomp(w.f)
    state, base, t, cycle = w.order[:4]
    use = one(C, tr, 'prepared', 'order', 'prepare_for_serialization')
    save = one(C, tr, 'saved', 'order', 'save')
    if not use or not save:
        return
    places = stored(C, tr, use, state + '[0]', n, 'od')
    C.ok('transfer', 'od.dof_handler_' in (path(use.value[0]) or ''), 'order', lambda: use)
    C.ok('before saving', tr.at(use) < tr.at(save) and plain(path(save.value[0])) == 'tl.discretization_.triangulation_', 'order', lambda: (use, save))
    mesh = pieces(save.value[1])
    put = meta(tr, 'put')
    arch = set(e.arr for e in put)
    C.ok('metadata', put and len(arch) == 1 and all(rank0(e.guard) and not e.loops for e in put), 'metadata', lambda: put)
    info = archive(tr, put[0].arr, 'o') if put else None
    C.ok('metadata file', info and not info[2] & 1, 'files', lambda: (put, tr.made))
    order = [(e.value, e.field) for e in put]
    sym = {k: S(k) for k in (t, cycle)}
    C.ok('what', all(sum(1 for v, _ in order if isinstance(v, Value) and (v - sym[k]).is_zero()) == 1 for k in sym), 'metadata', lambda: [show(v) for v, _ in order])
    # the previous checkpoint
    if info and mesh:
        ren = tr.calls('rename')
        lit = lambda x: (x[:-1] + [('l', x[-1][1])]) if x else x
        want = [mesh, add(mesh, '_fixed.data'), add(mesh, '.info'), info[1]]
        for k, x in enumerate(want):
            r = [e for e in ren if pieces(e.value[1]) == x]
            good = len(r) == 1 and pieces(r[0].value[2]) == add(x, '~') and not r[0].loops
            if good:
                a = [b for b in r[0].guard.atoms() if b.name == 'exists']
                good = len(a) == 1 and pieces(Opaque(str(a[0].args[0]))) == x and rank0(T.restrict(r[0].guard, a[0], 1)) and T.restrict(r[0].guard, a[0], 0).is_zero()
            good = good and tr.at(r[0]) < min([tr.at(save)] + [tr.at(e) for e in put])
            C.ok('previous:%d' % k, good, 'files', lambda: (x, ren))
        C.ok('nothing else moved', len(ren) == len(want) and not tr.calls('remove', 'remove_all'), 'files', lambda: ren)

    r = Part(P, 'read_checkpoint', dim)
    C = Ctx(R, '%s:%d:read' % (eq, dim), r.f)
    tr = r.tr
    state2, base2 = r.order[:2]
    load = one(C, tr, 'loaded', 'order', 'load')
    kern = one(C, tr, 'prepared', 'kernels', 'prepare kernels')
    des = one(C, tr, 'deserialized', 'order', 'deserialize')
    if not load or not kern or not des:
        return
    prep = [e for e in tr.calls('prepare') if 'iscretization' in (e.node.get('cls') or '')]
    zero = [e for e in tr.events if (e.kind in ('write', 'fill') or (e.kind == 'call' and e.arr in ('=', 'operator='))) and
            'refinement_' in str(path(e.value[0]) if isinstance(e.value, list) else e.arr)]
    val = zero[0].value[1] if zero and isinstance(zero[0].value, list) else zero[0].value if zero else None
    ref = refinement(r, prep[0]) if prep else None
    C.ok('no refinement', (ref is not None and ref.is_zero()) or (len(zero) == 1 and isinstance(val, Value) and val.is_zero() and prep and tr.at(zero[0]) < tr.at(prep[0])), 'order', lambda: (zero, ref))
    C.ok('mesh', len(prep) == 1 and prep[0].guard == ONE and tr.at(prep[0]) < tr.at(load) < tr.at(kern) < tr.at(des), 'order', lambda: (prep, load, kern))
    C.ok('same triangulation', plain(path(load.value[0])) == 'tl.discretization_.triangulation_', 'order', lambda: load)
    C.ok('same mesh file', mesh is not None and pieces(load.value[1]) == swap(mesh, base, base2), 'files', lambda: (mesh, pieces(load.value[1])))
    get = meta(tr, 'get')
    C.ok('metadata', get and len(set(e.arr for e in get)) == 1 and all(rank0(e.guard) and not e.loops for e in get), 'metadata', lambda: get)
    info2 = archive(tr, get[0].arr, 'i') if get else None
    C.ok('metadata file', info and info2 and info[0] == info2[0] and info2[1] == swap(info[1], base, base2), 'files', lambda: (info, info2))
    C.ok('types', [x for _, x in order] == [e.field for e in get], 'metadata', lambda: (order, get))
    for nm, k in ((t, 2), (cycle, 3)):
        v = r.final(k)
        pos = [i for i, (x, _) in enumerate(order) if isinstance(x, Value) and (x - sym[nm]).is_zero()]
        C.ok('value:%d' % k, len(pos) == 1 and isinstance(v, Value) and (v - T.app('stored', pos[0])).is_zero(), 'metadata', lambda: (show(v), pos))
    for e in meta(tr, 'bcast'):
        if e.value[2] is not None:
            kinds = {'double': 'double', 'float': 'float', 'unsigned int': 'unsigned', 'int': 'int', 'unsigned long': 'unsigned_long', 'unsigned char': 'unsigned_char', 'bool': 'cxx_bool'}
            C.ok('broadcast', e.value[1] == ONE and e.value[2] == 'ompi_mpi_' + kinds.get(e.field, '?') and e.guard == ONE, 'metadata', lambda: e)
    C.ok('transfer', 'od1.dof_handler_' in (path(des.value[0]) or ''), 'order', lambda: des)
    restored(C, tr, des, state2 + '[0]', n, 'od1', places)


def refinement(part, at):
    I = part.tr.I
    try:
        v = I.read((part.this[0], part.this[1] + (('f', 'discretization_'), ('f', 'refinement_'))), 'unsigned int')
    except AnalysisError:
        return None
    return v if isinstance(v, Value) else None


def add(x, lit):
    return x[:-1] + [('l', x[-1][1] + lit)] if x and x[-1][0] == 'l' else list(x) + [('l', lit)]


def swap(x, a, b):
    return [('s', b) if p == ('s', a) else p for p in x] if x else x


def adaptation(R, P, eq, dim):
    m = Part(P, 'adapt_mesh_and_transfer_state_vector', dim)
    C = Ctx(R, '%s:%d:adapt' % (eq, dim), m.f)
    tr, n = m.tr, ncomp(m.f)
    U = m.order[0] + '[0]'
    steps = [one(C, tr, k, 'order', k) for k in ('mark_cells_for_coarsening_and_refinement', 'prepare_coarsening_and_refinement', 'prepare_for_coarsening_and_refinement',
                                               'execute_coarsening_and_refinement', 'prepare kernels', 'interpolate')]
    if None in steps:
        return
    at = [tr.at(e) for e in steps]
    C.ok('order', at == sorted(at), 'order', lambda: steps)
    tria = 'tl.discretization_.triangulation_'
    C.ok('one mesh', plain(path(steps[0].value[1])) == tria and plain(path(steps[1].value[0])) == tria and plain(path(steps[3].value[0])) == tria and
         plain(path(steps[0].value[0])) == 'tl.mesh_adaptor_', 'order', lambda: steps)
    a, b = (plain(path(x.value[0])) for x in (steps[2], steps[5]))
    C.ok('one transfer', a == b and 'od.dof_handler_' in a, 'order', lambda: (a, b))
    places = stored(C, tr, steps[2], U, n, 'od')
    restored(C, tr, steps[5], U, n, 'od1', places)


def output(R, P, eq, dim):
    o = Part(P, 'output', dim)
    C = Ctx(R, '%s:%d:output' % (eq, dim), o.f)
    tr = o.tr
    state, name_, t, cycle, flag = (o.order + [None] * 5)[:5]
    w = tr.calls('write_checkpoint')
    g = T.boolsym('tl.enable_checkpointing_') if False else None
    C.ok('one', len(w) == 1 and not w[0].loops, 'source', lambda: w)
    if len(w) != 1:
        return
    v = w[0].value
    C.ok('what', path(v[1]) == state and plain(path(v[2])) == 'tl.base_name_' and (v[3] - S(t)).is_zero() and (v[4] - S(cycle)).is_zero(), 'source', lambda: v)
    atoms = {pretty(T.atom_value(a)): a for a in w[0].guard.atoms()}
    want = {'[op%%(%s, tl.timer_checkpoint_multiplier_) == 0]' % cycle, 'tl.enable_checkpointing_', flag}
    prod = ONE
    for a in atoms.values():
        prod = prod * T.atom_value(a)
    C.ok('when', set(atoms) == want and (w[0].guard - prod).is_zero(), 'source', lambda: show(w[0].guard))
    p = tr.calls('prepare_state_vector')
    good = [e for e in p if path(e.value[1]) == state and (e.value[2] - S(t)).is_zero() and (w[0].guard * (ONE - e.guard)).is_zero() and tr.at(e) < tr.at(w[0])]
    C.ok('prepared', good, 'source', lambda: p)


MODULES = ('HyperbolicModule', 'ParabolicModule', 'TimeIntegrator', 'MeshAdaptor', 'Postprocessor', 'VTUOutput', 'Quantities')


def main(R, P, eq, dim):
    m = Part(P, 'run', dim)
    C = Ctx(R, '%s:%d:run' % (eq, dim), m.f)
    tr = m.tr
    res = T.boolsym('tl.resume_')
    rd = tr.calls('read_checkpoint')
    C.ok('resume', len(rd) == 1 and (rd[0].guard - res).is_zero() and not rd[0].loops and plain(path(rd[0].value[2])) == 'tl.base_name_', 'restart', lambda: rd)
    fresh = [e for e in tr.events if e.kind == 'call' and e.arr in ('=', 'operator=') and 'interpolate_hyperbolic_vector' in str(path(e.value[1]))]
    loops = [L for L in tr.loops if L.parent is None and any(k.endswith('timer_cycle') for k in L.carried)]
    if len(rd) != 1 or not C.ok('main loop', len(loops) == 1, 'restart', lambda: tr.loops):
        return
    L = loops[0]
    state = plain(path(rd[0].value[1]))
    init = [e for e in fresh if e.loops == () and plain(path(e.value[0])) == state + '[0]']
    good = len(init) == 1 and (init[0].guard - (ONE - res)).is_zero()
    ip = [e for e in tr.calls('interpolate_hyperbolic_vector') if not e.loops]
    C.ok('initial values', good and len(ip) == 1 and ip[0].value[1].is_zero() and plain(path(ip[0].value[0])) == 'tl.initial_values_', 'restart', lambda: (fresh, ip))
    rs = [e for e in tr.calls('reinit_state_vector') if plain(path(e.value[1])) == state]
    C.ok('sized', good and len(rs) == 1 and (rs[0].guard - (ONE - res)).is_zero() and tr.at(rs[0]) < tr.at(init[0]), 'restart', lambda: rs)
    dp = [e for e in tr.calls('prepare') if 'iscretization' in (e.node.get('cls') or '')]
    C.ok('mesh', len(dp) == 1 and (dp[0].guard - (ONE - res)).is_zero(), 'restart', lambda: dp)
    # time and cycle at the start
    st = [e for e in tr.calls('step') if e.loops]
    tm = [e.value[2] for e in st][0] if st else None
    zero = T.boolsym('tl.resume_at_time_zero_')
    for k, pick in ((3, lambda v: tm is not None and isinstance(v[1], Value) and (v[1] - tm).is_zero()), (4, lambda v: False)):
        c = [(nm, v) for nm, v in L.carried.items() if (pick(v) if k == 3 else nm.endswith('timer_cycle'))]
        want = res * (ONE - zero) * T.app('result', 'read_checkpoint', k - 1)
        C.ok('start:%d' % k, len(c) == 1 and (c[0][1][0] - want).is_zero(), 'restart', lambda: (c, show(want)))
    # data structures
    kern = [e for e in tr.events if e.kind == 'call' and e.arr == 'prepare' and any(x in (e.node.get('cls') or '') for x in MODULES)]
    off = [e for e in tr.calls('setup') if plain(path(e.value[0])) == 'od' and not e.loops]
    C.ok('offline', len(off) == 1 and dp and tr.at(dp[0]) < tr.at(off[0]) and (off[0].guard - (ONE - res)).is_zero(), 'kernels', lambda: off)
    for x in MODULES:
        k = [e for e in kern if ('ryujin::' + x + '<') in e.node['cls']]
        C.ok('prepare:' + x, len(k) == 1 and off and (k[0].guard - (ONE - res)).is_zero() and tr.at(off[0]) < tr.at(k[0]) < (tr.at(init[0]) if good else 0), 'kernels', lambda: k)
    # adaptation
    ad = tr.calls('adapt_mesh_and_transfer_state_vector')
    C.ok('adapt', len(ad) == 1 and ad[0].loops == (L,) and plain(path(ad[0].value[1])) == state, 'kernels', lambda: ad)
    if len(ad) == 1:
        C.ok('same preparation', pretty(ad[0].value[2]) == pretty(rd[0].value[5]), 'kernels', lambda: (ad, rd))
        ps = [e for e in tr.calls('prepare_state_vector') if plain(path(e.value[1])) == state and e.loops == (L,) and tr.at(e) < tr.at(ad[0]) and
              (ad[0].guard * (ONE - e.guard)).is_zero() and tm is not None and (e.value[2] - tm).is_zero()]
        C.ok('prepared before', ps, 'kernels', lambda: tr.calls('prepare_state_vector'))
    # what may be checkpointed
    outs = tr.calls('output')
    sol = [e for e in outs if not (isinstance(e.value[5], Value) and e.value[5].is_zero())]
    cyc = [v[1] for nm, v in L.carried.items() if nm.endswith('timer_cycle')]
    C.ok('solution', len(sol) == 1 and plain(path(sol[0].value[1])) == state and sol[0].value[5] == ONE and tm is not None and (sol[0].value[3] - tm).is_zero() and
         cyc and (sol[0].value[4] - cyc[0]).is_zero(), 'source', lambda: outs)


def check(R, item):
    tu, eq = item
    P = export.programs([tu])[tu]
    for dim in (2, 3):
        checkpoint(R, P, eq, dim)
        adaptation(R, P, eq, dim)
        output(R, P, eq, dim)
        main(R, P, eq, dim)


def run(R):
    for r in RULES.values():
        R.rule(r + '.')
    eqs = EQ if R.tier == 'thorough' else EQ[:2]
    R.each([('%s:time_loop.cc' % e, e) for e in eqs], check)
    R.floor('obligations', 200)
