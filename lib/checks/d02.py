"""D02: addressing of multicomponent vectors, scalar vectors and lanes"""
from memory import *
from checks.d01 import cellv, path, events, simple, counted, appargs, listed
import export

TU, PART = 'probe:vectors', ':multicomponent_vector.cc'
RULES = {
    'read': 'reading returns, for every component and lane, the value stored for that degree of freedom and component',
    'write': 'writing stores every component and lane exactly once, at the place it is read from',
    'add': 'adding adds to the value stored before, exactly once per component and lane',
    'component': 'extracting and inserting a component moves the values of all locally owned degrees of freedom',
    'ghosts': 'an extracted component has up to date ghost values',
    'partition': 'the partition of a vector of several components holds all components of the owned and ghost entries of the scalar partition',
    'lane': 'a lane of a tensor is moved to or from the same entry of the serial tensor',
    'state': 'the blocks of a state vector have the partition of their numbers of components',
}
S = T.sym
KINDS = {'dealii::VectorizedArray': True}


def flat(v):
    if isinstance(v, Arr):
        return [x for y in v.e for x in flat(y)]
    return [v]


class Ctx:
    def __init__(self, R, P):
        self.R, self.P = R, P

    def ok(self, key, cond, f, rule, detail=''):
        self.R.count('obligations')
        self.R.ok('D02:' + key, cond, f, RULES[rule], detail)


def argument(I, p, name):
    t = strip_type(p['t']).replace('const ', '').rstrip(' &')
    if '*' in p['t']:
        return T.sym('P:' + p['n'])
    if is_scalar_type(t) or 'Tensor' in t or 'VectorizedArray' in split_targs(t)[0]:
        return I.symbolic(t, p['n'])
    return Opaque(p['n'], t)


def execute(P, f, given=None):
    mem = Memory(P)
    a = [given.get(p['n']) if given and p['n'] in given else argument(mem.I, p, p['n']) for p in f['params']]
    r = mem.M.run(f, a)
    return mem, a, r


def stored(C, key, f, mem, arr, want, rule):
    """exactly the given (index, value) pairs are written, each once, nothing else"""
    w = [(e.arr, e.idx.fp, e.value.fp if isinstance(e.value, Value) else None) for e in events(mem, 'write')]
    free = all(e.guard == ONE and not e.loops for e in events(mem, 'write'))
    C.ok(key, free and sorted(w, key=str) == sorted([(arr, i.fp, v.fp) for i, v in want], key=str), f, rule,
         lambda: 'writes %s' % [(e.arr, show(e.idx), show(e.value)) for e in events(mem, 'write')][:8])


def accessors(C, cls, arr, n, W):
    P = C.P
    i = S('i')
    js = lambda mem, k: cellv(mem, 'js', T.const(k), 'unsigned int')
    have = {f['q'].split('::')[-1]: f for f in P.find(r'probe::%s::\w+' % cls)}
    C.R.count('accessors', len(have))
    for name, f in sorted(have.items()):
        base = name.lstrip('a') if name.startswith('a') and name not in ('add', 'add_v', 'asg', 'asg2') else name
        key = '%s:%s' % (cls, name)
        lanes = W if base.split('_')[-1] in ('v', 'fv') else 1
        kind = base.split('_')[0]
        if kind not in ('get', 'put', 'add'):
            continue
        mem, a, r = execute(P, f)
        row = (lambda k: js(mem, k)) if 'js' in base else (lambda k: i + k)
        at = [n * row(k) + d for d in range(n) for k in range(lanes)]
        if kind == 'get':
            got = flat(r)
            want = [cellv(mem, arr, x, 'double') for x in at]
            C.ok(key, [x.fp for x in got] == [x.fp for x in want] and not events(mem, 'write'), f, 'read',
                 lambda: 'returns %s, stored at %s' % (show(got), show(want)))
        else:
            x = flat(a[1])
            assert len(x) == len(at), key
            if kind == 'add':
                m2 = Memory(P)
                x = [y + cellv(m2, arr, z, 'double') for y, z in zip(x, at)]
            stored(C, key, f, mem, arr, list(zip(at, x)), 'add' if kind == 'add' else 'write')


def components(C, n, W):
    P = C.P
    for name in ('extract', 'insert'):
        f = P.one(r'probe::Vec<%d, %d>::%s' % (n, W, name))
        mem, a, r = execute(P, f)
        w = events(mem, 'write')
        key = 'Vec<%d, %d>:%s' % (n, W, name)
        good = len(w) == 1 and len(w[0].loops) == 1
        if good:
            e, L = w[0], w[0].loops[0]
            i = None
            for part in ('s.get_partitioner()', 's', 'm.scalar_partitioner'):
                i = i or counted(L, mem, ZERO, T.app('locally_owned_size', part), ONE)
            for part in ('s', ):
                i = i or counted(L, mem, ZERO, T.app('local_size', part), ONE)
            good = i is not None and (e.guard - L.cond).is_zero()
            C.ok(key + ':all entries', good, f, 'component', lambda: (L, e))
            if good:
                c = S('c')
                close = Closed(mem)
                i = close(i)
                src, dst = ('m', n * i + c), ('s', i)
                if name == 'insert':
                    src, dst = dst, src
                C.ok(key + ':place', e.arr == dst[0] and (close(e.idx) - dst[1]).is_zero(), f, 'component', lambda: e)
                C.ok(key + ':value', isinstance(e.value, Value) and (close(e.value) - cellv(Memory(P), src[0], src[1], 'double')).is_zero(), f, 'component', lambda: e)
        else:
            C.ok(key + ':one write', False, f, 'component', lambda: w)
        if name == 'extract':
            g = [e for e in mem.events if e.kind == 'call' and e.arr == 'update_ghost_values' and path(e.value[0]) == 's']
            last = max([k for k, e in enumerate(mem.events) if e.kind == 'write'], default=-1)
            C.ok(key + ':ghosts', any(e.guard == ONE and not e.loops and mem.events.index(e) > last for e in g), f, 'ghosts', lambda: g)
    f = P.one(r'probe::Vec<%d, %d>::reinit' % (n, W))
    mem, a, r = execute(P, f)
    e = [e for e in mem.events if e.kind == 'call' and e.arr == 'reinit']
    good = len(e) == 1 and e[0].guard == ONE and path(e[0].value[0]) == 'm' and \
        isinstance(e[0].value[1], Opaque) and e[0].value[1].path == 'create_vector_partitioner(p, %d)' % n
    C.ok('Vec<%d, %d>:reinit' % (n, W), good, f, 'partition', lambda: e)


def lane(C, W):
    P = C.P
    for k in sorted({0, W // 2, W - 1}):
        for name in ('ser', 'ser2', 'asg', 'asg2'):
            f = P.one(r'probe::Entry<%d>::%s' % (W, name))
            mem = Memory(P)
            I = mem.I
            a = [T.const(k) if p['n'] == 'k' else argument(I, p, p['n']) for p in f['params']]
            x = a[0]
            whole = list(x.e) if W > 1 or True else x
            pick = lambda v: [y.e[k] if isinstance(y, Arr) else y for y in leaves(v, W)]
            key = 'Entry<%d>:%s:lane %d' % (W, name, k)
            if name.startswith('ser'):
                r = mem.M.run(f, a)
                C.ok(key, [y.fp for y in flat(r)] == [y.fp for y in pick(x)], f, 'lane', lambda: show(r))
            else:
                roots = [I.new_root(v) for v in a[:2]]
                mem.M.run(f, [Ref(r) for r in roots] + a[2:], keep=True)
                r = I.read(roots[0], '')
                old, y = leaves(x, W), flat(a[1])
                want = []
                for o, z in zip(old, y):
                    o = list(o.e) if isinstance(o, Arr) else [o]
                    o[k] = z
                    want += o
                C.ok(key, [y.fp for y in flat(r)] == [z.fp for z in want], f, 'lane', lambda: show(flat(r)))


def leaves(v, W):
    """entries of a tensor, one batch each"""
    if isinstance(v, Arr) and not (W > 1 and len(v.e) == W and all(isinstance(x, Value) for x in v.e) and 'VectorizedArray' in (v.t or '')):
        return [x for y in v.e for x in leaves(y, W)]
    return [v]


def partition(R, P):
    C = Ctx(R, P)
    f = P.one('ryujin::Vectors::create_vector_partitioner')
    mem = Memory(P)
    mem.tagged = {'dealii::IndexSet'}
    r = mem.M.run(f, [Opaque('p', 'std::shared_ptr<const dealii::Utilities::MPI::Partitioner>'), S('n')])
    adds = [e for e in mem.events if e.kind == 'call' and e.arr == 'add_range']
    found = {}
    for e in adds:
        key = 'partition:'
        if len(e.loops) != 1:
            continue
        L = e.loops[0]
        for src in ('p.locally_owned_range()', 'p.ghost_indices()'):
            its = [nm for nm, c in L.carried.items() if path(c[0]) == src + '.begin_intervals()']
            if len(its) != 1:
                continue
            init, head, end, after = L.carried[its[0]]
            h = path(head)
            stop = pretty(L.cond) in ('1 - same(%s, %s.end_intervals())' % (h, src), '1 - same(%s.end_intervals(), %s)' % (src, h))
            n = S('n')
            lo, hi = e.value[1], e.value[2]
            first = n * T.app('at', h + '.begin()')
            good = stop and path(end) == 'next(%s)' % h and not any(not g.is_zero() for g in L.breaks) and (e.guard - L.cond).is_zero()
            C.ok('partition:%s:all intervals' % src, good, f, 'partition', lambda: (L, e))
            C.ok('partition:%s:range' % src, isinstance(lo, Value) and (lo - first).is_zero() and isinstance(hi, Value) and
                 (hi - n * (T.app('last', h) + 1)).is_zero(), f, 'partition', lambda: (lo, hi))
            found.setdefault(src, []).append(e)
    C.ok('partition:owned and ghosts', sorted(found) == ['p.ghost_indices()', 'p.locally_owned_range()'] and all(len(x) == 1 for x in found.values())
         and len(adds) == 2, f, 'partition', lambda: adds)
    mk = [e for e in mem.events if e.kind == 'call' and e.arr in ('make_shared', 'Partitioner', 'reset')]
    C.ok('partition:one', len(mk) == 1 and mk[0].guard == ONE and path(r) is not None, f, 'partition', lambda: mk)
    if len(mk) == 1 and len(found) == 2:
        a = [x for x in mk[0].value if x is not None]
        size = 'dealii::IndexSet(n*size(p))'
        C.ok('partition:sets', [path(x) for x in a[:2]] == [path(found['p.locally_owned_range()'][0].value[0]), path(found['p.ghost_indices()'][0].value[0])] and
             path(a[2]) == 'p.get_mpi_communicator()', f, 'partition', lambda: a)
        C.ok('partition:size', all(path(x).split('@')[0].split('#')[0] == size for x in a[:2]), f, 'partition', lambda: a)
    R.count('partitions')


def state(R, eq, P):
    C = Ctx(R, P)
    for f in P.find('ryujin::Vectors::reinit_state_vector'):
        mem = Memory(P)
        t = strip_type(f['params'][0]['t']).rstrip(' &')
        mem.M.run(f, [Opaque('s', t), Opaque('od', strip_type(f['params'][1]['t']).replace('const ', '').rstrip(' &'))])
        dim = re.search(r'OfflineData<(\d)', f['params'][1]['t']).group(1)
        calls = [(path(e.value[0]), path(e.value[1])) for e in mem.events if e.kind == 'call' and e.arr == 'reinit' and e.guard == ONE]
        for k, part in enumerate(('hyperbolic', 'precomputed')):
            C.ok('%s:dim %s:block %d' % (eq, dim, k), [x for x in calls if x[0] == 's[%d]' % k] == [('s[%d]' % k, 'od.%s_vector_partitioner()' % part)] or
                 [x for x in calls if x[0] == 's[%d]' % k] == [('s[%d]' % k, 'od.%s_vector_partitioner_' % part)], f, 'state', lambda: calls)
        R.count('state vectors')


def run(R):
    for r in RULES.values():
        R.rule(r + '.')
    eqs = ['euler', 'shallow_water'] if R.tier == 'quick' else ['euler', 'euler_aeos', 'navier_stokes', 'scalar_conservation', 'shallow_water', 'skeleton']
    Ps = export.programs([TU, PART] + [e + ':time_integrator.cc' for e in eqs])
    C = Ctx(R, Ps[TU])
    for W in (1, 4):
        for n in (1, 2, 3, 5):
            accessors(C, 'Vec<%d, %d>' % (n, W), 'm', n, W)
            components(C, n, W)
        accessors(C, 'Entry<%d>' % W, 's', 1, W)
        lane(C, W)
    partition(R, Ps[PART])
    for e in eqs:
        state(R, e, Ps[e + ':time_integrator.cc'])
    R.floor('obligations', 150)
    R.floor('accessors', 80)
    R.floor('state vectors', 3)
