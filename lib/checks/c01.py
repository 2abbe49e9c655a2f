"""C01: ghost values are up to date where a neighbour is read"""
from scheme import *
from prep import prepares

STATIC = ('this.offline_data_.', 'this.initial_precomputed_')
START, FINISH, BOTH = ('update_ghost_values_start', 'update_ghost_rows_start'), ('update_ghost_values_finish', 'update_ghost_rows_finish'), \
    ('update_ghost_values', 'update_ghost_rows')


def order(sig):
    """restricts comparisons of i and j to one of i<j, i=j, i>j"""
    d = I - J
    t = {'<': (0, 1, 0), '=': (0, 0, 1), '>': (1, 0, 0)}[sig]

    def fn(x, args):
        if x.name not in ('gt0', 'ge0', 'eq0') or len(x.args) != 1:
            return None
        a = args[0] if isinstance(args[0], Value) else T.lift(args[0])
        if x.name == 'gt0':
            if a == d:
                return T.const(t[0])
            if a == -d:
                return T.const(t[1])
        if x.name == 'ge0':
            if a == d:
                return T.const(t[0] or t[2])
            if a == -d:
                return T.const(t[1] or t[2])
        if x.name == 'eq0' and (a == d or a == -d):
            return T.const(t[2])
        return None
    return fn


def under(v, sig):
    return T.rewrite(v, order(sig))


def needs_ghost(s, a, p):
    """reads rows of other processes"""
    if a.mode != 'read':
        return False
    g = s.n(a.guard)
    if 'transposed' in a.how:
        return not under(g, '<').is_zero()      # entry (j, i) with j > i may be a ghost row
    if a.kind == 'nb':
        return not s.n(a.row) == I and not (under(g, '<').is_zero())
    return not own_row(s, a, p)


def own_row(s, a, p):
    """the row is the index of the work-shared loop (possibly shifted), or the first index of a coupling pair"""
    r = s.n(a.row)
    for x in r.atoms():
        if x.kind == 'sym' and x.name == 'i' and not any(y == x for y in (r - T.atom_value(x)).atoms()):
            return True
    return pair_row(r) == 0


PAIRS = 'this.offline_data_.coupling_boundary_pairs_'


def pair_row(r):
    """component of a coupling pair of the work-shared loop that a row denotes"""
    if len(r.t) == 1 and r.atoms():
        x = next(iter(r.atoms()))
        m = re.match(re.escape(PAIRS) + r'\[.*\]\[(\d)\]$', pretty(r))
        if m:
            return int(m.group(1))
    return None


def changed(a):
    """components a write changes: a component that is written back as it was read is not"""
    v = flat(a.value) if a.value is not None else []
    if not isinstance(a.value, Arr):
        v = [a.value]
    r = set()
    for k, x in enumerate(v):
        y = next(iter(x.atoms()), None) if isinstance(x, Value) and len(x.t) == 1 else None
        t = table(y) if y is not None and x == T.atom_value(y) else None
        if not (t and t[0] == a.array and not t[2] and y.args[0] == a.row and t[3] == ('[%d]' % k if isinstance(a.value, Arr) else '')):
            r.add(k if isinstance(a.value, Arr) else '')
    return r


def used(p, a):
    """components of a read that enter what the phase computes"""
    if not isinstance(a.value, Arr):
        return {''}
    names = {}
    for k, x in enumerate(flat(a.value)):
        y = next(iter(x.atoms()), None)
        if y is None or x != T.atom_value(y):
            return set(range(len(flat(a.value))))
        names[y] = k
    r = set()
    vals = []
    for q in p.accesses:
        if q.mode == 'write':
            vals += [x for x in flat(q.value)] if isinstance(q.value, Arr) else [q.value]
        vals.append(q.guard)
    for c in p.calls:
        for x in c.args:
            vals += [y for y in flat(x)] if isinstance(x, Arr) else [x]
    for v in vals:
        if isinstance(v, Value):
            for y in v.deep_atoms():
                if y in names:
                    r.add(names[y])
    return r


def analyse(R, s, synced, what):
    """walks the log; synced: tables whose ghosts are valid at the start"""
    f = s.f
    stale = {}                       # array -> components that changed since the last exchange
    known = set(synced)
    started = {}
    inside = None
    for e in s.st.events:
        if isinstance(e, Mark):
            if e.kind == 'phase':
                inside = e.phase
                for a in inside.reads():
                    if not needs_ghost(s, a, inside):
                        continue
                    R.count('neighbour reads')
                    if a.array.startswith(STATIC):
                        continue
                    good = a.array in known and a.array not in started
                    if good and stale.get(a.array):
                        good = not (stale[a.array] & used(inside, a))
                    R.ok('%s:read:%s:%d' % (s.tag, short(a.array), inside.n), good,
                         f, 'a neighbour is read only after its ghost values have been exchanged since the last change',
                         '%s read in the loop at line %s without exchange' % (a.array, a.line))
                for a in inside.writes():
                    if a.array in started:
                        R.ok('%s:write:%s:%d' % (s.tag, short(a.array), inside.n), False, f, 'a table is not changed while its exchange is in flight', a.array)
                    stale.setdefault(a.array, set()).update(changed(a))
            elif e.kind == 'endphase':
                inside = None
            elif e.kind == 'sync':
                R.count('exchanges')
                good = e.guard == ONE and not e.loops and not e.parallel
                R.ok('%s:sync:%s:%s' % (s.tag, short(e.array), e.line), good, f, 'an exchange is executed unconditionally, outside of parallel regions',
                     lambda: 'line %s: %s' % (e.line, clip(e.guard)))
                if e.name in START:
                    started[e.array] = True
                    continue
                if e.name in FINISH:
                    R.ok('%s:finish:%s:%s' % (s.tag, short(e.array), e.line), e.array in started, f, 'an exchange is started before it is finished', e.array)
                    started.pop(e.array, None)
                known.add(e.array)
                stale.pop(e.array, None)
        elif isinstance(e, Access) and e.mode == 'write' and e.phase is None and inside is None:
            stale.setdefault(e.array, set()).update(changed(e))
    for a in started:
        R.ok('%s:open:%s' % (s.tag, short(a)), False, f, 'every exchange that is started is finished', a)
    return {a: not stale.get(a) for a in known}


def channels(R, s):
    tags = {}
    for e in s.marks('sync'):
        if e.name in START and e.args:
            k = pretty(e.args[0])
            R.count('message tags')
            R.ok('%s:tag:%s:%s' % (s.tag, k, e.line), k not in tags or tags[k] == e.array, s.f, 'exchanges of one step use different message tags', '%s used for %s and %s' % (k, tags.get(k), e.array))
            tags[k] = e.array


def step(R, cfg):
    s, u = build(cfg)
    R.count('configurations')
    stages = cfg[2]
    pre = ['old_state_vector<%d>' % k for k in (0, 1)] + ['stage_state_vectors[%d][%d]' % (k, c) for k in range(stages) for c in (0, 1)]
    analyse(R, s, pre, 'step')
    channels(R, s)


def prepare(R, cfg):
    for s in prepares(*cfg):
        R.count('configurations')
        valid = analyse(R, s, [], 'prepare')
        R.ok(s.tag + ':U', valid.get('state_vector<0>', False), s.f, 'a prepared state has valid ghost values', '')
        if any(a.array == 'state_vector<1>' for p in s.phases for a in p.writes()):
            R.ok(s.tag + ':precomputed', valid.get('state_vector<1>', False), s.f, 'the precomputed values of a prepared state have valid ghost values', '')
        channels(R, s)


def run(R):
    preload()
    R.rule('A forward must-analysis over the phases of the update: a table changed by a phase becomes stale for other processes until an exchange of it has finished; '
           'reads of a neighbour or of a transposed entry that may lie on another process need a fresh table.')
    R.assume('matrices and vectors assembled once have valid ghost rows (D04); the first index of a coupling pair is an owned row (D04); the transposed entry of a neighbour with a smaller index than an owned row is owned')
    cfgs = configs(R.tier)
    R.each([('step',) + c for c in cfgs] + [('prepare', eq, d) for eq, _ in EQS for d in (1, 2, 3)],
           lambda r, c: step(r, c[1:]) if c[0] == 'step' else prepare(r, c[1:]))
    R.floor('neighbour reads', 300)
    R.floor('exchanges', 200)
