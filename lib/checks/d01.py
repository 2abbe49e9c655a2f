"""D01: layout, transposition and exchange of the sparse matrices"""
from memory import *
import export

TU = 'probe:layout'
RULES = {
    'address': 'an entry has one address, for scalar and vectorised access, for reading and writing; different entries have different addresses',
    'transposed': 'the transposed entry is read where the entry with row and column exchanged is stored',
    'pattern': 'the stored columns of a row are the columns of the row, in the order of the positions',
    'lists': 'the exchange lists name, rank by rank, the rows and columns the other side stores as ghost rows',
    'exchange': 'the exchange moves every listed entry, all components, into the ghost rows, and completes',
    'init': 'initialising a pattern or matrix replaces everything a former initialisation left',
    'copy': 'reading in a matrix stores, for every row and column of the pattern, the value of that row and column',
}
S = T.sym


def opq(n, t):
    return Opaque(n, strip_type(t).rstrip(' &').replace('const ', ''))


class Layout:
    def __init__(self, P, n, W):
        self.P, self.n, self.W = P, n, W
        self.tag = '%d components, %d lanes' % (n, W)

    def fn(self, name):
        return self.P.one(r'probe::Matrix<%d, %d>::%s' % (self.n, self.W, name))

    def method(self, name, pred=None):
        return self.P.one(r'ryujin::SparseMatrixSIMD<double, %d, %d>::%s' % (self.n, self.W, name), pred)

    def pattern(self, name):
        return self.P.one(r'ryujin::SparsityPatternSIMD<%d>::%s' % (self.W, name))


# -- the reference layout -------------------------------------------------------------
def cellv(mem, arr, idx, t='unsigned long'):
    lv = mem.cell(arr, T.lift(idx), t)
    return mem.I.read(lv, t)


def rowsin(mem, row, W, sp='m.sparsity'):
    return cellv(mem, sp + '.row_starts', div(row, W))


def place(mem, L, row, pos, d, inside, k=None, sp='m.sparsity'):
    n, W = L.n, L.W
    if inside:
        return n * rowsin(mem, row, W, sp) + n * W * pos + W * d + (mod(row, W) if k is None else k)
    return n * cellv(mem, sp + '.row_starts', row) + n * pos + d


def column(mem, L, row, pos, inside, sp='m.sparsity'):
    if inside:
        return rowsin(mem, row, L.W, sp) + L.W * pos + mod(row, L.W)
    return cellv(mem, sp + '.row_starts', row) + pos


class Regime:
    """a row inside or outside of the vectorised range"""

    def __init__(self, mem, row, inside, cols=None, N=None):
        N = S('m.sparsity.n_internal_dofs') if N is None else N
        self.facts = [N - row if inside else row - N]
        self.row, self.inside = row, inside


def cases(L):
    """(label, row, named value of the number of vectorised rows, inside)"""
    W, q, r = L.W, S('q'), T.sym('r', pos=True)
    out = []
    for k in sorted({0, W // 2, W - 1}):
        row = W * q + k
        out.append(('lane %d' % k, row, row + r, True, k))
        if k == W - 1:
            out.append(('last vectorised row', row, row + 1, True, k))
    out.append(('first scalar row', S('N'), S('N'), False, 0))
    out.append(('scalar row', S('N') + r, S('N'), False, 0))
    return out


def fresh(L, N):
    mem = Memory(L.P)
    mem.I.naming = {S('m.sparsity.n_internal_dofs').fp: N}
    return mem


def listed(r):
    return list(r.e) if isinstance(r, Arr) else [r]


def accessors(R, L):
    n, W = L.n, L.W

    def ok(key, cond, f, rule, detail=''):
        R.count('accessor obligations')
        R.ok('D01:%s:%s' % (L.tag, key), cond, f, RULES[rule], detail)

    pos = S('pos')
    for label, row, N, inside, k in cases(L):
        # reading
        for name in ('get', 'get_t'):
            mem = fresh(L, N)
            f = L.fn(name)
            r = listed(mem.M.run(f, [Opaque('m', L.mt), row, pos]))
            want = [cellv(mem, 'm.data', place(mem, L, row, pos, d, inside), 'double') for d in range(n)]
            ok('%s:%s' % (name, label), [x.fp for x in r] == [x.fp for x in want], f, 'address', lambda: 'reads %s, stored at %s' % (show(r), show(want)))
        mem = fresh(L, N)
        f = L.fn('put_t')
        x = Arr([S('x%d' % d) for d in range(n)], 'dealii::Tensor<1, %d, double>' % n)
        mem.M.run(f, [Opaque('m', L.mt), x, row, pos, T.ZERO])
        w = [(e.arr, e.idx.fp, e.value.fp) for e in mem.events if e.kind == 'write' and e.guard != ZERO]
        want = [('m.data', place(mem, L, row, pos, d, inside).fp, x.e[d].fp) for d in range(n)]
        ok('put_t:%s' % label, sorted(w) == sorted(want), f, 'address', lambda: 'writes %s' % [e for e in mem.events if e.kind == 'write'])
        if n == 1:
            mem = fresh(L, N)
            f = L.one('put_one', 'double')
            mem.M.run(f, [Opaque('m', L.mt), S('x0'), row, pos])
            w = [(e.arr, e.idx.fp, e.value.fp) for e in mem.events if e.kind == 'write' and e.guard != ZERO]
            ok('put_one:%s' % label, w == [('m.data', place(mem, L, row, pos, 0, inside).fp, S('x0').fp)], f, 'address', lambda: show([e.idx for e in mem.events if e.idx is not None]))
        # columns of the row
        mem = fresh(L, N)
        f = L.pattern('columns')
        mem.I.naming = {S('sp.n_internal_dofs').fp: N}
        r = mem.M.run(f, [row], Opaque('sp', 'ryujin::SparsityPatternSIMD<%d>' % W))
        st = mem.M.run(L.pattern('stride_of_row'), [row], Opaque('sp', 'ryujin::SparsityPatternSIMD<%d>' % W))
        p = mem.pointer(r)
        ok('columns:%s' % label, p is not None and p[0] == 'sp.column_indices' and
           (p[1] + st * pos - column(mem, L, row, pos, inside, 'sp')).is_zero(), f, 'address', lambda: '%s, stride %s' % (show(r), show(st)))
        f = L.pattern('row_length')
        r = mem.M.run(f, [row], Opaque('sp', 'ryujin::SparsityPatternSIMD<%d>' % W))
        if inside:
            a, b = (cellv(mem, 'sp.row_starts', div(row, W) + x) for x in (1, 0))
            good = (r - (div(a - b, W) if W > 1 else a - b)).is_zero()
        else:
            good = (r - cellv(mem, 'sp.row_starts', row + 1) + cellv(mem, 'sp.row_starts', row)).is_zero()
        ok('row_length:%s' % label, good, f, 'address', lambda: show(r))
        # transposed: with the column inside or outside
        for name in ('tr', 'tr_t'):
            f = L.fn(name)
            for clabel, cin in (('vectorised column', True), ('first scalar column', None), ('scalar column', False)):
                mem = fresh(L, N)
                at = column(mem, L, row, pos, inside)
                col = cellv(mem, 'm.sparsity.column_indices', at, 'unsigned int')
                # the index and the column as named quantities
                c = N - T.sym('c', pos=True) if cin else N if cin is None else N + T.sym('c', pos=True)
                mem.I.write(mem.cell('m.sparsity.column_indices', at, 'unsigned int'), c)
                B, K = S('B'), (W - 1 if cin else 0)
                idx = W * B + K if cin else S('index')
                mem.I.write(mem.cell('m.sparsity.indices_transposed', at, 'unsigned int'), idx)
                r = listed(mem.M.run(f, [Opaque('m', L.mt), row, pos], keep=True))
                want = [cellv(mem, 'm.data', n * W * B + W * d + K if cin else n * idx + d, 'double') for d in range(n)]
                ok('%s:%s:%s' % (name, label, clabel), [x.fp for x in r] == [x.fp for x in want], f, 'transposed', lambda: 'reads %s, stored at %s' % (show(r), show(want)))
    # whole registers
    row = W * S('q')
    N = row + W * T.sym('r', pos=True)
    lanes = lambda d: [n * rowsin(mem, row, W) + n * W * pos + W * d + k for k in range(W)]
    flatten = lambda r: [x for y in listed(r) for x in listed(y)]
    for name in ('get_v', 'get_ve'):
        mem = fresh(L, N)
        f = L.fn(name)
        r = mem.M.run(f, [Opaque('m', L.mt), row, pos])
        want = [cellv(mem, 'm.data', x, 'double') for d in range(n) for x in lanes(d)]
        ok(name, [x.fp for x in flatten(r)] == [x.fp for x in want], f, 'address', lambda: show(r))
    puts = [(L.fn('put_v'), True, s) for s in (ZERO, ONE)]
    if n == 1:
        puts += [(L.one('put_one_v', 'dealii::VectorizedArray'), False, s) for s in (ZERO, ONE)]
    for f, many, stream in puts:
        mem = fresh(L, N)
        x = mem.I.symbolic(strip_type(f['params'][1]['t']).replace('const ', '').rstrip(' &'), 'x')
        mem.M.run(f, [Opaque('m', L.mt), x, row, pos, stream])
        w = [(e.arr, e.idx.fp, e.value.fp) for e in mem.events if e.kind == 'write' and e.guard != ZERO]
        xs = [y for z in (listed(x) if many else [x]) for y in listed(z)]
        want = [('m.data', i.fp, y.fp) for i, y in zip([i for d in range(n) for i in lanes(d)], xs)]
        ok('%s:%s' % (f['q'].split('::')[-1], show(stream)), sorted(w) == sorted(want), f, 'address', lambda: show([e.idx for e in mem.events if e.idx is not None]))
    if n == 1:
        mem = fresh(L, N)
        f = L.fn('tr_v')
        r = mem.M.run(f, [Opaque('m', L.mt), row, pos])
        want = [cellv(mem, 'm.data', cellv(mem, 'm.sparsity.indices_transposed', rowsin(mem, row, W) + W * pos + k, 'unsigned int'), 'double') for k in range(W)]
        ok('tr_v', [x.fp for x in flatten(r)] == [x.fp for x in want], f, 'transposed', lambda: show(r))

# -- the pattern ----------------------------------------------------------------------
def path(v):
    return v.path if isinstance(v, Opaque) else pretty(v) if isinstance(v, Value) else str(v)


def atom(v):
    """the single atom of a value that is one atom"""
    if isinstance(v, Value) and len(v.t) == 1:
        (m, c), = v.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return None


def appargs(v, name):
    a = atom(v)
    return a.args if a is not None and a.name == name else None


def cursor(L, idx, mem):
    """carried index variable of the loop and offset from it"""
    for nm, c in L.carried.items():
        if isinstance(c[1], Value):
            p = mem.pointer(c[1])
            h = p[1] if p else c[1]
            off = idx - h
            if off.is_const():
                return nm, int(off.const())
    return None, None


def offset(mem, v):
    p = mem.pointer(v) if isinstance(v, Value) else None
    return p[1] if p else v


def events(mem, kind, arr=None, field=None):
    return [e for e in mem.events if e.kind == kind and (arr is None or e.arr == arr) and (field is None or e.field == field) and e.guard != ZERO]


def simple(L, mem, nm):
    init, head, end, after = L.carried[nm]
    return offset(mem, init), offset(mem, head), offset(mem, end), offset(mem, after)


def counted(L, mem, lo, hi, step):
    """the loop runs an index from lo below hi with the given step; returns the index"""
    if any(not g.is_zero() for g in L.breaks):
        return None
    for nm in L.carried:
        if not isinstance(L.carried[nm][1], Value):
            continue
        init, head, end, after = simple(L, mem, nm)
        if (init - lo).is_zero() and (end - head - step).is_zero() and (L.cond - T.gt0(hi - head)).is_zero():
            return head
    return None


def pattern(R, P, W):
    f = P.one(r'ryujin::SparsityPatternSIMD<%d>::reinit' % W)
    mem = Memory(P)
    nint = S('nint')
    mem.M.run(f, [nint, Opaque('dsp', 'dealii::DynamicSparsityPattern'),
                  Opaque('part', 'std::shared_ptr<const dealii::Utilities::MPI::Partitioner>')], Opaque('S', 'ryujin::SparsityPatternSIMD<%d>' % W))
    tag = '%d lanes' % W

    def ok(key, cond, rule, detail=''):
        R.count('pattern obligations')
        return R.ok('D01:%s:%s' % (tag, key), bool(cond), f, RULES[rule], detail)

    calls = {}
    for e in events(mem, 'call'):
        calls.setdefault(e.arr, []).append(e)
    owned = None
    for e in calls.get('=', []):
        if path(e.value[0]) == 'S.n_locally_owned_dofs':
            owned = e.value[1]
    # -- the local pattern
    copies = [e for e in calls.get('copy_from', []) if e.guard == ONE]
    if len(copies) != 1:
        raise AnalysisError('the local pattern is not created in one place')
    target, source = copies[0].value[0], copies[0].value[1]
    SP = path(target) + '@1'
    base = path(source).split('@')[0]
    adds = [e for e in calls.get('add', []) if path(e.value[0]).split('@')[0] == base]
    ok('local pattern:two entries', len(adds) == 2 and owned is not None, 'lists', lambda: adds)
    if len(adds) == 2 and owned is not None:
        a, b = adds
        Lo, Li = a.loops[-2:] if len(a.loops) == 2 else (None, None)
        good = Lo is not None
        if good:
            i = counted(Lo, mem, ZERO, owned, ONE)
            good = i is not None and len(Li.carried) >= 1
        ok('local pattern:rows', good, 'lists', lambda: (Lo, Li))
        if good:
            its = [c for c in Li.carried.values() if isinstance(c[1], Opaque)]
            g = 'local_to_global(part, %s)' % pretty(i)
            it = its[0] if its else None
            ok('local pattern:columns', it is not None and path(it[0]) == 'dsp.begin(%s)' % g and path(it[2]) == 'next(%s)' % path(it[1]) and
               not Li.breaks and pretty(Li.cond) == '1 - same(dsp.end(%s), %s)' % (g, path(it[1])), 'lists', lambda: Li)
            j = a.value[2]
            ok('local pattern:entry', (a.value[1] - i).is_zero() and pretty(j) == 'global_to_local(part, column(%s))' % (path(it[1]) if it else ''), 'lists', lambda: a)
            ok('local pattern:guard', (a.guard - Lo.cond * Li.cond).is_zero(), 'lists', lambda: a)
            ok('local pattern:ghost rows', (b.value[1] - j).is_zero() and (b.value[2] - i).is_zero() and
               (b.guard - Lo.cond * Li.cond * T.ge0(j - owned)).is_zero(), 'lists', lambda: b)
    nrows = T.app('n_rows', SP)
    # -- columns and transposed indices
    fills = {}
    for what in ('column_indices', 'indices_transposed'):
        for e in events(mem, 'write', 'S.' + what):
            if len(e.loops) < 2:
                ok('%s:outside of the loops' % what, False, 'pattern', e)
                continue
            fills.setdefault(tuple(e.loops[-2:]), {}).setdefault(what, []).append(e)
    vec = [k for k, v in fills.items() if any(counted(k[0], mem, ZERO, nint, T.const(W)) is not None for _ in (0,))]
    rest = [k for k in fills if k not in vec]
    if W == 1 and len(vec) == 2:
        vec, rest = vec[:1], vec[1:]
    ok('two parts', len(vec) == 1 and len(rest) == 1, 'pattern', lambda: list(fills))
    if not (len(vec) == 1 and len(rest) == 1):
        return
    ends = {}
    for label, key, lanes, lo, hi in (('vectorised rows', vec[0], W, ZERO, nint), ('scalar rows', rest[0], 1, nint, nrows)):
        Lo, Li = key
        row = counted(Lo, mem, lo, hi, T.const(lanes))
        ok('%s:range' % label, row is not None, 'pattern', lambda: Lo)
        if row is None:
            continue
        cols = sorted(fills[key].get('column_indices', []), key=lambda e: cursor(Li, e.idx, mem)[1] or 0)
        ok('%s:one column per lane' % label, len(cols) == lanes, 'pattern', lambda: cols)
        if len(cols) != lanes:
            continue
        names = {}
        for k, e in enumerate(cols):
            nm, off = cursor(Li, e.idx, mem)
            names.setdefault('column_indices', nm)
            ok('%s:lane %d:position' % (label, k), nm is not None and off == k, 'pattern', lambda: e)
            ok('%s:lane %d:guard' % (label, k), (e.guard - Lo.cond * Li.cond).is_zero(), 'pattern', lambda: e)
            # the iterator of this lane
            its = [c for c in Li.carried.values() if isinstance(c[1], Opaque)] + \
                  [tuple(x.e[k] for x in c) for c in Li.carried.values() if isinstance(c[1], Arr) and len(c[1].e) > k]
            want = '%s.begin(%s)' % (SP, pretty(row + k))
            it = [c for c in its if path(c[0]) == want]
            good = it and path(it[0][2]) == 'next(%s)' % path(it[0][1])
            ok('%s:lane %d:iterator' % (label, k), good, 'pattern', lambda: ([(path(x[0]), path(x[2])) for x in its], want))
            if not good:
                continue
            it = it[0]
            col = e.value
            ok('%s:lane %d:column' % (label, k), pretty(col) == 'column(%s)' % path(it[1]), 'pattern', lambda: e)
            if k == 0:
                ok('%s:all columns' % label, not Li.breaks and pretty(Li.cond) == '1 - same(%s.end(%s), %s)' % (SP, pretty(row), path(it[1])), 'pattern', lambda: Li)
            # the transposed index
            tr = [x for x in fills[key].get('indices_transposed', []) if cursor(Li, x.idx, mem)[1] == k]
            names.setdefault('indices_transposed', cursor(Li, tr[0].idx, mem)[0] if tr else None)
            total = sum((x.guard * x.value for x in tr), ZERO)
            g = sum((x.guard for x in tr), ZERO)
            sp = SP
            p, pd, ln = T.app('operator()', sp, col, row + k), T.app('operator()', sp, col, col), T.app('row_length', sp, col)
            kk = mod(col, W)
            start = p - kk * ln - (p - pd)            # first entry of the batch the column belongs to
            inb = T.gt0(nint - col)
            want = inb * (start + (p - pd) * W + kk) + (ONE - inb) * p
            ok('%s:lane %d:one transposed index' % (label, k), (g - Lo.cond * Li.cond).is_zero(), 'transposed', lambda: tr)
            ok('%s:lane %d:transposed index' % (label, k), (total - Lo.cond * Li.cond * want).is_zero(),
               'transposed', lambda: 'stores %s, the transposed entry is at %s' % (show(total), show(want)))
        for what, nm in names.items():
            if nm is None:
                ok('%s:%s:position' % (label, what), False, 'pattern', lambda: Li)
                continue
            init, head, end, after = simple(Li, mem, nm)
            outer = [simple(Lo, mem, x) for x in Lo.carried if isinstance(Lo.carried[x][1], Value)]
            outer = [x for x in outer if (x[1] - init).is_zero()]
            ok('%s:%s:advances' % (label, what), (end - head - lanes).is_zero() and len(outer) == 1 and (outer[0][2] - after).is_zero(), 'pattern', lambda: (Li, Lo))
            if len(outer) == 1:
                want = ends.get(('vectorised rows', what), (None, None))[1] if label == 'scalar rows' else ZERO
                ok('%s:%s:start' % (label, what), want is not None and (outer[0][0] - want).is_zero(), 'pattern', lambda: Lo)
                ends[(label, what)] = (after, outer[0][3])
        # row starts
        rs = [e for e in events(mem, 'write', 'S.row_starts') if e.loops and e.loops[-1] is Lo]
        ok('%s:row start' % label, len(rs) == 1 and (rs[0].idx - (div(row, W) if lanes > 1 else row) - 1).is_zero() and
           (label, 'column_indices') in ends and (rs[0].value - ends[(label, 'column_indices')][0]).is_zero() and
           (rs[0].guard - Lo.cond).is_zero(), 'pattern', lambda: rs)
    rs = [e for e in events(mem, 'write', 'S.row_starts') if not e.loops]
    zero = [e for e in rs if e.idx.is_zero() and e.value.is_zero() and e.guard == ONE]
    ok('row start:first', len(zero) >= 1, 'pattern', lambda: rs)
    sp = [e for e in rs if (e.idx - nint).is_zero() and e.guard == ONE]
    ca = appargs(sp[0].value, 'cell') if len(sp) == 1 else None
    ok('row start:first scalar row', ca is not None and ca[0].split('@')[0] == 'S.row_starts' and (T.lift(ca[2]) - div(nint, W)).is_zero() or
       (len(sp) == 1 and ('vectorised rows', 'column_indices') in ends and (sp[0].value - ends[('vectorised rows', 'column_indices')][1]).is_zero()),
       'pattern', lambda: rs)
    sizes = {e.arr: e for e in events(mem, 'resize')}
    for what, want in (('row_starts', nrows + 1), ('column_indices', None), ('indices_transposed', None)):
        e = sizes.get('S.' + what)
        ok('size:' + what, e is not None and e.guard == ONE and (want is None and pretty(e.value[0]) == 'n_nonzero_elements(%s)' % SP or want is not None and (e.value[0] - want).is_zero()), 'init', lambda: e)
    # -- every member anew
    cls = P.class_by_q['ryujin::SparsityPatternSIMD<%d>' % W]
    for m in members(cls):
        name = 'S.' + m
        touch = [e for e in mem.events if e.guard == ONE and not e.loops and (
            (e.kind in ('clear', 'resize') and e.arr == name) or (e.kind == 'call' and e.arr in ('=', 'operator=') and path(e.value[0]) == name) or
            (e.kind == 'write' and e.arr == name))]
        ok('member:' + m, touch, 'init', lambda: [e for e in mem.events if e.arr == name])
        if m in ('receive_targets', 'send_targets', 'entries_to_be_sent'):
            first = [e for e in mem.events if e.arr == name]
            ok('cleared first:' + m, first and first[0].kind == 'clear' and first[0].guard == ONE, 'init', lambda: first[:2])
    for m, want in (('n_internal_dofs', nint), ('n_locally_owned_dofs', T.app('locally_owned_size', 'part'))):
        e = [e for e in calls.get('=', []) if path(e.value[0]) == 'S.' + m]
        ok('value:' + m, len(e) == 1 and isinstance(e[0].value[1], Value) and (e[0].value[1] - want).is_zero(), 'init', lambda: e)
    lists(R, mem, f, ok, SP, calls, owned, nrows)


def members(cls):
    return [x['n'] for x in cls['fields']]


# -- exchange lists ---------------------------------------------------------------------
def tgt(mem, arr, k, p):
    return T.app('cell', arr, '<%d>' % k, p)


def lists(R, mem, f, ok, SP, calls, owned, nrows):
    ghosts = T.gt0(nrows - owned)
    sp = SP
    size = lambda a: T.app('size', a)
    GT, IT, II = 'part.ghost_targets()', 'part.import_targets()', 'part.import_indices()'

    def within(e, cond):
        return (e.guard - ghosts * cond).is_zero()

    def inloops(e):
        g = ONE
        for L in e.loops:
            g = g * L.cond
        return g

    # receiving: ranks
    r1 = events(mem, 'write', 'S.receive_targets', 'first')
    good = len(r1) == 1 and len(r1[0].loops) == 1
    if good:
        e, L = r1[0], r1[0].loops[0]
        p = counted(L, mem, ZERO, size(GT), ONE)
        good = p is not None and (e.idx - p).is_zero() and (e.value - tgt(mem, GT, 0, p)).is_zero() and within(e, L.cond)
    ok('receive:ranks', good, 'lists', lambda: r1)
    r2 = events(mem, 'write', 'S.receive_targets', 'second')
    good = len(r2) == 1 and len(r2[0].loops) == 1
    if good:
        e, L = r2[0], r2[0].loops[0]
        c = {nm: simple(L, mem, nm) for nm in L.carried if isinstance(L.carried[nm][1], Value)}
        i = counted(L, mem, owned, nrows, ONE)
        good = i is not None
        if good:
            at = e.idx
            rows = [x for x in c.values() if x[0].is_zero() and (T.eq0(x[1] + 1 - tgt(mem, GT, 1, at)) * e.guard - e.guard).is_zero() and not (x[1] - at).is_zero()]
            good = len(rows) == 1
        if good:
            done = T.eq0(rows[0][1] + 1 - tgt(mem, GT, 1, at))
            move = [x for x in c.values() if (x[1] - at).is_zero()]
            total = [x for x in c.values() if (x[2] - e.value).is_zero()]
            ok('receive:rows of a rank', (rows[0][2] - (ONE - done) * (rows[0][1] + 1)).is_zero(), 'lists', lambda: L)
            ok('receive:next rank', len(move) == 1 and move[0][0].is_zero() and (move[0][2] - at - done).is_zero(), 'lists', lambda: L)
            ok('receive:count', len(total) == 1 and total[0][0].is_zero() and (e.value - total[0][1] - T.app('row_length', sp, i)).is_zero(), 'lists', lambda: (e, L))
            good = within(e, L.cond * done)
    ok('receive:ends', good, 'lists', lambda: r2)
    # ghost ranges
    arr = sorted({e.arr for e in events(mem, 'write') if not e.arr.startswith('S.')})
    ok('ghost ranges', len(arr) == 1, 'lists', lambda: arr)
    rng = arr[0] if len(arr) == 1 else None
    if rng:
        ev = events(mem, 'write', rng)
        a = [e for e in ev if not e.loops]
        b = [e for e in ev if e.loops]
        ok('ghost ranges:start', len(a) == 1 and a[0].idx.is_zero() and (a[0].value - owned).is_zero() and within(a[0], ONE), 'lists', lambda: a)
        good = len(b) == 1 and len(b[0].loops) == 1
        if good:
            e, L = b[0], b[0].loops[0]
            p = counted(L, mem, ZERO, size(GT), ONE)
            rest = e.value - tgt(mem, GT, 1, p) if p is not None else None
            ca = appargs(rest, 'cell') if rest is not None else None
            good = p is not None and (e.idx - p - 1).is_zero() and ca is not None and ca[0].split('@')[0] == rng and (T.lift(ca[2]) - p).is_zero() and within(e, L.cond)
        ok('ghost ranges:next', good, 'lists', lambda: b)
    # the indices other ranks want
    ap = [e for e in events(mem, 'append') if not e.arr.startswith('S.')]
    good = len(ap) == 1 and len(ap[0].loops) == 2
    part = ap[0].arr if ap else None
    if good:
        e = ap[0]
        Lo, Li = e.loops
        o = counted(Lo, mem, ZERO, size(II), ONE)
        j = None
        if o is not None:
            j = counted(Li, mem, tgt(mem, II, 0, o), tgt(mem, II, 1, o), ONE)
        good = j is not None and len(e.value) == 1 and (e.value[0] - j).is_zero() and within(e, Lo.cond * Li.cond)
    ok('requested indices', good, 'lists', lambda: ap)
    # entries
    ap = events(mem, 'append', 'S.entries_to_be_sent')
    diag = [e for e in ap if len(e.loops) == 2]
    off = [e for e in ap if len(e.loops) == 3]
    ok('send:two entries', len(ap) == 2 and len(diag) == 1 and len(off) == 1 and diag[0].loops == off[0].loops[:2], 'lists', lambda: ap)
    if len(ap) == 2 and len(diag) == 1 and len(off) == 1:
        d, o = diag[0], off[0]
        Lp, Lc = d.loops
        Lj = o.loops[2]
        p = counted(Lp, mem, ZERO, size(IT), ONE)
        ok('send:ranks', p is not None, 'lists', lambda: Lp)
        if p is None:
            return
        c = counted(Lc, mem, ZERO, tgt(mem, IT, 1, p), ONE)
        ok('send:rows of a rank', c is not None, 'lists', lambda: Lc)
        ca = appargs(d.value[0], 'cell')
        row = d.value[0]
        good = ca is not None and ca[0].split('@')[0] == part and len(d.value) == 2
        if good:
            idx = T.lift(ca[2])
            x = [simple(Lc, mem, nm) for nm in Lc.carried if isinstance(Lc.carried[nm][1], Value)]
            x = [y for y in x if (y[1] - idx).is_zero()]
            y = [simple(Lp, mem, nm) for nm in Lp.carried if isinstance(Lp.carried[nm][1], Value)]
            y = [z for z in y if x and (z[1] - x[0][0]).is_zero()]
            good = len(x) == 1 and len(y) == 1 and (x[0][2] - idx - 1).is_zero() and y[0][0].is_zero() and (y[0][2] - x[0][3]).is_zero()
        ok('send:row', good, 'lists', lambda: (d, Lc, Lp))
        ok('send:diagonal', len(d.value) == 2 and d.value[1].is_zero(), 'lists', lambda: d)
        # matching rank
        Lm = [L for L in mem.loops if L.parent is Lp and L is not Lc]
        match = None
        for L in Lm:
            for nm in L.carried:
                init, head, end, after = simple(L, mem, nm)
                if (end - head - 1).is_zero():
                    match = (L, init, head, after)
        good = match is not None
        if good:
            L, init, head, after = match
            lhs = [a for a in mem.loops]
            want = lambda first: T.gt0(size(GT) - head) * (ONE - T.eq0(first - tgt(mem, IT, 0, p)))
            first = next((w for w in cellsof(L.cond) if w.args[0].split('@')[0] == 'S.receive_targets'), None)
            firsts = [T.atom_value(first)] if first is not None else []
            firsts.append(tgt(mem, GT, 0, head))
            ok('send:match', any((L.cond - want(x)).is_zero() for x in firsts) and (first is None or (T.lift(first.args[2]) - head).is_zero() and first.args[1] == '<0>' or first.args[1] in ('first', '.first', '<0>')), 'lists', lambda: L)
            start = [simple(Lp, mem, nm) for nm in Lp.carried if isinstance(Lp.carried[nm][1], Value)]
            pm = [z for z in start if z[0].is_zero() and (init - z[1] + z[1] * T.eq0(size(GT) - z[1])).is_zero() and (z[2] - after).is_zero()]
            ok('send:search from', init.is_zero() or len(pm) == 1, 'lists', lambda: (L, Lp))
            matched = ONE - T.eq0(size(GT) - after)
            ok('send:diagonal guard', within(d, Lp.cond * Lc.cond * matched), 'lists', lambda: d)
            its = [x for x in Lj.carried.values() if isinstance(x[1], Opaque)]
            beg = '%s.begin(%s)' % (SP, pretty(row))
            ok('send:entries of the row', len(its) == 1 and path(its[0][0]) == 'next(%s)' % beg and path(its[0][2]) == 'next(%s)' % path(its[0][1]) and
               not Lj.breaks and pretty(Lj.cond) == '1 - same(%s.end(%s), %s)' % (SP, pretty(row), path(its[0][1])), 'lists', lambda: Lj)
            if len(its) == 1:
                it = its[0][1]
                ok('send:position', (o.value[0] - row).is_zero() and pretty(o.value[1]) == 'bin-(%s, %s)' % (path(it), beg), 'lists', lambda: o)
                col = T.app('column', path(it))
                lows = [a for a in cellsof(o.guard) if a.args[0].split('@')[0] == rng]
                los = [T.atom_value(a) for a in lows if (T.lift(a.args[2]) - after).is_zero()]
                his = [T.atom_value(a) for a in lows if (T.lift(a.args[2]) - after - 1).is_zero()]
                ok('send:columns of the rank', len(los) == 1 and len(his) == 1 and
                   within(o, Lp.cond * Lc.cond * matched * Lj.cond * T.ge0(col - los[0]) * T.gt0(his[0] - col)), 'lists', lambda: o)
        else:
            ok('send:match', False, 'lists', lambda: Lp)
        s1, s2 = events(mem, 'write', 'S.send_targets', 'first'), events(mem, 'write', 'S.send_targets', 'second')
        ok('send:rank', len(s1) == 1 and s1[0].loops == (Lp,) and (s1[0].idx - p).is_zero() and (s1[0].value - tgt(mem, IT, 0, p)).is_zero() and within(s1[0], Lp.cond), 'lists', lambda: s1)
        good = len(s2) == 1 and s2[0].loops == (Lp,) and (s2[0].idx - p).is_zero() and within(s2[0], Lp.cond)
        if good:
            nm = 'size(S.entries_to_be_sent)'
            inner = simple(Lc, mem, nm) if nm in Lc.carried else None
            good = inner is not None and (s2[0].value - inner[3]).is_zero()
        ok('send:ends', good, 'lists', lambda: s2)
    sizes = {e.arr: e for e in events(mem, 'resize')}
    for what, n in (('receive_targets', GT), ('send_targets', IT)):
        e = sizes.get('S.' + what)
        ok('size:' + what, e is not None and not e.loops and (e.guard - ghosts).is_zero() and (e.value[0] - size(n)).is_zero(), 'lists', lambda: e)


def depends(v, w):
    (m, _), = w.t.items()
    a = m[0][0]
    return (T.subst(v, {a: T.sym('other')}) - v).fp != ZERO.fp


def cellsof(v):
    """cells a value mentions"""
    out, seen = [], set()

    def walk(x):
        if isinstance(x, Value):
            for a in x.atoms():
                if a in seen:
                    continue
                seen.add(a)
                if a.name == 'cell':
                    out.append(a)
                for y in a.args:
                    walk(y)
        elif isinstance(x, (tuple, list)):
            for y in x:
                walk(y)
    walk(v)
    return out

# -- the exchange -------------------------------------------------------------------------
def unroll(mem, v):
    """carried values that are overwritten in every iteration, by the counter of the loop"""
    for L in mem.loops:
        cnt = [simple(L, mem, nm) for nm in L.carried if isinstance(L.carried[nm][1], Value)]
        p = [x for x in cnt if (x[2] - x[1] - 1).is_zero() and x[0].is_zero()]
        if len(p) != 1:
            continue
        p = p[0][1]
        for x in cnt:
            if x[1].fp != p.fp and not depends(x[2], x[1]):
                first = T.eq0(p)
                v = T.subst(v, {x[1]: first * x[0] + (ONE - first) * T.subst(x[2], {p: p - 1})})
    return v


def exchange(R, L):
    P, n, W = L.P, L.n, L.W
    f = L.method('update_ghost_rows_start')
    mem = Memory(P)
    mem.M.run(f, [S('ch')], Opaque('m', L.mt))

    def ok(key, cond, detail='', rule='exchange', where=None):
        R.count('exchange obligations')
        return R.ok('D01:%s:%s' % (L.tag, key), bool(cond), where or f, RULES[rule], detail)

    size = lambda a: T.app('size', a)
    RT, ST, EN = 'm.sparsity.receive_targets', 'm.sparsity.send_targets', 'm.sparsity.entries_to_be_sent'
    calls = {}
    for e in events(mem, 'call'):
        calls.setdefault(e.arr, []).append(e)
    tags = {}
    slots = {}
    for kind, arr in (('MPI_Irecv', RT), ('MPI_Isend', ST)):
        es = calls.get(kind, [])
        ok(kind + ':one call', len(es) == 1 and len(es[0].loops) == 1, lambda: es)
        if len(es) != 1 or len(es[0].loops) != 1:
            continue
        e, lp = es[0], es[0].loops[0]
        p = counted(lp, mem, ZERO, size(arr), ONE)
        ok(kind + ':all ranks', p is not None and (T.subst(e.guard, {}) - e.guard).is_zero(), lambda: lp)
        if p is None:
            continue
        a = [unroll(mem, x) if isinstance(x, Value) else x for x in e.value[1:]]
        prev = (ONE - T.eq0(p)) * tgt(mem, arr, 1, p - 1)
        cur = tgt(mem, arr, 1, p)
        ptr = mem.pointer(a[0])
        if kind == 'MPI_Irecv':
            base = cellv(mem, 'm.sparsity.row_starts', S('m.sparsity.n_locally_owned_dofs'))
            want = ('m.data', n * base + n * prev)
        else:
            want = ('m.exchange_buffer', n * prev)
        ok(kind + ':address', ptr is not None and ptr[0] == want[0] and (ptr[1] - want[1]).is_zero(), lambda: show(a[0]))
        ok(kind + ':length', (a[1] - 8 * n * (cur - prev)).is_zero() and 'byte' in path(a[2]), lambda: show(a[1:3]))
        ok(kind + ':rank', (a[3] - tgt(mem, arr, 0, p)).is_zero(), lambda: show(a[3]))
        tags[kind] = (pretty(a[4]), path(a[5]))
        slots[kind] = path(a[6])
        ok(kind + ':guard', onlyifs(e.guard, lp.cond), lambda: show(e.guard))
        idx = re.match(r'&?m\.requests(@\d+)?\[(.*)\]$', path(a[6]).strip("'<>"))
        want = pretty(p) if kind == 'MPI_Irecv' else pretty(size(RT) + p)
        alt = pretty(size(ST) + p) if kind == 'MPI_Irecv' else pretty(p)
        slots[kind] = None if not idx else 0 if idx.group(2) == want else 1 if idx.group(2) == alt else None
    ok('same tag and communicator', len(set(tags.values())) == 1 and all('mpi_communicator' in t[1] for t in tags.values()), lambda: tags)
    ok('distinct requests', slots.get('MPI_Irecv') is not None and slots.get('MPI_Irecv') == slots.get('MPI_Isend'), lambda: slots)
    sz = {e.arr: e for e in events(mem, 'resize')}
    e = sz.get('m.requests')
    ok('requests', e is not None and e.guard == ONE and (e.value[0] - size(RT) - size(ST)).is_zero(), lambda: e)
    e = sz.get('m.exchange_buffer')
    ok('buffer', e is not None and e.guard == ONE and (e.value[0] - n * size(EN)).is_zero(), lambda: e)
    # packing
    ws = events(mem, 'write', 'm.exchange_buffer')
    good = ws and all(len(e.loops) == 1 and e.loops == ws[0].loops for e in ws)
    c = counted(ws[0].loops[0], mem, ZERO, size(EN), ONE) if good else None
    ok('pack:all entries', c is not None, lambda: ws)
    if c is not None:
        row, pos = tgt(mem, EN, 0, c), tgt(mem, EN, 1, c)
        cond = ws[0].loops[0].cond
        for d in range(n):
            mine = [e for e in ws if (e.idx - n * c - d).is_zero()]
            v = sum((e.guard * split(e.value) for e in mine), ZERO)
            inn = T.gt0(S('m.sparsity.n_internal_dofs') - row)
            a = [cellv(mem, 'm.data', place(mem, L, row, pos, d, x), 'double') for x in (True, False)]
            ok('pack:component %d' % d, (v - cond * (inn * a[0] + (ONE - inn) * a[1])).is_zero(), lambda: (show(v), show(a)))
        ok('pack:only these', len([e for e in ws if any((e.idx - n * c - d).is_zero() for d in range(n))]) == len(ws), lambda: ws)
        # the buffer is filled before it is sent
        order = [e for e in mem.events if e in ws or e.arr == 'MPI_Isend']
        ok('packed before sent', order and order[-1].arr == 'MPI_Isend' and order.index([e for e in order if e.arr == 'MPI_Isend'][0]) == len(ws), lambda: order)
    for name in ('update_ghost_rows_finish', 'update_ghost_rows'):
        g = L.method(name)
        mem = Memory(P)
        mem.M.run(g, [], Opaque('m', L.mt))
        w = events(mem, 'call', 'MPI_Waitall')
        whole = size('m.requests') if 'finish' in name else size(RT) + size(ST)
        ok(name + ':completes', len(w) == 1 and w[0].guard == ONE and (w[0].value[1] - whole).is_zero() and mem.pointer(w[0].value[2]) is not None and
           mem.pointer(w[0].value[2])[0] == 'm.requests' and mem.pointer(w[0].value[2])[1].is_zero(), lambda: w, where=g)
        if name == 'update_ghost_rows':
            ok(name + ':starts', {'MPI_Irecv', 'MPI_Isend', 'MPI_Waitall'} <= {e.arr for e in mem.events} and
               [e for e in mem.events if e.arr in ('MPI_Irecv', 'MPI_Isend', 'MPI_Waitall')][-1].arr == 'MPI_Waitall', lambda: [e.arr for e in mem.events], where=g)


def onlyifs(g, cond):
    """nothing but the loop and the success of library calls decides"""
    for a in g.atoms():
        if a.kind == 'bool' and not (T.atom_value(a) - cond).is_zero() and 'MPITypeSize' not in pretty(T.atom_value(a)):
            return False
    return not T.subst(g, {a: ONE for a in g.atoms() if a.kind == 'bool'}).is_zero()


def matrix(R, L):
    P, n, W = L.P, L.n, L.W
    cls = P.class_by_q[L.mt]

    def ok(key, cond, f, detail='', rule='init'):
        R.count('matrix obligations')
        return R.ok('D01:%s:%s' % (L.tag, key), bool(cond), f, RULES[rule], detail)

    for f in P.find(r'ryujin::SparseMatrixSIMD<double, %d, %d>::(reinit|SparseMatrixSIMD)' % (n, W)):
        if len(f['params']) != 1 or 'SparsityPatternSIMD' not in f['params'][0]['t']:
            continue
        mem = Memory(P)
        if f['n'] == 'reinit':
            mem.M.run(f, [Opaque('sp', 'ryujin::SparsityPatternSIMD<%d>' % W)], Opaque('m', L.mt))
            e = [e for e in events(mem, 'call') if e.arr == '=' and path(e.value[0]) == 'm.sparsity']
            ok('reinit:pattern', len(e) == 1 and e[0].guard == ONE and bool(re.match(r'&', show(e[0].value[1]) or '')), f, lambda: e)
            e = events(mem, 'resize', 'm.data')
            ca = T.app('cell', 'sp.row_starts', '', T.app('size', 'sp.row_starts') - 1)
            ok('reinit:storage', len(e) == 1 and e[0].guard == ONE and (e[0].value[0] - n * ca).is_zero(), f, lambda: e)
    # filling
    fs = [(f, True) for f in P.find('probe::read_many') if L.mt in f['params'][0]['t']] + [(f, False) for f in P.find('probe::read_one') if L.mt in f['params'][0]['t']]
    if n > 1 and not fs or n == 1 and not fs:
        raise AnalysisError('no instance of read_in for %s' % L.tag)
    for f, many in fs:
        for local in (ONE, ZERO):
            mem = Memory(P)
            mem.M.run(f, [Opaque('m', L.mt), Opaque('s', strip_type(f['params'][1]['t']).replace('const ', '').rstrip(' &')), local])
            ws = events(mem, 'write', 'm.data')
            parts = {}
            for e in ws:
                parts.setdefault(e.loops, []).append(e)
            nint, owned = S('m.sparsity.n_internal_dofs'), S('m.sparsity.n_locally_owned_dofs')
            seen = set()
            key = '%s:%s' % (f['n'], 'local' if local == ONE else 'global')
            for loops, es in parts.items():
                if len(loops) != 2:
                    ok(key + ':loops', False, f, es, 'copy')
                    continue
                Lo, Li = loops
                if counted(Lo, mem, ZERO, nint, T.const(W)) is not None and 'inside' not in seen:
                    inside, row = True, W * S('z')
                    names = {Lo.id: S('z'), Li.id: S('pos')}
                    mp = {nint: W * S('z') + W * T.sym('r', pos=True)}
                elif counted(Lo, mem, nint, owned, ONE) is not None:
                    inside, row = False, nint + S('z', True)
                    names = {Lo.id: S('z', True), Li.id: S('pos')}
                    mp = {}
                else:
                    ok(key + ':rows', False, f, lambda: Lo, 'copy')
                    continue
                seen.add('inside' if inside else 'outside')
                C = Closed(mem, names)
                close = lambda v: T.subst(C(v), mp)
                pos = S('pos')
                # the row is complete
                m2 = Memory(P)
                m2.I.naming = {nint.fp: mp.get(nint, nint)}
                ln = m2.M.run(L.pattern('row_length'), [row], Opaque('m.sparsity', 'ryujin::SparsityPatternSIMD<%d>' % W))
                ok('%s:%s:whole row' % (key, inside), (close(Li.cond) - T.gt0(ln - pos)).is_zero(), f, lambda: (show(close(Li.cond)), show(ln)), 'copy')
                got = {}
                for e in es:
                    v = close(e.value)
                    g = close(e.guard)
                    if g.is_zero():
                        continue
                    got.setdefault(close(e.idx).fp, []).append((v, g))
                    ok('%s:%s:guard' % (key, inside), (g - close(Lo.cond) * close(Li.cond)).is_zero(), f, lambda: show(g), 'copy')
                want = {}
                m3 = Memory(P)
                for d in range(n):
                    for k in range(W if inside else 1):
                        at = place(m3, L, row + k, pos, d, inside)
                        col = cellv(m3, 'm.sparsity.column_indices', column(m3, L, row + k, pos, inside), 'unsigned int')
                        src = 's[%d]' % d if many else 's'
                        r = row + k
                        if local == ONE:
                            x = T.app('operator()', src, r, col)
                        else:
                            l2g = lambda y: T.app('local_to_global', 'm.sparsity.partitioner', y)
                            x = T.app('el', src, l2g(r), l2g(col))
                        want[at.fp] = x
                ok('%s:%s:addresses' % (key, inside), set(got) == set(want), f, lambda: [show(close(e.idx)) for e in es], 'copy')
                for a in set(got) & set(want):
                    ok('%s:%s:value' % (key, inside), len(got[a]) == 1 and (got[a][0][0] - want[a]).is_zero(), f, lambda: '%s, expected %s' % (show(got[a][0][0]), show(want[a])), 'copy')
            ok(key + ':all rows', seen == {'inside', 'outside'}, f, lambda: list(parts), 'copy')


def layout(P, n, W):
    L = Layout(P, n, W)
    L.mt = 'ryujin::SparseMatrixSIMD<double, %d, %d>' % (n, W)
    L.one = lambda name, second: P.one('probe::' + name, lambda f: L.mt in f['params'][0]['t'] and strip_type(f['params'][1]['t']).startswith(second))
    return L


def run(R):
    for r in RULES.values():
        R.rule(r + '.')
    P = export.programs([TU])[TU]
    for W in (1, 4):
        pattern(R, P, W)
    for n, W in ((1, 1), (2, 1), (3, 1), (1, 4), (2, 4), (3, 4)):
        L = layout(P, n, W)
        accessors(R, L)
        exchange(R, L)
        matrix(R, L)
    for kind, k in (('accessor obligations', 300), ('pattern obligations', 120), ('exchange obligations', 80), ('matrix obligations', 60)):
        R.floor(kind, k)
