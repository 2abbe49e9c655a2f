"""D03: numbering of the degrees of freedom"""
import itertools
from memory import *
from checks.d01 import cellv, path, events, simple, counted, appargs, atom
import export

PROBE, W1, W4 = 'probe:vectors', ':offline_data.cc', 'probe:offline'
RULES = {
    'permutation': 'a renumbering gives every owned degree of freedom one new number, and uses every owned number once',
    'groups': 'the groups placed first are exactly those with the required property, and they stay together',
    'count': 'the number returned is the number of degrees of freedom placed first',
    'fresh': 'patterns and constraints in use belong to the final numbering of that moment',
    'internal': 'the range handed to the matrices as vectorised consists of whole groups of rows of equal length',
    'export': 'every row of the vectorised range that other processes need lies before the end of the export range',
    'relevant': 'the partition holds the relevant degrees of freedom and every column of the sparsity pattern',
}
S = T.sym
INVALID = T.const(2**32 - 1)


class Ctx:
    def __init__(self, R, key):
        self.R, self.key = R, key

    def ok(self, key, cond, f, rule, detail=''):
        self.R.count('obligations')
        self.R.ok('D03:%s:%s' % (self.key, key), cond, f, RULES[rule], detail)


def calls(mem, *names):
    return [e for e in mem.events if e.kind == 'call' and e.arr in names]


def arguments(I, f):
    out = []
    for p in f['params']:
        t = strip_type(p['t']).replace('const ', '').rstrip(' &')
        out.append(I.symbolic(t, p['n']) if is_scalar_type(t) else Opaque(p['n'], t))
    return out


# -- renumberings --------------------------------------------------------------------------
def order(C, f, mem):
    """the array handed to renumber_dofs, its size, and the offset of the owned range"""
    r = calls(mem, 'renumber_dofs')
    C.ok('one renumbering', len(r) == 1 and r[0].guard == ONE and not r[0].loops, f, 'permutation', lambda: r)
    if len(r) != 1:
        return None
    arr = path(r[0].value[1])
    nown = T.app('n_elements', 'd.locally_owned_dofs()')
    size = events(mem, 'sized', arr)[-1:]
    C.ok('size', size and (size[0].value - nown).is_zero() and size[0].guard == ONE, f, 'permutation', lambda: size)
    off = T.app('at', 'd.locally_owned_dofs().begin()')
    off = off - T.eq0(nown) * off
    w = events(mem, 'write', arr)
    C.ok('all before', w and max(mem.events.index(e) for e in w) < mem.events.index(r[0]), f, 'permutation', lambda: r)
    return arr, nown, off, w


def flagged(mem, v):
    """(loop, value if never hit, value if hit, hitting guard) of a flag computed by a search loop"""
    a = appargs(v, 'head')
    if a is None or not str(a[1]).startswith('after '):
        return None
    L = mem.loops[int(a[0]) if not isinstance(a[0], Value) else int(a[0].const())]
    nm = str(a[1])[len('after '):]
    init, head, end, after = L.carried[nm]
    hits = [(g, vals[nm]) for g, vals in L.breakvals]
    if hits and (end - head).is_zero() and len(hits) == 1:
        return L, init, hits[0][1], hits[0][0]
    if not L.breaks and isinstance(init, Value) and init in (ZERO, ONE):
        h = next((a for a in T_apps(end, 'head') if a.args == (L.id, nm)), None)
        if h is not None:
            # a flag that is only ever moved away from its first value
            stay = T.restrict(end, h, init.const()) if h.kind == 'bool' else T.subst(end, {h: init})
            gone = T.restrict(end, h, 1 - init.const()) if h.kind == 'bool' else T.subst(end, {h: ONE - init})
            if (gone - (ONE - init)).is_zero():
                return L, init, ONE - init, L.cond * (stay if init == ZERO else ONE - stay)
    return None


def cond_of(mem, g):
    """the flags (after-values of search loops) a guard depends on"""
    return [a for a in T_apps(g, 'head') if str(a.args[1]).startswith('after ')]


def grouped(C, f, mem, kind):
    """first the groups with a property, then the other groups, then the rest"""
    got = order(C, f, mem)
    if got is None:
        return
    arr, nown, off, w = got
    n, g = S('n'), S('g')
    marks = [e for e in w if e.value == INVALID or (isinstance(e.value, Value) and (e.value - INVALID).is_zero())]
    real = [e for e in w if e not in marks]
    C.ok('phases', len(real) == 3 and len(marks) == 1, f, 'permutation', lambda: w)
    if len(real) != 3 or len(marks) != 1:
        return
    A, B, D = real
    M = marks[0]

    def double(e, name):
        """index and counter of a loop over groups"""
        if len(e.loops) != 2:
            C.ok(name + ':loops', False, f, 'permutation', lambda: e)
            return None
        Lo, Li = e.loops
        i = counted(Lo, mem, ZERO, n, g)
        j = counted(Li, mem, ZERO, g, ONE)
        C.ok(name + ':all', i is not None and j is not None and (e.idx - i - j).is_zero(), f, 'permutation', lambda: (e, Lo, Li))
        return None if i is None or j is None else (Lo, Li, i, j)

    def counter(e, L):
        for nm, c in L.carried.items():
            if isinstance(c[1], Value) and (e.value - off - c[1]).is_zero():
                return nm
        return None

    chain = {}
    for name, e in (('first', A), ('second', B)):
        d = double(e, name)
        if d is None:
            return
        Lo, Li, i, j = d
        nm = counter(e, Li)
        C.ok(name + ':counter', nm is not None, f, 'permutation', lambda: e)
        if nm is None:
            return
        init, head, end, after = Li.carried[nm]
        C.ok(name + ':advances', (end - head - 1).is_zero(), f, 'permutation', lambda: Li)
        outer = [(k, c) for k, c in Lo.carried.items() if isinstance(c[1], Value) and (c[1] - init).is_zero()]
        C.ok(name + ':continues', len(outer) == 1, f, 'permutation', lambda: (Lo, Li))
        if len(outer) != 1:
            return
        oi, oh, oe, oa = outer[0][1]
        # the guard of the group
        grp = None
        if name == 'first':
            fl = [flagged(mem, T.atom_value(a)) for a in cond_of(mem, e.guard) if a.args[1] != 'after ' + nm]
            fl = [x for x in fl if x]
            C.ok('first:flag', len(fl) == 1, f, 'groups', lambda: show(e.guard))
            if len(fl) != 1:
                return
            Lf, v0, v1, hit = fl[0]
            av = [T.atom_value(a) for a in cond_of(mem, e.guard) if flagged(mem, T.atom_value(a))][0]
            q = {True: v0 if kind == 'equal' else v1, False: v1 if kind == 'equal' else v0}
            C.ok('first:flag values', q[True] == ONE and q[False] == ZERO, f, 'groups', lambda: (v0, v1))
            grp = ONE - T.eq0(av)
            jf = counted_hit(Lf, mem, g)
            C.ok('first:flag range', jf is not None, f, 'groups', lambda: Lf)
            if jf is None:
                return
            if kind == 'export':
                sets = [x for x in T_apps(hit, 'is_element')]
                want = T.boolapp('is_element', sets[0].args[0], i + jf) if sets else ZERO
                C.ok('first:property', len(sets) == 1 and (Lo.cond * Lf.cond * (hit - want)).is_zero(), f, 'groups', lambda: show(hit))
                if sets:
                    adds = [x for x in calls(mem, 'add_range') if path(x.value[0]).split('@')[0] == str(sets[0].args[0]).split('@')[0]]
                    good = len(adds) == 1 and len(adds[0].loops) == 1
                    if good:
                        x, La = adds[0], adds[0].loops[0]
                        src = [s for s in sizes(mem, La) if s.endswith('.import_indices()')]
                        p = counted(La, mem, ZERO, T.app('size', src[0]), ONE) if src else None
                        good = p is not None and x.guard == La.cond and \
                            (x.value[1] - T.app('cell', src[0], '<0>', p)).is_zero() and (x.value[2] - T.app('cell', src[0], '<1>', p)).is_zero() and \
                            'locally_owned_dofs()' in src[0] and mem.events.index(x) < mem.events.index(A)
                    C.ok('first:exported set', good, f, 'groups', lambda: adds)
            else:
                length = lambda x: T.app('row_length', 's', x + off)
                ref = [length(i), length(i + jf)]
                differ = ONE - T.eq0(ref[0] - ref[1])
                C.ok('first:property', (Lo.cond * Lf.cond * (hit - differ)).is_zero(), f, 'groups', lambda: show(hit))
            # the mark for the others
            m = double(M, 'mark')
            if m is None:
                return
            C.ok('mark:same groups', m[0] is Lo and (M.idx - m[2] - m[3]).is_zero() and (M.guard - Lo.cond * m[1].cond * (ONE - grp)).is_zero(), f, 'groups', lambda: M)
        else:
            fresh = [a for a in T_apps(e.guard, 'cell') if str(a.args[0]).split('@')[0] == arr]
            grp = T.eq0(T.atom_value(fresh[0]) - INVALID) if len(fresh) == 1 else None
            C.ok('second:property', grp is not None and (T.lift(fresh[0].args[2]) - i).is_zero(), f, 'groups', lambda: show(e.guard))
            if grp is None:
                return
        C.ok(name + ':guard', (e.guard - Lo.cond * Li.cond * grp).is_zero(), f, 'groups', lambda: show(e.guard))
        C.ok(name + ':carried', (oe - (grp * after + (ONE - grp) * oh)).is_zero(), f, 'permutation', lambda: Lo)
        chain[name] = (oi, oa)
    C.ok('first:from zero', chain['first'][0].is_zero(), f, 'permutation', lambda: show(chain['first'][0]))
    C.ok('second:continues after', (chain['second'][0] - chain['first'][1]).is_zero(), f, 'permutation', lambda: show(chain['second'][0]))
    if len(D.loops) != 1:
        C.ok('rest:loop', False, f, 'permutation', lambda: D)
        return
    L = D.loops[0]
    i = counted(L, mem, n, nown, ONE)
    nm = counter(D, L)
    C.ok('rest:all', i is not None and (D.idx - i).is_zero() and (D.guard - L.cond).is_zero(), f, 'permutation', lambda: (D, L))
    C.ok('rest:counter', nm is not None and (L.carried[nm][0] - chain['second'][1]).is_zero() and (L.carried[nm][2] - L.carried[nm][1] - 1).is_zero(), f, 'permutation', lambda: L)
    return chain['first'][1]


def counted_hit(L, mem, hi):
    for nm, c in L.carried.items():
        if isinstance(c[1], Value):
            init, head, end, after = simple(L, mem, nm)
            if init.is_zero() and (end - head - 1).is_zero() and (L.cond - T.gt0(hi - head)).is_zero():
                return head
    return None


def T_apps(v, name):
    out = []

    def walk(x):
        if isinstance(x, Value):
            for a in x.atoms():
                if a.kind in ('app', 'bool') and a.name == name and a not in out:
                    out.append(a)
                walk(a.args)
        elif isinstance(x, (tuple, list)):
            for y in x:
                walk(y)
    walk(v)
    return out


def sizes(mem, L):
    return [str(a.args[0]) for a in T_apps(L.cond, 'size')]


def binned(C, f, mem):
    """groups of equal row length, then the rest"""
    got = order(C, f, mem)
    if got is None:
        return
    arr, nown, off, w = got
    C.ok('phases', len(w) == 2, f, 'permutation', lambda: w)
    if len(w) != 2:
        return
    A, B = w
    g = S('g')
    ins = calls(mem, 'insert', 'emplace')
    C.ok('sorted in', len(ins) == 1 and len(ins[0].loops) == 1, f, 'permutation', lambda: ins)
    if len(ins) != 1 or len(A.loops) != 2 or len(B.loops) != 2:
        C.ok('loops', False, f, 'permutation', lambda: w)
        return
    L = ins[0].loops[0]
    i = counted(L, mem, ZERO, nown, ONE)
    C.ok('sorted in:all', i is not None and (ins[0].guard - L.cond).is_zero() and (ins[0].value[1] - i).is_zero(), f, 'permutation', lambda: ins)
    if i is None:
        return
    # the bin is chosen by the row length
    strip = lambda p: re.sub(r'@\d+', '', p)
    bins = strip(path(ins[0].value[0]))
    ln = T.app('row_length', 's', off + i)
    C.ok('bin', bins.endswith('[%s]' % strip(pretty(ln))), f, 'groups', lambda: bins)
    base = bins[:-len('[%s]' % strip(pretty(ln)))]
    # first: full bins
    at = appargs(A.idx, 'elem')
    C.ok('full:elements', at is not None and strip(str(at[0])) == bins and A.loops[0] is L and A.loops[1].cond == ONE, f, 'permutation', lambda: A)
    full = [a for a in T_apps(A.guard, 'size') if strip(str(a.args[0])) == bins]
    cond = T.eq0(T.atom_value(full[0]) - g) if full else ZERO
    C.ok('full:condition', full and (A.guard - L.cond * cond).is_zero() and mem.events.index(ins[0]) < mem.events.index(A), f, 'groups', lambda: show(A.guard))
    er = [e for e in calls(mem, 'erase', 'clear')]
    C.ok('full:removed', len(er) == 1 and strip(path(er[0].value[0])) in (base, bins) and (er[0].guard - A.guard).is_zero() and
         mem.events.index(er[0]) > mem.events.index(A) and er[0].loops == (L,) and
         (er[0].arr == 'clear' or (isinstance(er[0].value[1], Value) and (er[0].value[1] - ln).is_zero())), f, 'permutation', lambda: er)
    # then: all that is left
    at = appargs(B.idx, 'elem')
    C.ok('rest:elements', at is not None and strip(str(at[0])).startswith(base) and all(x.cond == ONE for x in B.loops) and B.guard == ONE and
         B.loops[0].id > L.id, f, 'permutation', lambda: B)
    ends = []
    for name, e in (('full', A), ('rest', B)):
        Lo, Li = e.loops
        nm = [k for k, c in Li.carried.items() if isinstance(c[1], Value) and (c[1] - e.value).is_zero()]
        shift = ZERO
        if not nm:
            nm = [k for k, c in Li.carried.items() if isinstance(c[1], Value) and (c[1] + off - e.value).is_zero()]
            shift = off
        C.ok(name + ':counter', len(nm) == 1, f, 'permutation', lambda: e)
        if len(nm) != 1:
            return
        init, head, end, after = Li.carried[nm[0]]
        o = [c for c in Lo.carried.values() if isinstance(c[1], Value) and (c[1] - init).is_zero()]
        took = cond if name == 'full' else ONE
        C.ok(name + ':advances', (end - head - 1).is_zero() and len(o) == 1 and (o[0][2] - (took * after + (ONE - took) * o[0][1])).is_zero(), f, 'permutation', lambda: (Lo, Li))
        if len(o) != 1:
            return
        ends.append((o[0][0] + shift, o[0][3] + shift))
    C.ok('from the first number', (ends[0][0] - off).is_zero(), f, 'permutation', lambda: show(ends[0][0]))
    C.ok('continues', (ends[1][0] - ends[0][1]).is_zero(), f, 'permutation', lambda: show(ends[1][0]))
    return ends[0][1] - off


def renumberings(R, P):
    for name, kind, rule in (('exported', 'export', grouped), ('strides', 'equal', grouped), ('internal', None, binned)):
        f = P.one(r'probe::Number<2>::' + name)
        C = Ctx(R, name)
        mem = Memory(P)
        r = mem.M.run(f, arguments(mem.I, f))
        n = rule(C, f, mem, kind) if kind else rule(C, f, mem)
        if n is not None:
            C.ok('count', isinstance(r, Value) and (r - n).is_zero(), f, 'count', lambda: show(r))
        R.count('renumberings')


# -- setup -----------------------------------------------------------------------------------
CUT = ('export_indices_first', 'internal_range', 'inconsistent_strides_last', 'create_constraints_and_sparsity_pattern', 'create_vector_partitioner', 'Cuthill_McKee')
RENUMBER = ('distribute_dofs', 'export_indices_first', 'internal_range', 'inconsistent_strides_last', 'Cuthill_McKee', 'renumber_dofs')


def setup(R, P, W, dim):
    f = P.one(r'ryujin::OfflineData<%d, double>::setup' % dim)
    C = Ctx(R, 'setup:%d lanes:dim %d' % (W, dim))
    mem = Memory(P)
    I = mem.I
    mem.tagged = {'dealii::IndexSet'}
    seen = {}

    def cut(I, e, fr):
        a = [mem.val(x, fr) for x in e.get('a', [])]
        if e['n'] == 'reinit':
            if not any(c in e.get('cls', '') for c in ('SparsityPatternSIMD', 'SparseMatrixSIMD')):
                return NotImplemented
            b = mem.arrpath(e['b'], fr)
            mem.note('call', 'matrix reinit', None, [Opaque(b)] + a, e)
            return None
        mem.note('call', e['n'], None, [None] + a, e)
        seen[e['n']] = seen.get(e['n'], 0) + 1
        t = strip_type(e['t'])
        return T.sym('%s#%d' % (e['n'], seen[e['n']])) if is_scalar_type(t) else None if t == 'void' else \
            Opaque('%s(%s)' % (e['n'], ', '.join(path(x) if isinstance(x, Opaque) else pretty(x) for x in a)), t)
    for c in CUT + ('reinit',):
        I.hooks[c] = cut
    ors = []

    def reduce(I, e, fr):
        a = [mem.val(x, fr) for x in e['a']]
        c = [x for x in a if isinstance(x, Clos)]
        x, y = T.boolsym('left'), T.boolsym('right')
        r = I.call_clos(c[0], [I.new_root(x), I.new_root(y)], fr) if len(c) == 1 else None
        ors.append(isinstance(r, Value) and (r - T.orb(x, y)).is_zero())
        mem.note('call', 'all_reduce', None, [None] + a, e)
        return T.boolapp('all_reduce', a[0], path(a[1]))
    I.hooks['all_reduce'] = reduce
    if 'sparsity_pattern_' not in ' '.join(x['n'] for x in P.class_by_q['ryujin::OfflineData<%d, double>' % dim]['fields']):
        raise AnalysisError('the sparsity pattern of the offline data')
    mem.M.run(f, arguments(I, f), Opaque('od', 'ryujin::OfflineData<%d, double>' % dim))
    ev = [e for e in mem.events if e.kind == 'call']
    # freshness of what is derived from the numbering
    fresh = {'pattern': ZERO, 'relevant': ZERO}
    uses = 0
    strip = lambda p: re.sub(r'[@#].*', '', p or '')
    for e in ev:
        g = e.guard
        used = [strip(path(x)) if isinstance(x, Opaque) else '' for x in e.value if x is not None]
        texts = [str(path(x)) if isinstance(x, Opaque) else pretty(x) if isinstance(x, Value) else '' for x in e.value if x is not None]
        if e.arr == 'create_constraints_and_sparsity_pattern':
            fresh['pattern'] = g + (ONE - g) * fresh['pattern']
            continue
        if any('od.sparsity_pattern_' == u or u.startswith('od.sparsity_pattern_[') or u.startswith('od.affine_constraints_') for u in used) and e.arr not in ('=',):
            uses += 1
            C.ok('%s uses the pattern (%d)' % (e.arr, uses), (g * (ONE - fresh['pattern'])).is_zero(), f, 'fresh', lambda: e)
        if e.arr in RENUMBER:
            fresh['pattern'] = (ONE - g) * fresh['pattern']
            fresh['relevant'] = (ONE - g) * fresh['relevant']
        if e.arr == 'extract_locally_relevant_dofs':
            fresh['relevant'] = g + (ONE - g) * fresh['relevant']
        if e.arr in ('make_shared', ) and 'locally_owned_dofs' in ' '.join(texts):
            C.ok('partition:numbering', (g * (ONE - fresh['relevant'])).is_zero(), f, 'fresh', lambda: e)
    C.ok('uses', uses >= 3, f, 'fresh', lambda: uses)
    after = [e for e in ev if e.arr in RENUMBER]
    part = [e for e in ev if e.arr == 'make_shared' and e.value[1] is not None and 'locally_owned_dofs()' in str(path(e.value[1]))]
    C.ok('one partition', len(part) == 1 and part[0].guard == ONE, f, 'relevant', lambda: part)
    if len(part) != 1:
        return
    C.ok('partition after the last renumbering', max(ev.index(e) for e in after) < ev.index(part[0]), f, 'fresh', lambda: after[-1])
    pv = [path(x) for x in part[0].value[1:]]
    # columns of the pattern
    adds = [e for e in ev if e.arr == 'add_indices']
    one = [e for e in ev if e.arr == 'add_index']
    good = len(adds) == 1 and len(one) == 1 and adds[0].guard == ONE and ev.index(adds[0]) < ev.index(part[0])
    if good:
        rel = strip_at(path(adds[0].value[0]))
        col = one[0].value[1]
        a = atom(col)
        loop = one[0].loops[-1] if one[0].loops else None
        member = T_apps(one[0].guard, 'is_element')
        ok_guard = one[0].guard == ONE or (len(member) == 1 and strip_at(str(member[0].args[0])) == rel and T.lift(member[0].args[1]) == col and
                                           (one[0].guard - (ONE - T.atom_value(member[0]))).is_zero())
        good = strip_at(pv[1]) == rel and a is not None and a.name == 'column' and str(a.args[0]).startswith('od.sparsity_pattern_[iv(0, 0, size(od.sparsity_pattern_)') and \
            ok_guard and strip_at(path(adds[0].value[1])) == strip_at(path(one[0].value[0])) and ev.index(one[0]) < ev.index(adds[0]) and \
            loop is not None and not any(not x.is_zero() for x in loop.breaks)
    C.ok('columns are relevant', good, f, 'relevant', lambda: (adds, one))
    C.ok('owned', 'locally_owned_dofs()' in pv[0] and pv[2] == 'od.mpi_communicator_', f, 'relevant', lambda: pv)
    this = {path(e.value[0]): e for e in ev if e.arr == '='}
    sp = this.get('od.scalar_partitioner_')
    C.ok('scalar partition', sp is not None and sp.guard == ONE and path(sp.value[1]).startswith('make_shared('), f, 'relevant', lambda: sp)
    nr = this.get('od.n_locally_relevant_')
    C.ok('number of relevant', nr is not None and atom(nr.value[1]) is not None and atom(nr.value[1]).name == 'n_elements' and adds and
         strip_at(str(atom(nr.value[1]).args[0])) == strip_at(path(adds[0].value[0])) and ev.index(nr) > ev.index(adds[0]), f, 'relevant', lambda: nr)
    no = this.get('od.n_locally_owned_')
    C.ok('number of owned', no is not None and no.guard == ONE and (no.value[1] - T.app('n_elements', atom(no.value[1]).args[0])).is_zero() and
         str(atom(no.value[1]).args[0]).endswith('.locally_owned_dofs()'), f, 'relevant', lambda: no)
    for what, n in (('hyperbolic', f['params'][0]['n']), ('precomputed', f['params'][1]['n'])):
        e = this.get('od.%s_vector_partitioner_' % what)
        C.ok(what + ' partition', e is not None and sp is not None and e.guard == ONE and ev.index(e) > ev.index(sp) and
             path(e.value[1]) == 'create_vector_partitioner(%s, %s)' % (path(sp.value[1]), n), f, 'relevant', lambda: e)
    # the range with whole groups
    m = [e for e in ev if e.arr == 'matrix reinit']
    pat = [e for e in m if strip_at(path(e.value[0])) == 'od.sparsity_pattern_simd_']
    C.ok('one pattern', len(pat) == 1 and pat[0].guard == ONE, f, 'internal', lambda: pat)
    if len(pat) != 1 or no is None:
        return
    C.ok('pattern arguments', strip_at(path(pat[0].value[2])) == 'od.sparsity_pattern_' and sp is not None and path(pat[0].value[3]) == path(sp.value[1]) and
         ev.index(pat[0]) > ev.index(sp), f, 'internal', lambda: pat)
    N = pat[0].value[1]
    internal = [e for e in ev if e.arr == 'internal_range']
    C.ok('one grouping', len(internal) == 1 and internal[0].guard == ONE and (internal[0].value[3] - W).is_zero() if len(internal) == 1 else False, f, 'internal', lambda: internal)
    N0 = S('internal_range#1')
    later = [e for e in after if internal and ev.index(e) > ev.index(internal[0])]
    good = bool(later)
    for e in later:
        if e.arr not in ('export_indices_first', 'inconsistent_strides_last'):
            good = False
        else:
            n, g = (e.value[3], e.value[4])
            good = good and (n - N0).is_zero() and (g - W).is_zero()
    C.ok('groups are kept', good, f, 'internal', lambda: later)
    fix = [e for e in later if e.arr == 'inconsistent_strides_last']
    reds = [T.atom_value(a) for a in T_apps(N, 'all_reduce')]
    anything = lambda r: bool(T_apps(T.lift(atom(r).args[0]), 'n_constraints'))
    C.ok('repair', len(fix) == 1 and len(reds) == 2, f, 'internal', lambda: (fix, show(N)))
    if len(fix) != 1 or len(reds) != 2:
        return
    # the two questions asked on all processes
    anyc = [r for r in reds if [a for a in T_apps(T.lift(atom(r).args[0]), 'n_constraints')]]
    diff = [r for r in reds if r not in anyc]
    C.ok('questions', len(anyc) == 1 and len(diff) == 1, f, 'internal', lambda: reds)
    if len(anyc) != 1 or len(diff) != 1:
        return
    q1, q2 = T.lift(atom(anyc[0]).args[0]), T.lift(atom(diff[0]).args[0])
    C.ok('asks for constraints', (q1 - T.gt0(T.atom_value(T_apps(q1, 'n_constraints')[0]))).is_zero() or
         (q1 - (ONE - T.eq0(T.atom_value(T_apps(q1, 'n_constraints')[0])))).is_zero(), f, 'internal', lambda: show(q1))
    need = anyc[0] * diff[0]
    C.ok('repaired if needed', (fix[0].guard - need).is_zero(), f, 'internal', lambda: show(fix[0].guard))
    r0, r1 = whole(C, f, mem, W, N0, no.value[1], 'before'), whole(C, f, mem, W, S('inconsistent_strides_last#1'), no.value[1], 'after')
    if r0 is None or r1 is None:
        return
    C.ok('asks for whole groups', (q2 - (ONE - T.eq0(r0 - N0))).is_zero() or (q2 - (ONE - T.eq0(N0 - r0))).is_zero(), f, 'internal', lambda: show(q2))
    C.ok('range', (N - (need * r1 + (ONE - need) * N0)).is_zero(), f, 'internal', lambda: show(N))
    ni = this.get('od.n_locally_internal_')
    C.ok('range is the recorded one', (N - last_value(ev, 'od.n_locally_internal_')).is_zero(), f, 'internal', lambda: ni)
    C.ok('or', ors and all(ors), f, 'internal', lambda: ors)
    C.ok('asked everywhere', all(e.value[2] is not None and path(e.value[2]) == 'od.mpi_communicator_' for e in calls(mem, 'all_reduce')), f, 'internal', lambda: calls(mem, 'all_reduce'))
    # exported rows
    E = last_value(ev, 'od.n_export_indices_')
    E0 = S('export_indices_first#%d' % len([e for e in ev if e.arr == 'export_indices_first']))
    src = path(sp.value[1]) + '.import_indices()'
    over = [L for L in mem.loops if src in sizes(mem, L) and not L.parent]
    over = [L for L in over if any('n_export_indices_' in k for k in L.carried)]
    C.ok('recount', len(over) == 1, f, 'export', lambda: over)
    if len(over) == 1:
        L = over[0]
        p = counted(L, mem, ZERO, T.app('size', src), ONE)
        nm = [k for k in L.carried if 'n_export_indices_' in k][0]
        init, head, end, aft = L.carried[nm]
        lo, hi = T.app('cell', src, '<0>', p) if p is not None else ZERO, T.app('cell', src, '<1>', p) if p is not None else ZERO
        inside = T.gt0(N - lo)
        want = inside * T.vmax(head, T.vmin(hi, N)) + (ONE - inside) * head
        C.ok('recount:all ranges', p is not None and init.is_zero(), f, 'export', lambda: L)
        C.ok('recount:covers', p is not None and same(end, want, [lo, hi, N, head], reds), f, 'export', lambda: 'next %s, required %s' % (pretty(end)[:1500], show(want)))
        up = W * div(aft + (W - 1), W)
        C.ok('export range', (E - (anyc[0] * up + (ONE - anyc[0]) * E0)).is_zero(), f, 'export', lambda: show(E))
    R.count('setups')


def same(a, b, parts, flags):
    """equal under every order of the given quantities, the first two of which are ordered"""
    names = [S('u%d' % k) for k in range(len(parts))]
    for bits in itertools.product((ZERO, ONE), repeat=len(flags)):
        m = dict(zip(flags, bits))
        x, y = T.subst(a, m), T.subst(b, m)
        for q, n in zip(parts, names):
            q = T.subst(q, m)
            (mono, c), = q.t.items()
            if len(mono) != 1 or mono[0][1] != 1:
                raise AnalysisError('a number of rows: ' + show(q))
            x, y = (T.subst(z, {mono[0][0]: n * (ONE / c if isinstance(c, Value) else T.const(1 / c))}) for z in (x, y))
        for ranks in itertools.product(range(len(parts)), repeat=len(parts)):
            if ranks[0] <= ranks[1]:
                v = {n: T.const(10 * r) for n, r in zip(names, ranks)}
                if not (T.subst(x, v) - T.subst(y, v)).is_zero():
                    return False
    return True


def last_value(ev, name):
    """value of a member after all assignments"""
    v = S('?')
    for e in ev:
        if e.arr == '=' and path(e.value[0]) == name and not e.loops:
            v = e.guard * T.lift(e.value[1]) + (ONE - e.guard) * v if e.guard != ONE else T.lift(e.value[1])
    return v


def strip_at(p):
    return re.sub(r'@\d+', '', p or '')


def whole(C, f, mem, W, n, nown, key):
    """first row, rounded down to whole groups, at which the row length changes inside of a group"""
    Ls = [L for L in mem.loops if (L.cond.atoms() and any((L.cond - T.gt0(n - c[1])).is_zero() for c in L.carried.values() if isinstance(c[1], Value)))]
    Ls = Ls[:1]
    C.ok(key + ':scan', len(Ls) == 1, f, 'internal', lambda: [x.line for x in mem.loops])
    if len(Ls) != 1:
        return None
    L = Ls[0]
    i = [(k, c) for k, c in L.carried.items() if isinstance(c[1], Value) and (L.cond - T.gt0(n - c[1])).is_zero()][0]
    nm, (init, head, end, after) = i
    C.ok(key + ':scan:rows', init.is_zero() and (end - head - 1).is_zero(), f, 'internal', lambda: L)
    lens = [a for g in L.breaks for a in T_apps(g, 'row_length')]
    if W == 1:
        C.ok(key + ':scan:never stops', all(g.is_zero() for g in L.breaks), f, 'internal', lambda: L.breaks)
        return after
    ref = [c for k, c in L.carried.items() if k != nm and isinstance(c[1], Value)]
    C.ok(key + ':scan:stops', len(L.breaks) == 1 and len(ref) == 1 and lens, f, 'internal', lambda: L)
    if len(L.breaks) != 1 or len(ref) != 1 or not lens:
        return None
    ln = T.atom_value(lens[0])
    off = T.lift(lens[0].args[1]) - head
    begin = [T.atom_value(a) for a in T_apps(off, 'at')]
    C.ok(key + ':scan:row', str(lens[0].args[0]).startswith('od.sparsity_pattern_') and len(begin) == 1 and
         (off - (ONE - T.eq0(nown)) * begin[0]).is_zero(), f, 'internal', lambda: show(off))
    start = T.eq0(mod(head, W))
    C.ok(key + ':scan:reference', (ref[0][2] - (start * ln + (ONE - start) * ref[0][1])).is_zero(), f, 'internal', lambda: show(ref[0][2]))
    differ = ONE - T.eq0(ref[0][1] - ln)
    g = L.breaks[0]
    # the outer condition is the same in every iteration
    C.ok(key + ':scan:condition', outer_of(g, L.cond * (ONE - start) * differ), f, 'internal', lambda: show(g))
    return W * div(after, W)


def outer_of(g, inner):
    """g = c * inner with a condition c"""
    for a in [None] + [x for x in T_apps(g, 'all_reduce')]:
        c = ONE if a is None else T.atom_value(a)
        if (g - c * inner).is_zero():
            return True
    rs = [T.atom_value(x) for x in T_apps(g, 'all_reduce')]
    c = ONE
    for r in rs:
        c = c * r
    return (g - c * inner).is_zero()


def run(R):
    for r in RULES.values():
        R.rule(r + '.')
    Ps = export.programs([PROBE, W1, W4])
    renumberings(R, Ps[PROBE])
    setup(R, Ps[W4], 4, 2)
    for dim in (1, 2, 3):
        setup(R, Ps[W1], 1, dim)
    R.floor('obligations', 60)
    R.floor('renumberings', 3)
    R.floor('setups', 4)
