"""D05: boundary map and pairs of coupled boundary degrees of freedom"""
from memory import *
from checks.d01 import path, counted
from checks.d03 import T_apps, strip_at
from checks import d04
import export

W1, W4 = ':offline_data.cc', 'probe:offline'
RULES = {
    'visited': 'every cell of the range that is not artificial, every face and every degree of freedom of it is visited once',
    'recorded': 'exactly the owned, not eliminated degrees of freedom with support on a boundary face that is not periodic are recorded',
    'integral': 'normal and boundary mass are the integrals of phi n and phi over the face',
    'merged': 'contributions to one degree of freedom are added up exactly where the type of boundary agrees and the normals enclose an acute angle',
    'kept': 'every contribution is kept: merged into an entry or stored as one',
    'final': 'the entry holds the unit normal and its length, the boundary mass, the type and the position of its degree of freedom',
    'pairs': 'exactly the pairs of an owned boundary degree of freedom and another one in its row are recorded, with their position',
}
S = T.sym
B = T.boolapp


class Tags:
    def __contains__(self, t):
        return t.startswith(('std::multimap', 'std::set', 'std::map', 'std::unordered', 'dealii::FEFaceValues'))


class Ctx:
    def __init__(self, R, key, f):
        self.R, self.key, self.f = R, key, f

    def ok(self, key, cond, rule, detail=''):
        self.R.count('obligations')
        self.R.ok('D05:%s:%s' % (self.key, key), bool(cond), self.f, RULES[rule], detail)


class Map:
    def __init__(self, P, name, dim, W):
        # the range of active cells
        self.f = f = P.one(r'ryujin::OfflineData<%d, double>::%s' % (dim, name), lambda f: 'TriaActiveIterator' in f['key'])
        self.P, self.W, self.dim = P, W, dim
        self.mem = mem = Memory(P)
        mem.tagged, mem.associative = Tags(), True
        mem.lanes = W
        self.out = None
        I = mem.I

        def transform(I, e, fr):
            """std::transform(begin(x), end(x), back_inserter(y), f)"""
            if not e.get('q', '').startswith('std::transform'):
                return NotImplemented
            a = [mem.val(x, fr) for x in e['a']]
            p = [path(x) for x in a[:3]]
            m = [re.fullmatch(r'(?:begin|cbegin)\((.*)\)', p[0] or ''), re.fullmatch(r'(?:end|cend)\((.*)\)', p[1] or ''), re.fullmatch(r'back_inserter\((.*)\)', p[2] or '')]
            if not all(m) or not isinstance(a[3], Clos) or m[0].group(1) != m[1].group(1):
                raise AnalysisError('transform of %s' % p)
            n = a[3].node
            inst = n['inst'][0] if n.get('generic') else n
            lv = mem.cell(strip_at(m[0].group(1)), S('it'), inst['params'][0]['t'].replace('&', '').replace('const std::pair', 'std::pair').strip())
            v = I.call_clos(a[3], [lv], fr)
            if self.out is not None or mem.stack or I.outer[-1] * I.guard != ONE:
                raise AnalysisError('entries made in several places')
            self.out = (m[2].group(1), v, m[0].group(1), S('it'), mem.I)
            return None
        I.hooks['transform'] = transform
        args = [Opaque('begin', self.f['params'][0]['t']), Opaque('end', self.f['params'][1]['t']), Opaque('part', self.f['params'][2]['t'])]
        self.ret = mem.M.run(f, args, Opaque('od', 'ryujin::OfflineData<%d, double>' % dim))
        self.codes = {n: int(v) for n, v in P.enums['ryujin::Boundary']['vals']}

    def pattern(self, name, i):
        self.mem.muted += 1
        r = self.mem.M.run(self.P.one(r'ryujin::SparsityPatternSIMD<%d>::%s' % (self.W, name)), [i], Opaque('od.sparsity_pattern_simd_', 'ryujin::SparsityPatternSIMD<%d>' % self.W))
        self.mem.muted -= 1
        return r

    def visit(self, C, e, artificial):
        """(cell, face, dof, names, guard of the visit)"""
        cells = [(L, c) for L in e.loops for c in L.carried.values() if path(c[0]) == 'begin']
        good = len(cells) == 1 and path(cells[0][1][2]) == 'next(%s)' % path(cells[0][1][1]) and \
            (cells[0][0].cond - (ONE - B('same', 'end', path(cells[0][1][1])))).is_zero() and all(not b.atoms() and b.is_zero() for L in e.loops for b in L.breaks)
        C.ok('cells', good and len(e.loops) == 3, 'visited', lambda: e.loops)
        if not good:
            return None
        cell = path(cells[0][1][1])
        face = dof = None
        for L in e.loops:
            for init, head, end, after in L.carried.values():
                if isinstance(head, Value) and isinstance(init, Value) and init.is_zero() and (end - head - 1).is_zero():
                    for hi in ('size(%s.face_indices())' % cell, 'n_faces(%s)' % cell):
                        if (L.cond - T.gt0(d04.hi_values(hi)[0] - head)).is_zero():
                            face = head
                    if any((L.cond - T.gt0(d04.hi_values(hi)[0] - head)).is_zero() for fv in self.values() for hi in
                           ('od.discretization_.finite_element_.dofs_per_cell', 'dofs_per_cell(od.discretization_.finite_element_)', 'size(%s.dof_indices())' % fv, '%s.dofs_per_cell' % fv)):
                        dof = head
        C.ok('faces and degrees of freedom', face is not None and dof is not None, 'visited', lambda: e.loops)
        if face is None or dof is None:
            return None
        g = artificial(cell)
        for L in e.loops:
            g = g * L.cond
        fc = '%s.face(%s)' % (cell, pretty(face))
        self.id = [a for a in T_apps(e.guard, 'boundary_id')]
        bid = T.app('boundary_id', fc)
        g = g * B('at_boundary', fc) * (ONE - T.eq0(bid - self.codes['periodic'])) * B('has_support_on_face', 'od.discretization_.finite_element_', dof, face)
        return cell, face, dof, bid, g

    def values(self):
        r = ['#none']
        for e in self.mem.events:
            if e.kind == 'call' and e.arr == 'reinit' and path(e.value[0]) and '#' in path(e.value[0]):
                r += ['%s@%d' % (strip_at(path(e.value[0])), k) for k in (1, 2)] + [strip_at(path(e.value[0]))]
        return r

    def index(self, C, e, v, cell, dof):
        """the number of the degree of freedom, as the partitioner knows it"""
        a = T_apps(v, 'global_to_local')
        good = len(a) == 1 and (v - T.atom_value(a[0])).is_zero() and str(a[0].args[0]) == 'part'
        c = T_apps(v, 'cell')
        good = good and len(c) == 1 and a[0].args[1] == T.atom_value(c[0]) and T.lift(c[0].args[-1]) == dof
        if good:
            arr = strip_at(str(c[0].args[0]))
            get = [x for x in self.mem.events if x.kind == 'call' and x.arr in ('get_active_or_mg_dof_indices', 'get_dof_indices') and strip_at(path(x.value[1])) == arr]
            good = len(get) == 1 and path(get[0].value[0]) == cell and len(get[0].loops) == 1 and d04.nil(e.guard * (ONE - get[0].guard))
        C.ok('index', good, 'recorded', lambda: show(v))


def boundary(R, P, dim, W):
    m = Map(P, 'construct_boundary_map', dim, W)
    mem = m.mem
    C = Ctx(R, 'boundary map:%d lanes:dim %d' % (W, dim), m.f)
    ev = mem.events
    ins = [e for e in ev if e.kind == 'call' and e.arr in ('insert', 'emplace')]
    pre = [e for e in ins if any(path(c[0]) == 'begin' for L in e.loops for c in L.carried.values())]
    fil = [e for e in ins if e not in pre]
    C.ok('two stages', len(pre) == 1 and len(fil) == 1, 'recorded', lambda: ins)
    if len(pre) != 1 or len(fil) != 1:
        return
    e = pre[0]
    source, target = strip_at(path(e.value[0])), strip_at(path(fil[0].value[0]))

    def real(cell):
        act, art, lvl = B('is_active', cell), B('is_artificial', cell), B('is_artificial_on_level', cell)
        return ONE - act * art - (ONE - act) * lvl
    v = m.visit(C, e, real)
    if not v:
        return
    cell, face, dof, bid, g = v
    ent = e.value[1] if len(e.value) == 2 else Arr(list(e.value[1:]), '')
    idx, data = ent.e
    m.index(C, e, idx, cell, dof)
    rl = m.pattern('row_length', idx)
    g = g * T.gt0(S('od.n_locally_owned_') - idx) * (ONE - T.eq0(rl - 1))
    C.ok('recorded', d04.nil(e.guard - g), 'recorded', lambda: (show(e.guard), show(g)))
    # -- the values
    r = [x for x in ev if x.kind == 'call' and x.arr == 'reinit' and '#' in (path(x.value[0]) or '')]
    fv = strip_at(path(r[0].value[0])) if r else ''
    made = re.sub(r',\s*', ',', mem.made.get(fv, ''))
    C.ok('face values', len(r) == 1 and path(r[0].value[1]) == cell and T.lift(r[0].value[2]) == face and d04.nil(e.guard * (ONE - r[0].guard)) and r[0].loops == e.loops[:2] and
         ev.index(r[0]) < ev.index(e), 'integral', lambda: r)
    C.ok('face values:made', 'od.discretization_.mapping_,od.discretization_.finite_element_,' in made and 'Gauss' in made or 'face_quadrature_' in made, 'integral', lambda: made)
    C.ok('face values:flags', {1, 64, 128} <= d04.flag_bits(made.split('Gauss')[-1].split('face_quadrature_')[-1]), 'integral', lambda: made)
    sums = {}
    for L in mem.loops:
        q = None
        for init, head, end, after in L.carried.values():
            if isinstance(head, Value) and isinstance(init, Value) and init.is_zero() and (end - head - 1).is_zero() and \
                    any((L.cond - T.gt0(d04.hi_values(h.format(x))[0] - head)).is_zero() for x in m.values() for h in ('size({0}.quadrature_point_indices())', '{0}.n_quadrature_points')):
                q = head
        if q is not None and all(b.is_zero() for b in L.breaks):
            for init, head, end, after in L.carried.values():
                if isinstance(after, Value) and isinstance(end, Value):
                    # where the entry is recorded
                    sums[T.keyof(after)] = (init, under(end - head, e.guard * L.cond), q)
    phi = lambda q: T.app('shape_value', fv, dof, q) * T.app('JxW', fv, q)

    def integral(x, k=None):
        s = sums.get(T.keyof(x)) if isinstance(x, Value) else None
        if s is None or not (isinstance(s[0], Value) and s[0].is_zero()):
            return False
        want = phi(s[2]) if k is None else phi(s[2]) * T.app('normal', fv, k, s[2])
        return (d04.named(s[1], dim) - want).is_zero()
    parts = list(data.e) if isinstance(data, Arr) else []
    # -- the entries made of it
    out = m.out
    if out is None:
        app = [x for x in ev if x.kind == 'append' and path(m.ret) == x.arr]
        if len(app) != 1 or len(app[0].loops) != 1:
            raise AnalysisError('entries of the boundary map not found')
        x = app[0]
        i = counted(x.loops[0], mem, ZERO, T.app('size', [str(a.args[0]) for a in T_apps(x.loops[0].cond, 'size')][0]), ONE)
        out = (x.arr, (x.value if not isinstance(x.value, (list, tuple)) else x.value[0] if len(x.value) == 1 else Arr(list(x.value), '')), [str(a.args[0]) for a in T_apps(x.loops[0].cond, 'size')][0], i, None)
        C.ok('final:all', i is not None and (x.guard - x.loops[0].cond).is_zero(), 'final', lambda: x)
    C.ok('final:map', out[0] == path(m.ret) and strip_at(out[2]) == target, 'final', lambda: out)
    w = lambda name, o=out: T.app('cell', o[2], name, o[3])
    ref = lambda t: [a for a in T_apps(t, 'cell') if strip_at(str(a.args[0])) == target]
    fin = list(out[1].e) if isinstance(out[1], Arr) else []
    C.ok('final:form', len(fin) == 6 and isinstance(fin[1], Arr) and isinstance(fin[5], Arr), 'final', lambda: out[1])
    if len(fin) != 6:
        return
    pos = {}

    def slot(key, t, sub=''):
        """position in the intermediate entry a value is taken from unchanged"""
        a = ref(t)
        mt = re.fullmatch(r'<1><(\d)>' + sub, str(a[0].args[1])) if len(a) == 1 and (t - T.atom_value(a[0])).is_zero() and T.lift(a[0].args[-1]) == out[3] else None
        C.ok('final:' + key, mt, 'final', lambda: show(t))
        if mt:
            pos[key] = int(mt.group(1))
    a = ref(fin[0])
    C.ok('final:index', len(a) == 1 and str(a[0].args[1]) == '<0>' and (fin[0] - T.atom_value(a[0])).is_zero() and T.lift(a[0].args[-1]) == out[3], 'final', lambda: fin[0])
    slot('boundary mass', fin[3])
    slot('id', fin[4])
    for k in range(dim):
        slot('position %d' % k, fin[5].e[k], r'\[%d\]' % k)
    nn = {re.fullmatch(r'<1><(\d)>\[\d\]', str(x.args[1])).group(1) for x in ref(fin[2]) if re.fullmatch(r'<1><(\d)>\[\d\]', str(x.args[1]))}
    good = len(nn) == 1 and len(ref(fin[2])) == dim
    if good:
        pos['normal'] = int(list(nn)[0])
        n = [T.app('cell', str(ref(fin[2])[0].args[0]), '<1><%d>[%d]' % (pos['normal'], k), out[3]) for k in range(dim)]
        n2 = ZERO
        for x in n:
            n2 = n2 + x * x
        eps = [T.atom_value(x) for x in fin[2].deep_atoms() if x.name == 'eps']
        length = T.power(n2, T.const(1) / 2)
        small = len(eps) == 1 and (fin[2] - length - eps[0]).is_zero()
        C.ok('final:normal mass', small or (fin[2] - length).is_zero(), 'final', lambda: show(fin[2]))
        for k in range(dim):
            C.ok('final:normal %d' % k, (fin[1].e[k] * fin[2] - n[k]).is_zero(), 'final', lambda: show(fin[1].e[k]))
    else:
        C.ok('final:normal', False, 'final', lambda: show(fin[2]))
        return
    if not all(k in pos for k in ('boundary mass', 'id', 'position 0')):
        return
    C.ok('integral:normal', isinstance(parts[pos['normal']], Arr) and all(integral(parts[pos['normal']].e[k], k) for k in range(dim)), 'integral', lambda: (parts, sums))
    C.ok('integral:boundary mass', integral(parts[pos['boundary mass']]), 'integral', lambda: (parts, sums))
    C.ok('recorded:id', isinstance(parts[pos['id']], Value) and (parts[pos['id']] - bid).is_zero(), 'recorded', lambda: parts)
    pt = [x for x in ev if x.kind == 'call' and x.arr == 'transform_unit_to_real_cell']
    sup = [a for x in pt for t in d04_flat(x.value[-1]) for a in T_apps(t, 'cell')]
    C.ok('recorded:position', len(pt) == 1 and cell in (path(pt[0].value[1]) or '') and path(pt[0].value[0]) == 'od.discretization_.mapping_' and len(sup) == dim and
         all(str(a.args[0]) == 'od.discretization_.finite_element_.get_unit_support_points()' and T.lift(a.args[-1]) == dof for a in sup) and
         all(len(T_apps(t, 'transform_unit_to_real_cell')) + len([a for a in t.atoms() if a.name.startswith('transform_unit_to_real_cell')]) >= 1 for t in parts[pos['position 0']].e), 'recorded', lambda: (pt, parts))
    merge(C, m, ev, fil[0], source, target, pos, dim)


def d04_flat(x):
    return [z for y in x.e for z in d04_flat(y)] if isinstance(x, Arr) else [x] if isinstance(x, Value) else []


def under(v, g):
    """a value where a condition holds"""
    for a in T.bools(v):
        x = T.atom_value(a)
        if (g * (ONE - x)).is_zero():
            v = T.subst(v, {x: ONE})
        elif (g * x).is_zero():
            v = T.subst(v, {x: ZERO})
    return v


def merge(C, m, ev, ins, source, target, pos, dim):
    mem = m.mem
    ok = len(ins.loops) == 1
    i = counted(ins.loops[0], mem, ZERO, T.app('size', source), ONE) if ok else None
    if i is None and ok:
        for c in ins.loops[0].carried.values():
            if isinstance(c[1], Value) and any((ins.loops[0].cond - T.gt0(T.app('size', s) - c[1])).is_zero() for s in [str(a.args[0]) for a in T_apps(ins.loops[0].cond, 'size')] if strip_at(s) == source) and \
                    (c[2] - c[1] - 1).is_zero() and c[0].is_zero():
                i = c[1]
    C.ok('every contribution', i is not None and all(b.is_zero() for b in ins.loops[0].breaks), 'kept', lambda: ins)
    if i is None:
        return
    L4 = ins.loops[0]
    inner = [L for L in mem.loops if L.parent is L4 and any('.equal_range(' in (path(c[0]) or '') for c in L.carried.values())]
    C.ok('same degree of freedom', len(inner) == 1, 'merged', lambda: mem.loops)
    if len(inner) != 1:
        return
    L5 = inner[0]
    key = lambda s: T.app('cell', srcname, s, i)
    srcname = [str(a.args[0]) for t in d04_flat(ins.value[1]) for a in T_apps(t, 'cell') if strip_at(str(a.args[0])) == source]
    srcname = srcname[0] if srcname else source
    it = [c for c in L5.carried.values() if '.equal_range(' in (path(c[0]) or '')][0]
    p0 = path(it[0])
    want = '%s.equal_range(%s)' % (target, pretty(key('<0>')))
    hd = path(it[1])
    base = it[2].base if isinstance(it[2], Struct) else it[2]
    C.ok('entries of the same degree of freedom', strip_at(p0) == want + '<0>' and path(base) == 'next(%s)' % hd and all(b.is_zero() for b in L5.breaks) and
         strip_at(pretty(L5.cond)) in [strip_at(pretty(ONE - B('same', x, y))) for x, y in ((want + '<1>', hd), (hd, want + '<1>'))], 'merged', lambda: (p0, base, show(L5.cond)))
    wr = [e for e in ev if e.kind == 'call' and e.arr == '=' and (path(e.value[0]) or '').startswith(hd + '.second[') and L5 in e.loops]
    byslot = {}
    for e in wr:
        mt = re.fullmatch(re.escape(hd) + r'\.second\[(\d)\](?:\[(\d)\])?', path(e.value[0]))
        byslot.setdefault(int(mt.group(1)) if mt else -1, []).append(e)
    nrm, mass = byslot.pop(pos['normal'], []), byslot.pop(pos['boundary mass'], [])
    ids = byslot.pop(pos['id'], [])
    C.ok('merged:nothing else', not byslot, 'merged', lambda: byslot)
    C.ok('merged:both', len(nrm) == 1 and len(mass) == 1 and len(nrm[0].value) == 2, 'merged', lambda: (nrm, mass))
    if len(nrm) != 1 or len(mass) != 1:
        return
    fld = lambda k, c=None: mem.I.symbolic('double', '%s.second[%d]%s' % (hd, k, '' if c is None else '[%d]' % c))
    delta = [nrm[0].value[1].e[k] - fld(pos['normal'], k) for k in range(dim)] if isinstance(nrm[0].value[1], Arr) else []
    new = [key('<1><%d>[%d]' % (pos['normal'], k)) for k in range(dim)]
    C.ok('merged:normal', len(delta) == dim and all((a - b).is_zero() for a, b in zip(delta, new)), 'merged', lambda: nrm)
    C.ok('merged:boundary mass', (mass[0].value[1] - fld(pos['boundary mass']) - key('<1><%d>' % pos['boundary mass'])).is_zero(), 'merged', lambda: mass)
    # the type of the contribution, which the loop may have changed
    idc = [c for c in L5.carried.values() if isinstance(c[0], Value) and c[0] == key('<1><%d>' % pos['id'])]
    nid = idc[0][1] if idc else key('<1><%d>' % pos['id'])
    o = [fld(pos['normal'], k) for k in range(dim)]
    dot, n1, n2 = ZERO, ZERO, ZERO
    for a, b in zip(o, new):
        dot, n1, n2 = dot + a * b, n1 + a * a, n2 + b * b
    half = T.const(1) / 2
    sameid = T.eq0(fld(pos['id']) - nid)
    near = T.gt0(dot * T.power(n1, -half) * T.power(n2, -half) - half)
    g = L4.cond * L5.cond * sameid * near
    for e in (nrm[0], mass[0]):
        C.ok('merged:where:%d' % (e is mass[0]), d04.nil(e.guard - g), 'merged', lambda: (show(e.guard), show(g)))
    # marked as merged
    flag = [c for nm, c in L5.carried.items() if isinstance(c[1], Value) and T.keyof(c[3]) in {T.keyof(T.atom_value(a)) for b in T.bools(ins.guard) for x in ((T.atom_value(b),) + tuple(b.args)) if isinstance(x, Value) for a in x.atoms()}]
    good = len(flag) == 1 and flag[0][0].is_zero()
    if good:
        init, head, end, after = flag[0]
        good = d04.nil(under(end, g) - 1) and d04.nil((end - head) * (L4.cond * L5.cond) * (ONE - sameid * near)) and \
            d04.nil(T.subst(ins.guard, {after: ZERO}) - L4.cond) and d04.nil(T.subst(ins.guard, {after: ONE}))
    C.ok('kept', good, 'kept', lambda: (flag, show(ins.guard)))
    ent = d04_flat(ins.value[1])
    # stored as it is, apart from the type
    stored = ins.value[1]
    good = isinstance(stored, Arr) and (stored.e[0] - key('<0>')).is_zero()
    names = {}
    if good:
        for k, t in enumerate(stored.e[1].e):
            for c, x in enumerate(d04_flat(t)):
                names[(k, c)] = x
        for (k, c), x in names.items():
            w = '<1><%d>' % k + ('[%d]' % c if isinstance(stored.e[1].e[k], Arr) else '')
            if k == pos['id']:
                good = good and ((x - key(w)).is_zero() or (idc and (x - idc[0][3]).is_zero()))
            else:
                good = good and (x - key(w)).is_zero()
    C.ok('stored', good, 'kept', lambda: stored)
    # the type of boundary changes only where two planes of a slip boundary meet in 2D
    slip, noslip = m.codes['slip'], m.codes['no_slip']
    if dim == 2:
        gg = L4.cond * L5.cond * sameid * (ONE - near) * T.eq0(nid - slip)
        good = len(ids) == 1 and d04.nil(ids[0].guard - gg) and (T.lift(ids[0].value[1]) - noslip).is_zero() and len(idc) == 1 and \
            d04.nil(under(idc[0][2], gg) - noslip) and d04.nil((idc[0][2] - idc[0][1]) * L4.cond * L5.cond * (ONE - gg))
        C.ok('type', good, 'merged', lambda: (ids, idc))
    else:
        C.ok('type', not ids and not idc, 'merged', lambda: (ids, idc))


def pairs(R, P, dim, W):
    m = Map(P, 'collect_coupling_boundary_pairs', dim, W)
    mem = m.mem
    C = Ctx(R, 'pairs:%d lanes:dim %d' % (W, dim), m.f)
    ev = mem.events
    ins = [e for e in ev if e.kind == 'call' and e.arr in ('insert', 'emplace')]
    app = [e for e in ev if e.kind == 'append' and path(m.ret) == e.arr]
    C.ok('two stages', len(ins) == 1 and len(app) == 1, 'pairs', lambda: (ins, app))
    if len(ins) != 1 or len(app) != 1:
        return
    e = ins[0]
    source = strip_at(path(e.value[0]))
    v = m.visit(C, e, lambda cell: ONE - B('is_artificial', cell))
    if not v:
        return
    cell, face, dof, bid, g = v
    idx = e.value[1]
    m.index(C, e, idx, cell, dof)
    g = g * T.gt0(S('od.n_locally_relevant_') - idx)
    C.ok('recorded', d04.nil(e.guard - g), 'recorded', lambda: (show(e.guard), show(g)))
    # -- pairs
    e = app[0]
    val = e.value if not isinstance(e.value, list) or len(e.value) != 1 else e.value[0]
    val = val.e if isinstance(val, Arr) else list(val.f.values()) if isinstance(val, Struct) else val
    good = len(e.loops) == 2 and len(val) == 3
    C.ok('pairs:form', good, 'pairs', lambda: e)
    if not good:
        return
    L1, L2 = e.loops
    i = val[0]
    a = T_apps(i, 'cell')
    good = len(a) == 1 and (i - T.atom_value(a[0])).is_zero() and strip_at(str(a[0].args[0])) == source and counted(L1, mem, ZERO, T.app('size', str(a[0].args[0])), ONE) is not None and \
        T.lift(a[0].args[-1]) == counted(L1, mem, ZERO, T.app('size', str(a[0].args[0])), ONE)
    C.ok('pairs:every degree of freedom', good, 'pairs', lambda: (i, L1))
    rl = m.pattern('row_length', i)
    inside = T.gt0(S('od.n_locally_internal_') - i)

    def norm(v):
        # the pattern was made with the same number of vectorised rows
        return T.subst(v, {S('od.sparsity_pattern_simd_.n_internal_dofs'): S('od.n_locally_internal_')})
    col = None
    for init, head, end, after in L2.carried.values():
        if isinstance(head, Value) and isinstance(init, Value) and init == ONE and (end - head - 1).is_zero() and (norm(L2.cond) - norm(T.gt0(rl - head))).is_zero():
            col = head
    C.ok('pairs:every column', col is not None and all(b.is_zero() for L in (L1, L2) for b in L.breaks), 'pairs', lambda: (L2, show(rl)))
    if col is None:
        return
    C.ok('pairs:position', (val[1] - col).is_zero(), 'pairs', lambda: val)
    js = m.pattern('columns', i)
    at = js + col * (inside * W + ONE - inside)
    j = val[2]
    d = T_apps(j, 'deref') + T_apps(j, 'cell')
    good = False
    for side in (1, 0):
        def fix(v):
            return T.subst(norm(v), {inside: T.const(side)})
        x = fix(j)
        ds = [b for b in x.atoms()]
        good = len(ds) == 1 and (x - T.atom_value(ds[0])).is_zero() and ds[0].kind == 'app' and ds[0].name.split('#')[0] in ('deref', 'cell')
        if good:
            if ds[0].name.startswith('deref'):
                p = fix(T.lift(ds[0].args[0]))
            else:
                p = S('P:' + str(ds[0].args[0])) + T.lift(ds[0].args[-1])
            good = (p - fix(at)).is_zero()
        C.ok('pairs:column:%d' % side, good, 'pairs', lambda: (show(x), show(at)))
    inset = [b for b in T.bools(e.guard) if b.name in ('count', 'contains')]
    inset += [c for b in T.bools(e.guard) for x in b.args if isinstance(x, Value) for c in x.atoms() if c.name in ('count', 'contains')]
    good = len(inset) == 1 and strip_at(str(inset[0].args[0])) == source and norm(T.lift(inset[0].args[1])) == norm(j)
    if good:
        both = []
        for k in (0, 1):
            gg = T.subst(e.guard, {T.atom_value(inset[0]): T.const(k)})
            want = L1.cond * L2.cond * T.gt0(S('od.n_locally_owned_') - i) * (ONE - T.eq0(rl - 1)) * k
            both.append(d04.nil(norm(gg - want)))
        good = all(both)
    C.ok('pairs:where', good, 'pairs', lambda: (inset, show(e.guard)))


def run(R):
    for r in RULES.values():
        R.rule(r + '.')
    ps = export.programs([W1, W4])
    d04.Ctx.kinds = {n: int(v) for n, v in ps[W1].enums['ryujin::Ansatz']['vals']}
    for tu, W, dims in ((W1, 1, (1, 2, 3)), (W4, 4, (2,))):
        for dim in dims:
            boundary(R, ps[tu], dim, W)
            pairs(R, ps[tu], dim, W)
    R.floor('obligations', 100)
