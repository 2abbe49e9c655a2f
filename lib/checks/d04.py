"""D04: assembly of the matrices"""
from memory import *
from checks.d01 import path, events, counted, appargs, atom
from checks.d03 import T_apps, calls, strip_at
import export

TU = ':offline_data.cc'
RULES = {
    'cell': 'a local matrix gets the contribution of every quadrature point, row and column once, with the prescribed integrand',
    'face': 'every face with a neighbour that is not artificial, and no other, contributes to both sides',
    'clean': 'what is accumulated starts from zero in every cell',
    'place': 'finite element values belong to the cell and face whose contribution is computed',
    'sum': 'the contribution of every locally owned cell enters the global matrix once, at its degrees of freedom',
    'final': 'the matrices in use are filled from the completed global matrices and synchronised afterwards',
    'lumped': 'the lumped mass matrix is the mass matrix applied to one, its inverse the inverse',
    'element': 'the finite element is the one chosen, with quadratures of its degree',
    'incidence': 'coinciding degrees of freedom on both sides of a face are coupled with the prescribed weight',
}
S = T.sym
B = T.boolapp


def counts(x, a):
    """a number of entries is not negative"""
    if x.name in ('gt0', 'ge0') and len(a) == 1 and isinstance(a[0], Value):
        for s, r in ((a[0], 0), (-a[0], 1)):
            at = list(s.atoms())
            if len(at) == 1 and at[0].name == 'size' and (s - T.atom_value(at[0])).is_zero():
                z = T.eq0(s)
                return {('gt0', 0): ONE - z, ('ge0', 0): ONE, ('gt0', 1): ZERO, ('ge0', 1): z}[x.name, r]
    return None


def nil(v):
    """zero for every kind of finite element"""
    v = T.rewrite(T.lift(v), counts)
    return v.is_zero() or all(T.subst(v, {S('od.discretization_.ansatz_'): T.const(c)}).is_zero() for c in sorted(set(Ctx.kinds.values())))


class Ctx:
    def __init__(self, R, key):
        self.R, self.key = R, key

    def ok(self, key, cond, f, rule, detail=''):
        self.R.count('obligations')
        self.R.ok('D04:%s:%s' % (self.key, key), bool(cond), f, RULES[rule], detail)


def analyse(P, dim):
    f = P.one(r'ryujin::OfflineData<%d, double>::assemble' % dim)
    mem = Memory(P)
    I = mem.I
    mem.tagged = {'dealii::TrilinosWrappers::SparseMatrix', 'dealii::LinearAlgebra::distributed::Vector<double, dealii::MemorySpace::Host>',
                  'dealii::AffineConstraints<double>', 'dealii::TrilinosWrappers::SparsityPattern'}
    runs = []

    def work(I, e, fr):
        if 'WorkStream' not in e.get('q', ''):
            return NotImplemented
        a = [mem.val(x, fr) for x in e['a']]
        cl = [x for x in a if isinstance(x, Clos)]
        if len(cl) != 2:
            raise AnalysisError('work stream with %d functions' % len(cl))
        mem.note('call', 'work stream', None, a, e)
        W = {'guard': mem.events[-1].guard, 'args': a, 'at': len(mem.events)}
        for key, c in zip(('worker', 'copier'), cl):
            n = c.node
            inst = n['inst'][0] if n.get('generic') else n
            start, nl = len(mem.events), len(mem.loops)
            for x in [x for x in I.store if isinstance(x, tuple) and x[0] in ('size', 'mem', 'mver', 'ver') and str(x[1]).startswith(('copy', 'scratch'))]:
                del I.store[x]
            args, names = [], []
            for k, p in enumerate(inst['params']):
                t = strip_type(p['t']).replace('const ', '').rstrip(' &')
                nm = ('cell', 'scratch', 'copy')[k] if key == 'worker' else 'copy'
                r = I.new_root(Opaque(nm, t))
                mem.names[r[0]] = nm
                args.append(r)
            I.call_clos(c, args, fr)
            W[key] = mem.events[start:]
            W[key + ' loops'] = mem.loops[nl:]
            W[key + ' span'] = (start, len(mem.events))
        W['scratch'] = [x for x in a if isinstance(x, Struct) and 'ScratchData' in x.t]
        runs.append(W)
        return None
    I.hooks['run'] = work

    def whole(I, e, fr):
        if not any(c in e.get('cls', '') for c in ('SparseMatrixSIMD',)):
            return NotImplemented
        mem.note('call', e['n'], None, [Opaque(mem.arrpath(e['b'], fr))] + [mem.val(x, fr) for x in e['a']], e)
        return None
    I.hooks['read_in'] = I.hooks['update_ghost_rows'] = whole
    for c in ('construct_boundary_map', 'collect_coupling_boundary_pairs'):
        I.hooks[c] = lambda I, e, fr: Opaque('%s(%s)' % (e['n'], ', '.join(path(mem.val(x, fr)) or '?' for x in e['a'])), e['t'])
    mem.M.run(f, [], Opaque('od', 'ryujin::OfflineData<%d, double>' % dim))
    g = P.one(r'ryujin::Discretization<%d>::have_discontinuous_ansatz' % dim)
    dg = Memory(P).M.run(g, [], Opaque('od.discretization_', 'ryujin::Discretization<%d>' % dim))
    return f, mem, runs, dg


def seen(text):
    """members without versions"""
    return strip_at(re.sub(r'(?<=.)#.*', '', text or ''))


BOUNDS = {'dof': ('size({0}.dof_indices())', '{0}.dofs_per_cell', 'od.discretization_.finite_element_.dofs_per_cell', 'dofs_per_cell(od.discretization_.finite_element_)'),
          'q': ('size({0}.quadrature_point_indices())', '{0}.n_quadrature_points', 'size({0}.get_JxW_values())'), 'face': ('size(cell.face_indices())', 'n_faces(cell)')}


def bound(L, kind, names):
    """index of a loop over all entries of a kind"""
    for nm, (init, head, end, after) in L.carried.items():
        if isinstance(head, Value) and isinstance(init, Value) and init.is_zero() and (end - head - 1).is_zero() and all(g.is_zero() for g in L.breaks):
            for fv in names:
                for b in BOUNDS[kind]:
                    hi = b.format(fv)
                    for a in hi_values(hi):
                        if (L.cond - T.gt0(a - head)).is_zero():
                            return head
    return None


def hi_values(text):
    m = re.fullmatch(r'(\w+)\((.*)\)', text)
    if m:
        return [T.app(m.group(1), m.group(2))]
    return [T.sym(text)]


def contribution(C, mem, f, e, faces):
    """(i, j, q, face, what is added, names of the finite element values)"""
    key = seen(e.arr)
    ij = appargs(e.idx, 'ij')
    old = [a for a in T_apps(e.value, 'cell') if seen(str(a.args[0])) == seen(e.arr) and T.keyof(a.args[-1]) == T.keyof(e.idx)]
    if ij is None or len(old) != 1:
        C.ok(key + ':accumulated', False, f, 'cell', lambda: e)
        return None
    delta = e.value - T.atom_value(old[0])
    names = sorted({str(a.args[0]) for n in ('JxW', 'shape_value', 'shape_grad', 'quadrature_point_indices') for a in T_apps(delta, n)} |
                   {n for L in e.loops for n in re.findall(r'(scratch\.\w+(?:@\d+)?)\.(?:dof_indices|quadrature_point_indices)', pretty(L.cond))})
    found = {}
    for L in e.loops:
        for kind in ('dof', 'q', 'face'):
            h = bound(L, kind, names)
            if h is not None:
                found.setdefault(kind, []).append((h, L))
    good = len(found.get('dof', [])) == 2 and len(found.get('q', [])) == 1 and len(found.get('face', [])) == faces and len(e.loops) == 3 + faces
    hs = {h.fp for h, L in found.get('dof', [])}
    C.ok(key + ':loops', good and {T.lift(ij[0]).fp, T.lift(ij[1]).fp} == hs and len(hs) == 2, f, 'cell', lambda: (e, e.loops))
    if not good or len(hs) != 2:
        return None
    conds = ONE
    for L in e.loops:
        conds = conds * L.cond
    return T.lift(ij[0]), T.lift(ij[1]), found['q'][0][0], found['face'][0][0] if faces else None, delta, names, conds


def named(v, dim):
    """normal vectors and values under one name, without versions"""
    def fn(x, a):
        if x.kind == 'app':
            if x.name == 'cell' and str(a[0]).endswith('.get_normal_vectors()'):
                m = re.search(r'\[(\d)\]', str(a[1]))
                return T.app('normal', seen(str(a[0])[:-len('.get_normal_vectors()')]), int(m.group(1)), a[-1])
            m = re.fullmatch(r'normal_vector\[(\d)\]', x.name)
            if m:
                return T.app('normal', seen(str(a[0])), int(m.group(1)), a[-1])
            if x.name in ('JxW', 'shape_value') or x.name.startswith('shape_grad['):
                return T.app(x.name, seen(str(a[0])), *a[1:])
        return None
    return T.rewrite(v, fn)


def value(fv, i, q):
    return T.app('shape_value', fv, i, q)


def reinits(ev, fv):
    return [e for e in ev if e.kind == 'call' and e.arr == 'reinit' and seen(path(e.value[0]) or '') == fv]


def zeroed(C, mem, f, W, name, before, guard):
    """the local matrix is zero before the first contribution"""
    ev = W['worker']
    z = [e for e in ev if not e.loops and ((e.kind == 'fill' and seen(e.arr) == name and T.lift(e.value).is_zero()) or
                                            (e.kind == 'call' and e.arr == 'reinit' and seen(path(e.value[0]) or '') == name and
                                             (len(e.value) < 4 or T.lift(e.value[3]).is_zero())))]
    good = any(ev.index(e) < before and nil(guard * (ONE - e.guard)) for e in z)
    C.ok(name + ':zero', good, f, 'clean', lambda: z or ev[:3])


def assembly(R, P, dim):
    C = Ctx(R, 'dim %d' % dim)
    f, mem, runs, dg = analyse(P, dim)
    C.ok('two passes', len(runs) == 2 and runs[0]['guard'] == ONE and nil(runs[1]['guard'] - dg), f, 'sum', lambda: [W['guard'] for W in runs])
    if len(runs) != 2:
        return
    kinds = {n: int(v) for n, v in P.enums['ryujin::Ansatz']['vals']}
    want = ZERO
    for nm, v in kinds.items():
        if nm.startswith('dg_'):
            want = want + T.eq0(S('od.discretization_.ansatz_') - v)
    codes = sorted(set(kinds.values()))
    C.ok('discontinuous', all((T.subst(dg - want, {S('od.discretization_.ansatz_'): T.const(v)})).is_zero() for v in codes), f, 'face', lambda: show(dg))
    for W in runs:
        a = W['args']
        C.ok('cells:%d' % runs.index(W), path(a[0]) is not None and path(a[0]).startswith('od.dof_handler_.begin_active(') and 'od.dof_handler_.end()' in path(a[1]), f, 'sum', lambda: a[:2])
        own(C, f, W, runs.index(W))
    owned = B('is_locally_owned', 'cell')
    W = runs[0]
    ev = W['worker']
    writes = [e for e in ev if e.kind == 'write']
    ix = lambda e: ev.index(e)
    # cells
    fv = 'scratch.fe_values_'
    mass = [e for e in writes if seen(e.arr) == 'copy.cell_mass_matrix_']
    C.ok('mass:one term', len(mass) == 1, f, 'cell', lambda: mass)
    for e in mass:
        c = contribution(C, mem, f, e, 0)
        if c:
            i, j, q, _, d, names, conds = c
            C.ok('mass:integrand', (named(d, dim) - value(fv, i, q) * value(fv, j, q) * T.app('JxW', fv, q)).is_zero(), f, 'cell', lambda: show(d))
            C.ok('mass:every cell', nil(e.guard - owned * conds), f, 'cell', lambda: show(e.guard))
            zeroed(C, mem, f, W, 'copy.cell_mass_matrix_', ix(e), owned)
    used = {}
    for k in range(dim):
        nm = 'copy.cell_cij_matrix_[%d]' % k
        cs = [e for e in writes if seen(e.arr) == nm]
        vol, fac = [e for e in cs if len(e.loops) == 3], [e for e in cs if len(e.loops) == 4]
        C.ok('c%d:terms' % k, len(vol) == 1 and len(fac) == 1 and len(cs) == 2, f, 'cell', lambda: cs)
        for e in vol:
            c = contribution(C, mem, f, e, 0)
            if c:
                i, j, q, _, d, names, conds = c
                C.ok('c%d:integrand' % k, (named(d, dim) - value(fv, i, q) * T.app('shape_grad[%d]' % k, fv, j, q) * T.app('JxW', fv, q)).is_zero(), f, 'cell', lambda: show(d))
                C.ok('c%d:every cell' % k, nil(e.guard - owned * conds), f, 'cell', lambda: show(e.guard))
                zeroed(C, mem, f, W, nm, ix(e), owned)
        for e in fac:
            c = contribution(C, mem, f, e, 1)
            if c:
                i, j, q, face, d, names, conds = c
                used.setdefault('own', []).append((e, face, conds))
                ff = 'scratch.fe_face_values_'
                C.ok('c%d:face:integrand' % k, (named(d, dim) + value(ff, i, q) * value(ff, j, q) * T.app('JxW', ff, q) * T.app('normal', ff, k, q) / 2).is_zero(),
                     f, 'face', lambda: show(d))
        ws = [e for e in writes if re.fullmatch(r'copy\.interface_cij_matrix_\[.*\]\[%d\]' % k, seen(e.arr))]
        C.ok('c%d:coupling:one term' % k, len(ws) == 1, f, 'face', lambda: ws)
        for e in ws:
            c = contribution(C, mem, f, e, 1)
            if c:
                i, j, q, face, d, names, conds = c
                used.setdefault('other', []).append((e, face, conds))
                ff, fn = 'scratch.fe_face_values_', 'scratch.fe_neighbor_face_values_'
                C.ok('c%d:coupling:integrand' % k, (named(d, dim) - value(ff, i, q) * value(fn, j, q) * T.app('JxW', ff, q) * T.app('normal', ff, k, q) / 2).is_zero(),
                     f, 'face', lambda: show(d))
                C.ok('c%d:coupling:face' % k, seen(e.arr) == 'copy.interface_cij_matrix_[%s][%d]' % (pretty(face), k), f, 'face', lambda: e.arr)
                for x in range(2 * dim):
                    zeroed(C, mem, f, W, 'copy.interface_cij_matrix_[%d][%d]' % (x, k), ix(e), owned * dg)
    sites = used.get('own', []) + used.get('other', [])
    place(C, f, W, sites, owned, dg, {'scratch.fe_face_values_': 'here', 'scratch.fe_neighbor_face_values_': 'there'}, 'first')
    r = reinits(ev, fv)
    C.ok('cell values', len(r) == 1 and path(r[0].value[1]) == 'cell' and nil(owned * (ONE - r[0].guard)) and mass and ix(r[0]) < ix(mass[0]), f, 'place', lambda: r)
    # inverse of the mass matrix
    inv = [e for e in ev if e.kind == 'call' and e.arr == 'invert']
    C.ok('inverse', len(inv) == 1 and [seen(path(x)) for x in inv[0].value[:2]] == ['copy.cell_mass_matrix_inverse_', 'copy.cell_mass_matrix_'] and
         nil(inv[0].guard - owned * dg) and mass and ix(inv[0]) > ix(mass[-1]) and not inv[0].loops, f, 'cell', lambda: inv)
    # measure
    Ls = [L for L in W['worker loops'] if 'copy.cell_measure_' in L.carried]
    good = len(Ls) == 1 and len(Ls[0].carried) >= 2
    if good:
        L = Ls[0]
        init, head, end, after = L.carried['copy.cell_measure_']
        q = bound(L, 'q', sorted(set(re.findall(r'(scratch\.fe_values_(?:@\d+)?)\.', pretty(L.cond)))))
        zero = [e for e in ev if e.kind == 'call' and e.arr == '=' and seen(path(e.value[0])) == 'copy.cell_measure_' and isinstance(e.value[1], Value) and e.value[1].is_zero()]
        good = q is not None and nil(T.lift(init) * owned) and zero and nil(owned * (named(end - head, dim) - T.app('JxW', fv, q)))
    C.ok('measure', good, f, 'cell', lambda: Ls)
    # -- global matrices
    cp = W['copier']
    dist = [e for e in cp if e.kind == 'call' and e.arr == 'distribute_local_to_global']
    flag = T.boolsym('copy.is_locally_owned_')
    goals, con = {}, set()
    for e in dist:
        con.add(strip_at(path(e.value[0])))
        a = [path(x) for x in e.value[1:]]
        goals.setdefault(seen(a[0]), []).append((e, [seen(x) for x in a[1:-1]], a[-1]))
    want = {'copy.cell_mass_matrix_': (['copy.local_dof_indices_'], flag)}
    want['copy.cell_mass_matrix_inverse_'] = (['copy.local_dof_indices_'], flag * dg)
    for k in range(dim):
        want['copy.cell_cij_matrix_[%d]' % k] = (['copy.local_dof_indices_'], flag)
        for x in range(2 * dim):
            some = ONE - T.eq0(T.app('size', 'copy.neighbor_local_dof_indices_[%d]' % x))
            want['copy.interface_cij_matrix_[%d][%d]' % (x, k)] = (['copy.local_dof_indices_', 'copy.neighbor_local_dof_indices_[%d]' % x], flag * some)
    target = {}
    for nm, (idx, g) in want.items():
        got = goals.pop(nm, [])
        good = len(got) == 1 and got[0][1] == idx and not got[0][0].loops and \
            (nil(got[0][0].guard - g) or ('interface' in nm and nil(got[0][0].guard - g * dg)))
        C.ok('distribute:' + nm, good, f, 'sum', lambda: got)
        if got:
            m = re.match(r'copy\.(cell|interface)_(\w+?)_(?:\[(?:\d+\]\[)?(\d+)\])?$', nm)
            target.setdefault((m.group(2), m.group(3)), set()).add(strip_at(got[0][2]))
    C.ok('distribute:nothing else', not goals, f, 'sum', lambda: goals)
    C.ok('distribute:targets', all(len(v) == 1 for v in target.values()) and len({x for v in target.values() for x in v}) == 2 + dim, f, 'sum', lambda: target)
    C.ok('constraints', len(con) == 1, f, 'sum', lambda: con)
    constraints(C, mem, f, sorted(con)[0] if con else '', W['at'])
    # -- in use
    every = mem.events
    end = W['copier span'][1]
    one = lambda k: sorted(target.get(k, {'?'}))[0]
    tmp = {'od.mass_matrix_': [one(('mass_matrix', None))], 'od.mass_matrix_inverse_': [one(('mass_matrix_inverse', None))], 'od.cij_matrix_': [one(('cij_matrix', str(k))) for k in range(dim)]}
    for nm, src in tmp.items():
        r = [e for e in every if e.kind == 'call' and e.arr == 'read_in' and path(e.value[0]) == nm]
        g = dg if 'inverse' in nm else ONE
        good = len(r) == 1 and nil(r[0].guard - g) and every.index(r[0]) >= end
        if good:
            s = r[0].value[1]
            have = [strip_at(path(x)) for x in s.e] if isinstance(s, Arr) else [strip_at(path(s))]
            good = have == src and T.lift(r[0].value[2]).is_zero()
        C.ok('read:' + nm, good, f, 'final', lambda: (r, src))
        up = [e for e in every if e.kind == 'call' and e.arr == 'update_ghost_rows' and path(e.value[0]) == nm]
        C.ok('ghosts:' + nm, r and any(nil(u.guard - g) and every.index(u) > every.index(r[0]) for u in up), f, 'final', lambda: up)
        if 'inverse' not in nm:
            for t in src:
                comp = [e for e in every if e.kind == 'call' and e.arr == 'compress' and strip_at(path(e.value[0])) == t]
                C.ok('complete:' + t[:60], r and any(e.guard == ONE and end <= every.index(e) < every.index(r[0]) for e in comp), f, 'final', lambda: (t, comp))
    m = [e for e in every if e.kind == 'call' and e.arr == '=' and path(e.value[0]) == 'od.measure_of_omega_']
    want = T.app('sum', flag * S('copy.cell_measure_'), 'od.mpi_communicator_')
    C.ok('measure of the domain', m and (T.lift(m[-1].value[1]) - want).is_zero() and m[-1].guard == ONE and T.lift(m[0].value[1]).is_zero() and every.index(m[0]) < W['at'], f, 'final', lambda: m)
    lumped(C, mem, f, one(('mass_matrix', None)), sorted(con)[0] if con else '', end, runs[1]['at'])
    incidence(C, mem, f, runs[1], dim, owned, dg, sorted(con)[0] if con else '', want)
    bm = [e for e in every if e.kind == 'call' and e.arr == '=' and path(e.value[0]) in ('od.boundary_map_', 'od.coupling_boundary_pairs_')]
    for nm, fn in (('od.boundary_map_', 'construct_boundary_map'), ('od.coupling_boundary_pairs_', 'collect_coupling_boundary_pairs')):
        e = [x for x in bm if path(x.value[0]) == nm]
        C.ok(fn, len(e) == 1 and e[0].guard == ONE and path(e[0].value[1]).startswith(fn + '(od.dof_handler_.begin_active(') and
             'od.dof_handler_.end()' in path(e[0].value[1]) and path(e[0].value[1]).endswith('od.scalar_partitioner_)'), f, 'final', lambda: e)
    scratch(C, f, P, W, dim)
    R.count('passes', 2)


def own(C, f, W, n):
    ev = W['worker']
    fl = [e for e in ev if e.kind == 'call' and e.arr == '=' and seen(path(e.value[0])) == 'copy.is_locally_owned_']
    C.ok('owned:%d' % n, len(fl) == 1 and nil(fl[0].guard - W['guard']) and nil(fl[0].value[1] - B('is_locally_owned', 'cell')), f, 'sum', lambda: fl)
    g = [e for e in ev if e.kind == 'call' and e.arr == 'get_dof_indices' and path(e.value[0]) == 'cell']
    C.ok('indices:%d' % n, len(g) == 1 and seen(path(g[0].value[1])) == 'copy.local_dof_indices_' and nil(W['guard'] * B('is_locally_owned', 'cell') * (ONE - g[0].guard)), f, 'sum', lambda: g)


def neighbour(face):
    t = pretty(face)
    fc = 'cell.face(%s)' % t
    per = B('has_periodic_neighbor', 'cell', face)
    nb = 'cell.neighbor_or_periodic_neighbor(%s)' % t
    return nb, per, (ONE - B('at_boundary', fc) * (ONE - per)) * (ONE - B('is_artificial', nb))


def place(C, f, W, sites, owned, dg, values, key):
    """faces: which ones contribute, and where the values are taken"""
    ev = W['worker']
    ix = lambda e: ev.index(e)
    C.ok(key + ':faces', bool(sites), f, 'face')
    for n, (e, face, conds) in enumerate(sites):
        nb, per, has = neighbour(face)
        Lf = [L for L in e.loops if any(isinstance(c[1], Value) and c[1] == face for c in L.carried.values())][0]
        extra = ONE
        if key == 'second':
            extra = None
        g = owned * dg * conds * has
        if extra is not None:
            C.ok('%s:%d:faces with a neighbour' % (key, n), nil(e.guard - g), f, 'face', lambda: show(e.guard))
        there = owned * dg * Lf.cond * has
        for fv, side in values.items():
            if fv + '@' not in pretty(e.value) + '@' and not re.search(re.escape(fv) + r'\b', pretty(e.value)):
                continue
            r = [x for x in reinits(ev, fv) if Lf in x.loops]
            good = len(r) == 1 and ix(r[0]) < ix(e) and nil(there * (ONE - r[0].guard)) and r[0].loops == (Lf,)
            if good:
                a = r[0].value[1:3]
                if side == 'here':
                    good = path(a[0]) == 'cell' and T.lift(a[1]) == face
                else:
                    want = per * T.app('periodic_neighbor_of_periodic_neighbor', 'cell', face) + (ONE - per) * T.app('neighbor_of_neighbor', 'cell', face)
                    good = path(a[0]) == nb and (T.lift(a[1]) - want).is_zero()
            C.ok('%s:%d:%s' % (key, n, fv), good, f, 'place', lambda: r)
        if n == 0:
            nm = 'copy.neighbor_local_dof_indices_[%s]' % pretty(face)
            got = [x for x in ev if x.kind == 'call' and x.arr == 'get_dof_indices' and len(x.value) > 1 and seen(path(x.value[1])) == seen(nm)]
            none = [x for x in ev if seen(x.arr) == seen(nm) and ((x.kind == 'resize' and T.lift(x.value[0]).is_zero()) or x.kind == 'clear')]
            total = ZERO
            for x in none:
                total = total + x.guard
            C.ok(key + ':neighbour indices', len(got) == 1 and path(got[0].value[0]) == nb and nil(got[0].guard - there), f, 'sum', lambda: got)
            C.ok(key + ':no neighbour', nil(total - owned * dg * Lf.cond * (ONE - has)), f, 'face', lambda: (none, show(total)))


def constraints(C, mem, f, con, at):
    ev = mem.events[:at]
    act = [e for e in ev if e.kind == 'call' and e.value and e.value[0] is not None and strip_at(path(e.value[0]) or '') == con]
    by = {}
    for e in act:
        by.setdefault(e.arr, []).append(e)
    lines = 'od.affine_constraints_.get_lines()'
    line = r'od\.affine_constraints_\.get_lines\(\)\[.*\]'
    good = all(len(by.get(n, [])) == 1 and by[n][0].guard in (ONE,) or n == 'add_entry' for n in ('reinit', 'add_line', 'add_entry', 'set_inhomogeneity', 'close'))
    C.ok('constraints:copied', good, f, 'sum', lambda: by)
    if not good:
        return
    al, ae, si = by['add_line'][0], by.get('add_entry', [None])[0], by['set_inhomogeneity'][0]
    t = pretty(al.value[1])
    good = re.fullmatch(line + r'\.index', t) is not None and ae is not None and len(by['add_entry']) == 1
    if good:
        base = t[:-len('.index')]
        L = ae.loops[-1]
        p = counted(L, mem, ZERO, T.app('size', base + '.entries'), ONE)
        good = pretty(ae.value[1]) == t and p is not None and nil(ae.guard - L.cond) and \
            ae.value[2] == T.app('cell', base + '.entries', '<0>', p) and ae.value[3] == T.app('cell', base + '.entries', '<1>', p) and \
            pretty(si.value[1]) == t and pretty(si.value[2]) == base + '.inhomogeneity' and al.loops == si.loops == ae.loops[:1] and len(al.loops) == 1 and \
            not any(not g.is_zero() for g in al.loops[0].breaks)
    C.ok('constraints:entries', good, f, 'sum', lambda: (al, ae, si))
    C.ok('constraints:closed', ev.index(by['close'][0]) > ev.index(si) and not by['close'][0].loops, f, 'sum', lambda: by['close'])


def lumped(C, mem, f, mass, con, after, before):
    ev = mem.events
    v = [e for e in ev if e.kind == 'call' and e.arr == 'vmult' and strip_at(path(e.value[0])) == mass]
    C.ok('lumped:product', len(v) == 1 and v[0].guard == ONE and ev.index(v[0]) >= after, f, 'lumped', lambda: v)
    if len(v) != 1:
        return
    dst, src = strip_at(path(v[0].value[1])), strip_at(path(v[0].value[2]))
    at = ev.index(v[0])
    fill = [e for e in ev[:at] if e.kind == 'fill' and strip_at(e.arr) == src]
    zero = [e for e in ev[:at] if e.kind == 'call' and e.arr == 'set_zero' and strip_at(path(e.value[1]) or '') == src]
    C.ok('lumped:one', fill and T.lift(fill[-1].value) == ONE and fill[-1].guard == ONE and dst != src, f, 'lumped', lambda: fill)
    C.ok('lumped:constrained', len(zero) == 1 and strip_at(path(zero[0].value[0])) == con and fill and ev.index(zero[0]) > ev.index(fill[-1]), f, 'lumped', lambda: zero)
    n = T.app('locally_owned_size', 'od.scalar_partitioner_')
    for nm, inv in (('od.lumped_mass_matrix_', False), ('od.lumped_mass_matrix_inverse_', True)):
        w = [e for e in ev[at:] if e.kind == 'write' and seen(e.arr) == nm]
        good = len(w) == 1 and len(w[0].loops) == 1
        if good:
            i = counted(w[0].loops[0], mem, ZERO, n, ONE)
            if i is None:
                i = counted(w[0].loops[0], mem, ZERO, S('od.n_locally_owned_'), ONE)
            a = [x for x in T_apps(w[0].value, 'cell') if strip_at(str(x.args[0])) == dst]
            good = i is not None and w[0].idx == i and len(a) == 1 and T.lift(a[0].args[-1]) == i and nil(w[0].guard - w[0].loops[0].cond) and \
                (w[0].value - (T.inv(T.atom_value(a[0])) if inv else T.atom_value(a[0]))).is_zero()
        C.ok('lumped:' + nm, good, f, 'lumped', lambda: w)
        up = [e for e in ev if e.kind == 'call' and e.arr == 'update_ghost_values' and seen(path(e.value[0])) == nm]
        C.ok('lumped:ghosts:' + nm, good and any(u.guard == ONE and ev.index(w[0]) < ev.index(u) < before for u in up), f, 'lumped', lambda: up)


def incidence(C, mem, f, W, dim, owned, dg, con, measure):
    ev = W['worker']
    ws = [e for e in ev if e.kind == 'write' and seen(e.arr).startswith('copy.interface_incidence_matrix_[')]
    C.ok('incidence:one term', len(ws) == 1, f, 'incidence', lambda: ws)
    if len(ws) != 1:
        return
    e = ws[0]
    c = contribution(C, mem, f, e, 1)
    if not c:
        return
    i, j, q, face, d, names, conds = c
    here, there = 'scratch.fe_face_values_nodal_', 'scratch.fe_neighbor_face_values_nodal_'
    nb, per, has = neighbour(face)
    v = T.absval(value(here, i, q) * value(there, j, q))
    g = named(e.guard, dim)
    eps = {T.atom_value(a) for b in T.bools(g) for x in b.args if isinstance(x, Value) for a in x.atoms() if a.name == 'eps'}
    C.ok('incidence:where', len(eps) == 1 and nil(g - owned * dg * named(conds, dim) * has * T.gt0(v - 100 * sorted(eps, key=T.keyof)[0])), f, 'incidence', lambda: show(g))
    own_ = [a for a in T_apps(d, 'cell') if seen(str(a.args[0])) == 'copy.local_dof_indices_']
    oth = [a for a in T_apps(d, 'cell') if seen(str(a.args[0])) == seen('copy.neighbor_local_dof_indices_[%s]' % pretty(face))]
    m = [a for a in T_apps(d, 'elem') if str(a.args[0]) == 'od.lumped_mass_matrix_']
    good = len(own_) == 1 and len(oth) == 1 and len(m) == 2 and T.lift(own_[0].args[-1]) == i and T.lift(oth[0].args[-1]) == j and \
        {T.keyof(a.args[-1]) for a in m} == {T.keyof(T.atom_value(own_[0])), T.keyof(T.atom_value(oth[0]))}
    C.ok('incidence:masses', good, f, 'incidence', lambda: show(d))
    if good:
        size = (T.atom_value(m[0]) + T.atom_value(m[1])) / 2 / measure
        an = S('od.discretization_.ansatz_')
        for nm, code in C.kinds.items():
            if nm.startswith('dg_'):
                relax = S('od.incidence_relaxation_even_' if int(nm[-1]) % 2 == 0 else 'od.incidence_relaxation_odd_')
                got = T.subst(d, {an: T.const(code)})
                C.ok('incidence:weight:' + nm, (got - T.power(size, relax / dim)).is_zero(), f, 'incidence', lambda: show(got))
    C.ok('incidence:face', seen(e.arr) == 'copy.interface_incidence_matrix_[%s]' % pretty(face), f, 'incidence', lambda: e.arr)
    for x in range(2 * dim):
        zeroed(C, mem, f, W, 'copy.interface_incidence_matrix_[%d]' % x, ev.index(e), owned * dg)
    Cx = Ctx(C.R, C.key)
    place(Cx, f, W, [(e, face, conds)], owned, dg, {here: 'here', there: 'there'}, 'second')
    dist = [x for x in W['copier'] if x.kind == 'call' and x.arr == 'distribute_local_to_global']
    flag = T.boolsym('copy.is_locally_owned_')
    tgt = set()
    for x in range(2 * dim):
        got = [y for y in dist if seen(path(y.value[1])) == 'copy.interface_incidence_matrix_[%d]' % x]
        some = ONE - T.eq0(T.app('size', 'copy.neighbor_local_dof_indices_[%d]' % x))
        C.ok('incidence:distribute:%d' % x, len(got) == 1 and [seen(path(z)) for z in got[0].value[2:4]] == ['copy.local_dof_indices_', 'copy.neighbor_local_dof_indices_[%d]' % x] and
             strip_at(path(got[0].value[0])) == con and nil(got[0].guard - flag * some * dg), f, 'incidence', lambda: got)
        tgt |= {strip_at(path(y.value[4])) for y in got}
    C.ok('incidence:nothing else', len(dist) == 2 * dim and len(tgt) == 1, f, 'incidence', lambda: (dist, tgt))
    every = mem.events
    r = [x for x in every if x.kind == 'call' and x.arr == 'read_in' and path(x.value[0]) == 'od.incidence_matrix_']
    up = [x for x in every if x.kind == 'call' and x.arr == 'update_ghost_rows' and path(x.value[0]) == 'od.incidence_matrix_']
    C.ok('incidence:read', len(r) == 1 and {strip_at(path(r[0].value[1]))} == tgt and nil(r[0].guard - dg) and T.lift(r[0].value[2]).is_zero() and
         every.index(r[0]) >= W['copier span'][1] and any(nil(u.guard - dg) and every.index(u) > every.index(r[0]) for u in up), f, 'final', lambda: (r, up))


def flag_bits(text):
    r = set()
    for t in re.findall(r'\b(\d+)\b', text):
        r |= {1 << k for k in range(16) if int(t) >> k & 1}
    return r


def scratch(C, f, P, W, dim):
    """quadratures of the values"""
    s = W['scratch']
    C.ok('scratch', len(s) == 1, f, 'place', lambda: W['args'])
    for x in s:
        for nm, quad in (('fe_values_', 'quadrature_'), ('fe_face_values_', 'face_quadrature_'), ('fe_neighbor_face_values_', 'face_quadrature_'),
                         ('fe_face_values_nodal_', 'face_nodal_quadrature_'), ('fe_neighbor_face_values_nodal_', 'face_nodal_quadrature_')):
            p = path(x.f.get(nm))
            p = re.sub(r',\s*', ',', p) if p else p
            want = 'od.discretization_.mapping_,od.discretization_.finite_element_,od.discretization_.%s,' % quad
            C.ok('scratch:' + nm, p is not None and want in p, f, 'place', lambda: p)
            flags = p.split(want)[-1] if p and want in p else ''
            need = {1} | ({2, 64} if nm == 'fe_values_' else {64, 128} if nm == 'fe_face_values_' else set())
            C.ok('scratch:flags:' + nm, need <= flag_bits(flags), f, 'place', lambda: flags)


def element(R, P, dim):
    """finite element, mapping and quadratures of every ansatz"""
    C = Ctx(R, 'element %d' % dim)
    f = P.one(r'ryujin::Discretization<%d>::prepare' % dim)
    mem = Memory(P)
    mem.I.hooks['make_unique'] = lambda I, e, fr: Opaque('%s(%s)' % (strip_type(e['ta'][0]), ','.join(pretty(mem.val(x, fr)) for x in e['a'])), e['t']) if e.get('ta') else NotImplemented
    mem.M.run(f, [Opaque('base', 'std::string')], Opaque('d', 'ryujin::Discretization<%d>' % dim))
    got = {}
    for e in mem.events:
        m = re.search(r'(?:^|\.)(\w+_)$', path(e.value[0]) or '') if e.kind == 'call' and e.arr == '=' else None
        if m and path(e.value[1]):
            got.setdefault(m.group(1), []).append(e)
    for nm, code in sorted(Ctx.kinds.items()):
        k = int(nm[-1])
        for what, types, n in (('finite_element_', ('FE_Q',) if nm.startswith('cg') else ('FE_DGQ',), lambda x: x == k), ('mapping_', ('MappingQ',), lambda x: x == max(k, 1)),
                               ('quadrature_', ('QGauss',), lambda x: x == k + 1), ('quadrature_1d_', ('QGauss',), lambda x: x == k + 1), ('face_quadrature_', ('QGauss',), lambda x: x == k + 1),
                               ('face_nodal_quadrature_', ('QGaussLobatto',) if k else ('QMidpoint', 'QGauss'), lambda x: x == k + 1)):
            val = None
            for e in got.get(what, []):
                g = T.subst(e.guard, {a: T.const(code) for a in (T.atom_value(b) for b in e.guard.deep_atoms()) if pretty(a).endswith('ansatz_')})
                if g == ONE:
                    val = path(e.value[1])
                elif not g.is_zero():
                    val = 'undecided'
            m = re.fullmatch(r'dealii::(\w+)<.*>\((\d*)\)', val or '')
            C.ok('%s:%s' % (nm, what), m and m.group(1) in types and (n(int(m.group(2))) if m.group(2) else m.group(1) == 'QMidpoint'), f, 'element', lambda: val)


def run(R):
    for r in RULES.values():
        R.rule(r + '.')
    P = export.programs([TU])[TU]
    Ctx.kinds = {n: int(v) for n, v in P.enums['ryujin::Ansatz']['vals']}
    for dim in (1, 2, 3):
        assembly(R, P, dim)
    P = export.programs([':discretization.cc'])[':discretization.cc']
    for dim in (1, 2, 3):
        element(R, P, dim)
    R.floor('obligations', 200)
    R.floor("passes", 6)
