"""Output fields: every field written holds the quantity it is named for."""
import re
from fractions import Fraction
import terms as T
from terms import Value, ZERO, ONE
import export
from interp import AnalysisError, Arr, Struct, Opaque, Str, Ref, Clos, strip_type, split_targs, is_scalar_type, pretty
from memory import Memory, show
from trace import Trace, plain, path, pieces
import eqs

EQS = ('euler', 'euler_aeos', 'navier_stokes', 'scalar_conservation', 'shallow_water', 'skeleton')
RULES = {
    'component': 'component c of element i is entry n*i + c of the vector, for all owned elements and no others',
    'field': 'every selected name stands for the field of that name, at its own place in the result',
    'size': 'the result has one field for every selected name',
    'fresh': 'every field returned lives on the partition of the scalar vectors and was not written twice with different meanings',
    'listed': 'the postprocessed quantities are the selected components of the conserved or primitive state, in order, under their own names',
    'derivative': 'the quantity is the length of the discrete gradient (or the curl) of the selected component: sum over the row of c_ij q_j over the mass',
    'skip': 'eliminated degrees of freedom take no part',
    'bounds': 'the bounds are the extrema of the values of all not eliminated degrees of freedom of all processes',
    'scale': 'the values are scaled with 1 - exp(-beta (|q| - q_min)/(q_max - q_min)) and keep their sign',
    'constraints': 'the values of eliminated degrees of freedom are interpolated and the ghost values updated before a field is used',
    'named': 'a field is written under its own name',
    'written': 'fields are written when asked for, under the name and cycle given, on the mesh of the run',
    'cells': 'cells are selected for the level set output alone',
}


class C:
    def __init__(self, R, key, f):
        self.R, self.key, self.f = R, key, f

    def ok(self, key, cond, rule, detail=''):
        self.R.count('obligations')
        self.R.ok('E04:%s:%s' % (self.key, key), bool(cond), self.f, RULES[rule], detail)
        return bool(cond)


class Names(Trace):
    """searches in lists of names are decided"""

    def __init__(self, P, opaque=()):
        super().__init__(P, opaque, ('dealii::DataOutBase::VtkFlags',))
        h = self.I.hooks
        h['begin'] = h['cbegin'] = lambda I, e, fr: self.edge(e, fr, False)
        h['end'] = h['cend'] = lambda I, e, fr: self.edge(e, fr, True)
        h['find'] = self.find
        h['distance'] = self.distance
        h['operator=='] = lambda I, e, fr: self.equal(e, fr, False)
        h['operator!='] = lambda I, e, fr: self.equal(e, fr, True)
        h['operator-'] = self.minus
        h['size'] = self.length
        h['empty'] = lambda I, e, fr: (lambda n: NotImplemented if n is NotImplemented else T.eq0(n))(self.length(I, e, fr))
        h['ref'] = lambda I, e, fr: NotImplemented

    def array(self, x, fr):
        while x['k'] in ('cast', 'copy'):
            x = x['e']
        try:
            lv = self.I.follow(self.I.lv(x, fr))
        except AnalysisError:
            return None
        v = self.I.read(lv, x.get('t', ''))
        return v if isinstance(v, Arr) else None

    def edge(self, e, fr, last):
        x = e['b'] if e['k'] == 'mcall' else e['a'][0] if e.get('a') else None
        if x is None:
            return NotImplemented
        v = self.array(x, fr)
        if v is None:
            return NotImplemented
        return T.const(len(v.e) if last else 0)

    def length(self, I, e, fr):
        if e['k'] != 'mcall':
            return NotImplemented
        v = self.array(e['b'], fr)
        if v is None and split_targs(strip_type(e.get('cls', '')))[0] == 'std::vector':
            return self.size(self.arrpath(e['b'], fr))
        return NotImplemented if v is None else T.const(len(v.e))

    def find(self, I, e, fr):
        if not e.get('q', '').startswith('std::find') or len(e['a']) != 3:
            return NotImplemented
        try:
            v = self.array(self.range(e['a'][0], fr), fr)
        except AnalysisError:
            return NotImplemented
        s = self.val(e['a'][2], fr)
        if v is None or not isinstance(s, Str):
            return NotImplemented
        for k, x in enumerate(v.e):
            while isinstance(x, Ref):
                x = I.read(x.lv, '')
            if not isinstance(x, Str):
                raise AnalysisError('name %s' % pretty(x))
            if x.s == s.s:
                return T.const(k)
        return T.const(len(v.e))

    def distance(self, I, e, fr):
        a = [self.val(x, fr) for x in e['a']]
        return a[1] - a[0] if all(isinstance(x, Value) for x in a) else NotImplemented

    def pair(self, e, fr):
        xs = e['a'] if e['k'] in ('opcall', 'call') else [e['b']] + e['a']
        return [self.val(x, fr) for x in xs] if len(xs) == 2 else [None, None]

    def minus(self, I, e, fr):
        if 'iterator' not in ''.join(x.get('t', '') for x in e.get('a', [])):
            return NotImplemented
        a, b = self.pair(e, fr)
        return a - b if isinstance(a, Value) and isinstance(b, Value) else NotImplemented

    def equal(self, e, fr, no):
        ts = ''.join(x.get('t', '') for x in e.get('a', []))
        if 'basic_string' not in ts and 'iterator' not in ts and 'string' not in ts:
            return NotImplemented
        a, b = self.pair(e, fr)
        if isinstance(a, Str) and isinstance(b, Str):
            return ONE if (a.s == b.s) != no else ZERO
        if isinstance(a, Value) and isinstance(b, Value):
            r = T.eq0(a - b)
            return ONE - r if no else r
        return NotImplemented

    def rfor(self, s, fr):
        I = self.I
        try:
            v = self.array(s['range'], fr)
        except AnalysisError:
            v = None
        if v is not None:
            return self.rfor0(s, fr)
        base, ta = split_targs(strip_type(s['range'].get('t', '')))
        if base.replace('const ', '').strip() == 'std::vector':
            lst = self.contents(self.arrpath(s['range'], fr))
            if lst is not None and not self.jumps(s['b']):
                v = s['var']
                for x in lst:
                    lv = I.new_root(x[0] if len(x) == 1 and 'pair' not in ta[0] and 'tuple' not in ta[0] else Arr(x, ta[0]))
                    if v.get('bind'):
                        I.bind_parts(v['bind'], lv, ta[0], fr)
                    else:
                        fr.env[v['id']] = lv
                    I.exec(s['b'], fr)
                return
        return super().rfor(s, fr)

    def lv(self, e, fr):
        if e['k'] == 'opcall' and e.get('op') == '[]' and not e.get('own') and e['a'][0].get('t', '').replace('const ', '').startswith('std::vector'):
            lst = self.contents(self.arrpath(e['a'][0], fr))
            k = self.val(e['a'][1], fr) if lst is not None else None
            if isinstance(k, Value) and k.const() is not None and 0 <= k.const() < len(lst):
                x = lst[int(k.const())]
                return self.I.new_root(x[0] if len(x) == 1 else Arr(x, e['t']))
        return super().lv(e, fr)

    def contents(self, arr):
        """the elements appended to a local container, if they are known"""
        r = None
        for e in self.events:
            if plain(e.arr) != plain(arr):
                continue
            if e.kind in ('sized', 'clear', 'resize') and not e.loops and (e.guard == ONE):
                n = ZERO if e.kind == 'clear' else e.value
                if not isinstance(n, Value) or not n.is_zero():
                    return None
                r = []
            elif e.kind == 'append' and r is not None and e.guard == ONE and not e.loops:
                r.append(e.value)
            elif e.kind in ('write', 'append', 'fill', 'sized', 'clear', 'resize'):
                return None
        return r


class Small(Names):
    """local containers of constant size are arrays; accessors of vectors and matrices are decided elsewhere"""

    def __init__(self, P, opaque=()):
        super().__init__(P, opaque)
        h = self.I.hooks
        h['get_tensor'] = self.tensor
        h['get_entry'] = self.entry
        h['write_entry'] = self.write_entry
        h['row_length'] = lambda I, e, fr: T.app('row_length', self.val(e['a'][0], fr))
        h['columns'] = lambda I, e, fr: self.columns(e, fr)
        h['to_primitive_state'] = self.primitive
        for n in ('max', 'min'):
            h[n] = self.extremum
        h['cross_product_2d'] = lambda I, e, fr: (lambda v: Arr([v.e[1], -v.e[0]], v.t))(self.val(e['a'][0], fr))
        h['cross_product_3d'] = self.cross

    def cross(self, I, e, fr):
        a, b = [self.val(x, fr).e for x in e['a']]
        return Arr([a[(d + 1) % 3] * b[(d + 2) % 3] - a[(d + 2) % 3] * b[(d + 1) % 3] for d in range(3)], e['t'])

    def small(self, e, fr):
        if not any(c in e['a'][0].get('t', '') for c in ('std::vector',)):
            return None
        x = e['a'][0]
        try:
            lv = self.I.follow(self.I.lv(x, fr))
        except AnalysisError:
            return None
        return lv if isinstance(self.I.read(lv, x.get('t', '')), Arr) else None

    def lv(self, e, fr):
        if e['k'] == 'opcall' and e.get('op') == '[]' and not e.get('own'):
            lv = self.small(e, fr)
            if lv is not None:
                k = self.val(e['a'][1], fr)
                if k.const() is None:
                    raise AnalysisError('position in a short list')
                return (lv[0], lv[1] + (('i', int(k.const())),))
        return super().lv(e, fr)

    def declare(self, v, fr):
        super().declare(v, fr)
        lv = fr.env.get(v.get('id'))
        t = strip_type(v['t'])
        if lv and not lv[1] and t.startswith('std::vector<dealii::Tensor') and self.I.store is not None:
            n = self.I.store.get(('size', v['n']))
            if isinstance(n, Value) and n.const() is not None and n.const() <= 8:
                et = split_targs(t)[1][0]
                m = int(split_targs(et)[1][1])
                self.I.store[lv[0]] = Arr([Arr([ZERO] * m, et) for _ in range(int(n.const()))], t)

    def tensor(self, I, e, fr):
        c = e.get('cls', '')
        i = self.val(e['a'][0], fr)
        if 'MultiComponentVector' in c:
            n = int(split_targs(c)[1][1])
            return Arr([T.app('U', plain(self.arrpath(e['b'], fr)), i, k) for k in range(n)], e['t'])
        n = int(split_targs(c)[1][1])
        return Arr([T.app('mat', plain(self.arrpath(e['b'], fr)), i, self.val(e['a'][1], fr), k) for k in range(n)], e['t'])

    def entry(self, I, e, fr):
        if e['k'] != 'call':
            return NotImplemented
        return T.app('entry', plain(self.arrpath(e['a'][0], fr)), self.val(e['a'][1], fr))

    def write_entry(self, I, e, fr):
        if e['k'] != 'call':
            return NotImplemented
        self.note('store', plain(self.arrpath(e['a'][0], fr)), self.val(e['a'][2], fr), self.val(e['a'][1], fr), e)
        return None

    def columns(self, e, fr):
        return T.sym('P:columns') + T.app('row', self.val(e['a'][0], fr))

    def primitive(self, I, e, fr):
        v = self.val(e['a'][0], fr)
        return Arr([T.app('primitive', k, *v.e) for k in range(len(v.e))], v.t)

    def extremum(self, I, e, fr):
        if not e.get('q', '').startswith('dealii::Utilities::MPI'):
            return NotImplemented
        v, c = self.val(e['a'][0], fr), plain(path(self.val(e['a'][1], fr)))
        self.note('call', 'all' + e['n'], None, [v, c], e)
        return T.app('all' + e['n'].split('<')[0], c, v)


def plainarg(t):
    return strip_type(t).replace('const ', '').rstrip(' &')


def go(m, f, args={}, fields=None):
    I, a = m.I, []
    for p in f['params']:
        t = plainarg(p['t'])
        v = args.get(p['n'])
        if v is None:
            v = I.symbolic(t, p['n']) if is_scalar_type(t) else Opaque(p['n'], t)
        a.append(I.new_root(v))
    if fields is None:
        return m.M.run(f, a, keep=True)
    fl = {'offline_data_': Opaque('od', '')}
    fl.update(fields)
    return m.M.run(f, a, this=I.new_root(Struct(f['cls'], fl, Opaque('o', f['cls']))), keep=True)


def one(P, pat, pred=None):
    fs = [f for f in P.find(pat) if pred is None or pred(f)]
    if len(fs) != 1:
        raise AnalysisError('anchor %s: %d definitions found' % (pat, len(fs)))
    return fs[0]


def names(P, eq, dim):
    """the lists of names of the equation"""
    m = Names(P)
    r = {}
    for k in ('component_names', 'primitive_component_names', 'precomputed_names', 'initial_precomputed_names'):
        qs = [q for q in P.vars if re.match(r'ryujin::\w+::HyperbolicSystemView<%d, double>::%s$' % (dim, k), q)]
        if len(qs) != 1:
            raise AnalysisError('anchor %s: %d lists found' % (k, len(qs)))
        v = m.I.global_value({'q': qs[0], 'n': k, 't': P.vars[qs[0]]['var']['t'], 'id': P.vars[qs[0]]['var']['id'], 'k': 'ref'}, None)
        while isinstance(v, Ref):
            v = m.I.read(v.lv, '')
        if not isinstance(v, Arr):
            raise AnalysisError('list %s' % k)
        r[k] = [x.s for x in v.e]
    return r


def counter(L, m, his):
    """the position in a loop over 0 <= i < hi"""
    if any(not g.is_zero() for g in L.breaks):
        return None
    for init, head, end, after in L.carried.values():
        if isinstance(head, Value) and isinstance(init, Value) and init.is_zero() and isinstance(end, Value) and (end - head - 1).is_zero():
            for n in his:
                for c in (T.gt0(n - head), ONE - T.ge0(head - n), ONE - T.eq0(n - head)):
                    if (L.cond - c).is_zero():
                        return head
    return None


def owned_sizes(L, *paths):
    """the numbers of owned elements of one of the vectors that occur in a condition"""
    r = []
    for a in L.cond.deep_atoms():
        if 'locally_owned_size' in str(a.name) and a.args and plain(str(a.args[0])) in ['%s.get_partitioner()' % p for p in paths]:
            r.append(T.atom_value(a))
    return r


def sizes(L):
    return [str(a.args[0]) for a in L.cond.deep_atoms() if a.name == 'size' and a.args]


def cell_of(v):
    """(array, field, index) of a value read from an array"""
    if not isinstance(v, Value):
        return None
    a = list(v.atoms())
    if len(a) == 1 and a[0].name == 'cell' and (v - T.atom_value(a[0])).is_zero():
        return plain(str(a[0].args[0])), str(a[0].args[1]), T.lift(a[0].args[2])
    return None


def selections(n):
    every = n['component_names'] + [x for x in n['primitive_component_names'] if x not in n['component_names']] + n['precomputed_names'] + n['initial_precomputed_names'] + ['alpha']
    return [[x] for x in every] + [every, every[::-1], every[1::2] + every[0::2], []] + [[a, b] for a in every for b in every if a != b]


def extract(R, P, eq, dim):
    f = one(P, r'ryujin::SelectedComponentsExtractor<.*, %d, \w+>::extract' % dim)
    n = names(P, eq, dim)
    pn = {}
    for p in f['params']:
        t = plainarg(p['t'])
        pn['state' if t.startswith('std::tuple') else 'initial' if 'MultiComponentVector' in t else 'alpha' if t.startswith('dealii::LinearAlgebra::distributed::Vector') else
           'selected' if t.startswith('std::vector') else 'system'] = p['n']
    if len(pn) != 5:
        raise AnalysisError('parameters of extract')
    c = C(R, '%s:%d:extract' % (eq, dim), f)
    nc = {'component_names': len(n['component_names']), 'precomputed_names': len(n['precomputed_names']), 'initial_precomputed_names': len(n['initial_precomputed_names'])}
    src = {'component_names': pn['state'] + '[0]', 'precomputed_names': pn['state'] + '[1]', 'initial_precomputed_names': pn['initial']}
    ss = selections(n)
    if R.tier != 'thorough':
        ss = [x for x in ss if len(x) != 2] + [x for x in ss if len(x) == 2][::7]
    for sel in ss:
        R.count('selections')
        m = Names(P)
        m.I.hooks['to_primitive_state'] = lambda I, e, fr, m=m: (lambda v: Arr([T.app('primitive', k, *v.e) for k in range(len(v.e))], v.t))(m.val(e['a'][0], fr))
        ret = go(m, f, {pn['selected']: Arr([Str(x) for x in sel], 'std::vector<std::string>')})
        arr = plain(path(ret)) if isinstance(ret, Opaque) else None
        key = ','.join(sel)
        if arr is None:
            raise AnalysisError('result of extract')
        size = m.size(arr)
        c.ok('size:' + key, (size - len(sel)).is_zero(), 'size', lambda: size)
        for p, x in enumerate(sel):
            me = '%s[%d]' % (arr, p)
            w = [e for e in m.events if e.kind == 'write' and (plain(e.arr) == me or (plain(e.arr) == arr and (T.lift(e.idx) - p).is_zero()))]
            k2 = '%s:%d' % (key, p)
            if len(w) != 1:
                c.ok('field:' + k2, False, 'field', lambda: w)
                continue
            e = w[0]
            if x == 'alpha':
                good = plain(e.arr) == arr and plain(path(e.value)) == pn['alpha'] and not e.loops and e.guard == ONE
                c.ok('field:' + k2, good, 'field', lambda: e)
                continue
            good = plain(e.arr) == me and len(e.loops) == 1
            i = counter(e.loops[0], m, owned_sizes(e.loops[0], me, pn['alpha'])) if good else None
            good = i is not None and (T.lift(e.idx) - i).is_zero() and (e.guard - e.loops[0].cond).is_zero()
            if good:
                what = [q for q in ('component_names', 'precomputed_names', 'initial_precomputed_names') if x in n[q]]
                if what:
                    q = what[0]
                    got = cell_of(e.value)
                    good = got is not None and got[0] == src[q] and (got[2] - i * nc[q] - n[q].index(x)).is_zero()
                else:
                    k = n['primitive_component_names'].index(x)
                    a = list(e.value.atoms())
                    good = len(a) == 1 and a[0].name == 'primitive' and (e.value - T.atom_value(a[0])).is_zero() and T.lift(a[0].args[0]).const() == k
                    if good:
                        for d, y in enumerate(a[0].args[1:]):
                            g = cell_of(T.lift(y))
                            good = good and g is not None and g[0] == src['component_names'] and (g[2] - i * nc['component_names'] - d).is_zero()
                        good = good and len(a[0].args) == 1 + nc['component_names']
            c.ok('field:' + k2, good, 'field', lambda: (e, me, e.loops[0] if e.loops else None))
            r = [v for v in m.events if v.kind == 'call' and v.arr == 'reinit' and plain(path(v.value[0])) == me]
            c.ok('fresh:' + k2, len(r) == 1 and not r[0].loops and r[0].guard == ONE and plain(path(r[0].value[1])) == pn['alpha'] + '.get_partitioner()' and m.at(r[0]) < m.at(e), 'fresh', lambda: r)


def accessors(R, P, eq):
    """extract_component and insert_component of all vectors of the equation"""
    for nm in ('extract_component', 'insert_component'):
        for f in P.find(r'ryujin::Vectors::MultiComponentVector<double, \d+, \d+>::%s' % nm):
            n = int(split_targs(f['cls'])[1][1])
            if n == 0:
                continue
            R.count('vectors')
            m = Names(P)
            a, b = f['params'][0]['n'], f['params'][1]['n']
            go(m, f, {b: T.sym('comp')}, {})
            c = C(R, '%s:%s:%d' % (eq, nm, n), f)
            w = [e for e in m.events if e.kind == 'write']
            ok = len(w) == 1 and len(w[0].loops) == 1
            i = counter(w[0].loops[0], m, owned_sizes(w[0].loops[0], a)) if ok else None
            good = False
            if i is not None:
                e = w[0]
                there, here = (plain(e.arr), T.lift(e.idx)), cell_of(e.value)
                if here:
                    s, v = (there, (here[0], here[2])) if nm == 'extract_component' else ((here[0], here[2]), there)
                    good = s[0] == a and (s[1] - i).is_zero() and v[0] == 'o' and (v[1] - i * n - T.sym('comp')).is_zero() and (e.guard - e.loops[0].cond).is_zero()
            c.ok('all', good, 'component', lambda: (w, m.loops))
            other = [e for e in m.events if e.kind in ('fill', 'resize', 'clear', 'append')]
            c.ok('nothing else', not other, 'component', lambda: other)


def same_item(e, v, src, m):
    """the operation reaches every item of the list"""
    if len(e.loops) != 1:
        return False
    L = e.loops[0]
    i = counter(L, m, [T.app('size', x) for x in sizes(L)])
    return i is not None and plain(path(v)) == '%s[%s]' % (src, pretty(i)) and (e.guard - L.cond).is_zero()


def vtu(R, P, eq, dim):
    f = one(P, r'ryujin::VTUOutput<.*, %d, \w+>::schedule_output' % dim)
    for mpiio in (0, 1):
        m = Names(P, ('extract',))
        c = C(R, '%s:%d:vtu:%d' % (eq, dim, mpiio), f)
        state, name, t, cycle, full, level = [p['n'] for p in f['params']]
        go(m, f, {}, {'use_mpi_io_': T.const(mpiio)})
        F = T.boolsym(full)
        ex = m.calls('extract')
        sel = 'o.vtu_output_quantities_'
        ok = len(ex) == 1 and ex[0].guard == ONE and not ex[0].loops and [plain(path(x)) for x in ex[0].value[1:]] == ['o.hyperbolic_system_', state, 'o.initial_precomputed_', 'o.alpha_', sel]
        c.ok('extracted', ok, 'named', lambda: ex)
        if not ok:
            continue
        adds = m.calls('add_data_vector')
        builds, writes = m.calls('build_patches'), m.calls('write_vtu_in_parallel', 'write_vtu_with_pvtu_record')
        out = set(plain(path(e.value[0])) for e in adds + builds + writes + m.calls('attach_dof_handler', 'set_flags', 'set_cell_selection'))
        c.ok('one object', len(out) == 1, 'written', lambda: out)
        ad = m.calls('attach_dof_handler')
        first = min([m.at(e) for e in adds] or [0])
        c.ok('dofs', len(ad) == 1 and plain(path(ad[0].value[1])) == 'od.dof_handler_' and ad[0].guard == ONE and m.at(ad[0]) < first, 'written', lambda: ad)
        got = set()
        for k, e in enumerate(adds):
            ok = len(e.loops) == 1
            if ok:
                L = e.loops[0]
                vec, nm = plain(path(e.value[1])), plain(path(e.value[2]))
                i = counter(L, m, [T.app('size', x) for x in sizes(L)])
                tail = '[%s]' % pretty(i) if i is not None else None
                ok = tail is not None and vec.endswith(tail)
                src = vec[:-len(tail)] if ok else ''
                kind, lab = ('selected', sel) if src.startswith('result of extract') else ('postprocessed', 'o.postprocessor_.component_names_')
                ok = ok and (kind == 'selected' or src == 'o.postprocessor_.quantities_') and plain(sizes(L)[0]) in (src, lab) and nm == lab + tail and (e.guard - L.cond).is_zero() and kind not in got
                if ok:
                    got.add(kind)
                    if kind == 'selected':
                        pre = [x for x in m.calls('distribute', 'update_ghost_values') if x.loops and m.at(x) < m.at(e)]
                        ds = [x for x in pre if x.arr == 'distribute' and plain(path(x.value[0])) == 'od.affine_constraints_' and same_item(x, x.value[1], src, m)]
                        us = [x for x in pre if x.arr == 'update_ghost_values' and same_item(x, x.value[0], src, m)]
                        c.ok('constraints', len(ds) == 1 and len(us) == 1 and m.at(ds[0]) < m.at(us[0]), 'constraints', lambda: pre)
            c.ok('field:%d' % k, ok, 'named', lambda: e)
        c.ok('all fields', got == {'selected', 'postprocessed'}, 'named', lambda: adds)
        c.ok('no field lost', not m.calls('clear_data_vectors', 'clear', 'clear_input_data_references'), 'named')
        last = max([m.at(e) for e in adds] or [0])
        fl = m.calls('set_flags')
        fp = plain(path(fl[0].value[1])) if fl else ''
        fp = m.made.get(fp, fp)
        c.ok('time', len(fl) == 1 and fl[0].guard == ONE and re.match(r'.*VtkFlags\(%s, ?%s,' % (t, cycle), fp), 'written', lambda: (fl, m.made))
        # the outputs
        lv = T.boolsym(level) * (ONE - T.eq0(T.app('size', 'o.manifolds_')))
        chosen = m.calls('set_cell_selection')
        c.ok('cells chosen', len(chosen) == 1 and (chosen[0].guard - lv).is_zero(), 'cells', lambda: chosen)
        for k, g, suffix in (('full', F, []), ('levelsets', lv, [('l', '-levelsets')])):
            w = [e for e in writes if (e.guard - g).is_zero() and not e.loops]
            ok = len(w) == 1
            if ok:
                e = w[0]
                if e.arr == 'write_vtu_in_parallel':
                    tgt = pieces(e.value[1])
                    lit = ''.join(x[1] for x in suffix) + '_'
                    ok = mpiio == 1 and tgt is not None and len(tgt) == 4 and tgt[0] == ('s', name) and tgt[1] == ('l', lit) and re.match(r'to_string\(%s, ?6\)$' % cycle, tgt[2][1] or '') is not None \
                        and tgt[3] == ('l', '.vtu') and plain(path(e.value[2])) == 'o.mpi_communicator_'
                else:
                    ok = mpiio == 0 and pieces(e.value[2]) == [('s', name)] + suffix and isinstance(e.value[3], Value) and (e.value[3] - T.sym(cycle)).is_zero() and plain(path(e.value[4])) == 'o.mpi_communicator_'
                b = [x for x in builds if last < m.at(x) < m.at(e) and (x.guard - g).is_zero() and (plain(path(x.value[1])) or '').startswith('od.discretization_.mapping_')]
                ok = ok and len(b) == 1
                if ok and chosen:
                    ok = (m.at(b[0]) > m.at(chosen[0])) == (k == 'levelsets') and not [x for x in m.events[m.at(b[0]) + 1:m.at(e)] if x.kind == 'call' and plain(path(x.value[0])) in out]
            c.ok('written:' + k, ok, 'written', lambda: (w, builds))
        c.ok('nothing else', len(writes) == 2 and len(builds) == 2, 'written', lambda: writes + builds)


def listing(R, P, eq, dim):
    """the quantities the postprocessor computes"""
    f = one(P, r'ryujin::Postprocessor<.*, %d, \w+>::prepare' % dim)
    n = names(P, eq, dim)
    cons, prim = n['component_names'], n['primitive_component_names']
    for key, sch, vor in (('cons', cons, cons[:1]), ('prim', prim, prim[::-1]), ('mixed', [prim[-1], cons[0], prim[0]], [cons[-1]]), ('none', [], [])):
        m = Names(P)
        c = C(R, '%s:%d:quantities:%s' % (eq, dim, key), f)
        go(m, f, {}, {'schlieren_quantities_': Arr([Str(x) for x in sch]), 'vorticity_quantities_': Arr([Str(x) for x in vor])})
        labels = []
        for lst, pre, arr in ((sch, 'schlieren_', 'o.schlieren_indices_'), (vor, 'vorticity_', 'o.vorticity_indices_')):
            v = m.contents(arr)
            # a component of both lists has the same value in both
            ok = v is not None and len(v) == len(lst)
            for x, y in zip(v or [], lst):
                a, b = [z.const() if isinstance(z, Value) else None for z in x]
                ok = ok and a in (0, 1) and b is not None and 0 <= b < len(cons) and (prim if a else cons)[int(b)] == y and (a == 0 or y not in cons or True)
            c.ok(arr[2:-1], ok, 'listed', lambda: v)
            labels += [pre + y for y in lst]
        v = m.contents('o.component_names_')
        c.ok('labels', v is not None and [label(x[0]) for x in v] == labels, 'listed', lambda: v)
        rz = [e for e in m.events if e.kind == 'resize' and plain(e.arr) == 'o.quantities_']
        c.ok('vectors', len(rz) == 1 and rz[0].value[0].const() == len(labels), 'listed', lambda: rz)
        for k in range(len(labels)):
            r = [e for e in m.calls('reinit') if plain(path(e.value[0])) == 'o.quantities_[%d]' % k and plain(path(e.value[1])) == 'od.scalar_partitioner_' and m.at(e) > m.at(rz[0])]
            c.ok('partition:%d' % k, len(r) == 1, 'fresh', lambda: m.calls('reinit'))
        cl = [e for e in m.events if e.kind == 'clear' and plain(e.arr) == 'o.bounds_']
        c.ok('bounds', len(cl) >= 1 and cl[0].guard == ONE, 'bounds', lambda: cl)


def label(x):
    p = pieces(x) or []
    return ''.join(b for a, b in p)


def compute(R, P, eq, dim):
    f = one(P, r'ryujin::Postprocessor<.*, %d, \w+>::compute' % dim)
    n = names(P, eq, dim)
    nc = len(n['component_names'])
    sch = [(0, nc - 1), (1, nc - 1), (0, 0)]
    vor = [(1, 1), (0, 1)] if dim > 1 and nc > dim else []
    for again in (1, 0):
        m = Small(P)
        c = C(R, '%s:%d:compute:%d' % (eq, dim, again), f)
        mk = lambda l: Arr([Arr([T.const(a), T.const(b)]) for a, b in l])
        go(m, f, {}, {'schlieren_indices_': mk(sch), 'vorticity_indices_': mk(vor), 'schlieren_quantities_': mk(sch), 'vorticity_quantities_': mk(vor), 'recompute_bounds_': T.const(again)})
        state = f['params'][0]['n'] + '[0]'
        st = [e for e in m.events if e.kind == 'store']
        lst = [('s', x) for x in sch] + [('v', x) for x in vor]
        blocks = {}
        for e in st:
            blocks.setdefault(e.loops, []).append(e)
        ranges = []
        for loops, es in blocks.items():
            L = loops[0] if len(loops) == 1 else None
            rg = L and bounds_of(L, m)
            if not rg:
                c.ok('block:%d' % len(ranges), False, 'derivative', lambda: es)
                continue
            lo, hi, i, step = rg
            ranges.append((lo, hi))
            free = ONE - T.eq0(T.app('row_length', i) - 1)
            for k, (kind, (isp, idx)) in enumerate(lst):
                e = [x for x in es if plain(x.arr) == 'o.quantities_[%d]' % k]
                key = '%d:%d' % (len(ranges), k)
                ok = len(e) == 1 and (T.lift(e[0].idx) - i).is_zero()
                c.ok('skip:' + key, ok and (e[0].guard - L.cond * free).is_zero(), 'skip', lambda: [x.guard for x in e])
                c.ok('value:' + key, ok and derivative(m, e[0].value, i, L, kind, isp, idx, state, nc, dim), 'derivative', lambda: (e, m.loops))
            c.ok('each once:%d' % len(ranges), len(es) == len(lst), 'derivative', lambda: es)
        ok = len(ranges) == 2
        if ok:
            ranges.sort(key=lambda r: not r[0].is_zero())
            ok = ranges[0][0].is_zero() and (ranges[0][1] - ranges[1][0]).is_zero() and pretty(ranges[0][1]).startswith('od.n_locally_internal') and pretty(ranges[1][1]).startswith('od.n_locally_owned')
        c.ok('all', ok, 'derivative', lambda: ranges)
        finish(c, m, len(lst), again)


def bounds_of(L, m):
    """lower and upper end of a counted loop"""
    if any(not g.is_zero() for g in L.breaks):
        return None
    for init, head, end, after in L.carried.values():
        if not isinstance(head, Value) or not isinstance(init, Value) or not isinstance(end, Value):
            continue
        d = (end - head).const()
        if d is None or d <= 0:
            continue
        for a in L.cond.atoms():
            if a.name in ('gt0', 'ge0') and len(a.args) == 1:
                x = T.lift(a.args[0])
                hi = x + head if a.name == 'gt0' else head - x
                if head_in(hi, head):
                    continue
                if (L.cond - (T.gt0(hi - head) if a.name == 'gt0' else ONE - T.ge0(head - hi))).is_zero():
                    return init, hi, head, d
    return None


def head_in(v, head):
    h = list(head.atoms())[0]
    return any(T.keyof(T.atom_value(a)) == T.keyof(T.atom_value(h)) for a in v.deep_atoms())


def derivative(m, v, i, L, kind, isp, idx, state, nc, dim):
    afters = {T.keyof(x[3]): (L2, x) for L2 in m.loops if L2.parent is L for x in L2.carried.values() if isinstance(x[3], Value)}
    used = [a for a in v.deep_atoms() if T.keyof(T.atom_value(a)) in afters]
    if not used:
        return False
    L2 = afters[T.keyof(T.atom_value(used[0]))][0]
    if any(not g.is_zero() for g in L2.breaks):
        return False
    step = bounds_of(L, m)[3]
    # the row: a counter for the entries and a pointer to the columns
    col = js = None
    for init, head, end, after in L2.carried.values():
        if not isinstance(head, Value) or not isinstance(end, Value):
            continue
        n = T.app('row_length', i)
        if init.is_zero() and (end - head - 1).is_zero() and any((L2.cond - L.cond * 0 - x).is_zero() for x in (T.gt0(n - head), ONE - T.ge0(head - n))):
            col = head
        elif (init - T.sym('P:columns') - T.app('row', i)).is_zero() and (end - head - step).is_zero():
            js = head
    if col is None or js is None:
        return False
    U = [T.app('U', state, js, k) for k in range(nc)]
    q = lambda k: T.app('primitive', k, *U) if isp else U[k]
    cij = [T.app('mat', 'od.cij_matrix_', i, col, d) for d in range(dim)]
    if kind == 's':
        want = [x * q(idx) for x in cij]
    elif dim == 2:
        want = [cij[0] * q(idx + 1) - cij[1] * q(idx)]
    else:
        y = [q(idx + d) for d in range(3)]
        want = [cij[(d + 1) % 3] * y[(d + 2) % 3] - cij[(d + 2) % 3] * y[(d + 1) % 3] for d in range(3)]
    parts = []
    signs = set()
    for w in want:
        for a in used:
            init, head, end, after = afters[T.keyof(T.atom_value(a))][1]
            if not init.is_zero():
                continue
            d = end - head
            for sg in (1, -1):
                if (d - w * sg).is_zero():
                    parts.append(after)
                    signs.add(sg)
    if len(parts) != len(want) or len(signs) != 1:
        return False
    mass = T.inv(T.app('entry', 'od.lumped_mass_matrix_', i))
    if kind == 'v' and dim == 2:
        return (v - parts[0] * signs.pop() * mass).is_zero()
    s2 = sum((x * x for x in parts), ZERO)
    return (v - T.power(s2, T.const(Fraction(1, 2))) * mass).is_zero()


def finish(c, m, n, again):
    """bounds, scaling, and completion"""
    w = [e for e in m.events if e.kind == 'write' and plain(e.arr) == 'o.bounds_']
    rz = [e for e in m.events if e.kind in ('resize', 'sized') and plain(e.arr) == 'o.bounds_']
    G = ONE if again else ONE - T.eq0(T.app('size', 'o.bounds_') - n)
    ok = len(rz) == 1 and (rz[0].guard - G).is_zero() and rz[0].value[0].const() == n and isinstance(rz[0].value[1], Arr) and rz[0].value[1].e[0].is_zero() and (rz[0].value[1].e[1] - T.sym('dblmax')).is_zero()
    c.ok('start', ok, 'bounds', lambda: rz)
    cl = [e for e in m.events if e.kind == 'clear' and plain(e.arr) == 'o.bounds_']
    c.ok('renewed', bool([e for e in cl if e.guard == ONE]) == bool(again) and all((e.guard - ONE).is_zero() or (e.guard - G).is_zero() for e in cl), 'bounds', lambda: cl)
    stores = max([m.at(e) for e in m.events if e.kind == 'store'] or [0])
    done = []
    for k in range(n):
        for f, name, ext in (('0', 'allmax', T.vmax), ('1', 'allmin', T.vmin)):
            mine = [e for e in w if T.lift(e.idx).const() == k and str(e.field) in (f, ('first', 'second')[int(f)])]
            loc, glob = [e for e in mine if e.loops], [e for e in mine if not e.loops]
            ok = len(loc) == 1 and len(glob) == 1 and stores < m.at(loc[0]) < m.at(glob[0])
            if ok:
                e, L = loc[0], loc[0].loops[0]
                rg = bounds_of(L, m) if len(e.loops) == 1 else None
                ok = rg is not None and rg[0].is_zero() and pretty(rg[1]) == 'od.n_locally_owned_' and rg[3] == 1
            if ok:
                i = rg[2]
                free = ONE - T.eq0(T.app('row_length', i) - 1)
                c.ok('taken:%d:%s' % (k, f), (e.guard - G * L.cond * free).is_zero(), 'bounds', lambda: e.guard)
                old = [a for a in e.value.deep_atoms() if a.name == 'cell' and plain(str(a.args[0])) == 'o.bounds_' and str(a.args[1]) in ('<%s>' % f, '.' + ('first', 'second')[int(f)]) and T.lift(a.args[2]).const() == k]
                q = [a for a in e.value.deep_atoms() if a.name == 'cell' and plain(str(a.args[0])) == 'o.quantities_[%d]' % k and (T.lift(a.args[2]) - i).is_zero()]
                ok = len(old) == 1 and len(q) == 1 and (e.value - ext(T.atom_value(old[0]), T.absval(T.atom_value(q[0])))).is_zero()
                g = glob[0].value
                a = list(g.atoms())
                ok = ok and len(a) == 1 and a[0].name == name and (g - T.atom_value(a[0])).is_zero() and 'mpi_communicator_' in str(a[0].args[0]) and (glob[0].guard - G).is_zero()
                if ok:
                    x = cell_of(T.lift(a[0].args[1]))
                    ok = x is not None and x[0] == 'o.bounds_' and x[1] in ('<%s>' % f, '.' + ('first', 'second')[int(f)]) and x[2].const() == k
                done.append(m.at(glob[0]))
            c.ok('extremum:%d:%s' % (k, f), ok, 'bounds', lambda: mine)
    for k in range(n):
        sc = [e for e in m.events if e.kind == 'write' and plain(e.arr) == 'o.quantities_[%d]' % k]
        ok = len(sc) == 1 and len(sc[0].loops) == 1 and m.at(sc[0]) > max(done or [10 ** 9])
        if ok:
            e, L = sc[0], sc[0].loops[0]
            rg = bounds_of(L, m)
            ok = rg is not None and rg[0].is_zero() and pretty(rg[1]) == 'od.n_locally_owned_' and rg[3] == 1 and (e.guard - L.cond).is_zero() and (T.lift(e.idx) - rg[2]).is_zero()
        if ok:
            ok = scaled(e.value, k, rg[2])
            done.append(m.at(e))
        c.ok('scale:%d' % k, ok, 'scale', lambda: sc)
    ds = [x for x in m.calls('distribute') if plain(path(x.value[0])) == 'od.affine_constraints_' and same_item(x, x.value[1], 'o.quantities_', m)]
    us = [x for x in m.calls('update_ghost_values') if same_item(x, x.value[0], 'o.quantities_', m)]
    c.ok('completed', len(ds) == 1 and len(us) == 1 and max(done or [0]) < m.at(ds[0]) < m.at(us[0]), 'constraints', lambda: ds + us)


def scaled(v, k, i):
    at = list(v.deep_atoms())
    q = [a for a in at if a.name == 'cell' and plain(str(a.args[0])) == 'o.quantities_[%d]' % k]
    if len(q) != 1 or not (T.lift(q[0].args[2]) - i).is_zero():
        return False
    q = T.atom_value(q[0])

    def ends(f, name):
        r = []
        for a in at:
            if a.name == 'cell' and plain(str(a.args[0])) == 'o.bounds_' and str(a.args[1]) in ('<%s>' % f, '.' + ('first', 'second')[f]) and T.lift(a.args[2]).const() == k:
                r.append(T.atom_value(a))
            if a.name == name:
                x = cell_of(T.lift(a.args[1]))
                if x and x[0] == 'o.bounds_' and x[2].const() == k:
                    r.append(T.atom_value(a))
        return r
    eps = next((T.atom_value(a) for a in at if a.name == 'eps'), T.sym('eps'))
    beta = T.sym('o.beta_')
    small = T.const(Fraction(1, 10 ** 10))
    for hi in ends(0, 'allmax'):
        for lo in ends(1, 'allmin'):
            for floor in (small, T.vmax(small, eps)):
                ratio = T.vmax(ZERO, T.absval(q) - lo - floor) * T.inv(T.vmax(hi - lo, eps))
                if (v - T.app('copysign', ONE - T.exp(-beta * ratio), q)).is_zero():
                    return True
    return False


def check(R, item):
    tu, eq = item
    P = export.programs([tu])[tu]
    if tu.endswith('initial_values.cc'):
        return accessors(R, P, eq)
    for dim in (1, 2, 3):
        if tu.endswith('vtu_output.cc'):
            extract(R, P, eq, dim)
            vtu(R, P, eq, dim)
        else:
            listing(R, P, eq, dim)
            compute(R, P, eq, dim)
    if tu.endswith('vtu_output.cc'):
        accessors(R, P, eq)


def run(R):
    for r in RULES:
        R.rule(RULES[r])
    items = [('%s:%s.cc' % (eq, k), eq) for eq in EQS for k in ('vtu_output', 'postprocessor', 'initial_values')]
    export.programs([t for t, _ in items])
    R.each(items, check)
    R.floor('obligations', 500)
    R.floor('vectors', 20)
