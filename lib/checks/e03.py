"""E03: quantities of interest are averaged and written as configured"""
import itertools
from trace import *
from checks.e01 import EQ, S
import export

RULES = {
    'points': 'a manifold consists of all owned, unconstrained points on its level set, each once, with its index, mass and position',
    'fresh': 'preparation starts with empty statistics, a new series and new point files',
    'values': 'the recorded values of a point are its primitive state and the squares thereof, of the current state',
    'average': 'the spatial average is the sum of mass times value over all points of all processes divided by the total mass',
    'time': 'the time average is accumulated with the trapezoidal rule over the time that has passed since the last record',
    'select': 'exactly the quantities selected for a manifold are computed and written, from its own points and statistics',
    'files': 'all processes contribute, one writes; values are scaled, and a series is appended to after its first output',
}
NPOS = 2**64 - 1
KINDS = ('interior', 'boundary')
OPTIONS = ('instantaneous', 'time_averaged', 'space_averaged')


class Ctx:
    def __init__(self, R, key, f):
        self.R, self.key, self.f = R, key, f

    def ok(self, key, cond, rule, detail=''):
        self.R.count('obligations')
        self.R.ok('E03:%s:%s' % (self.key, key), bool(cond), self.f, RULES[rule], detail)
        return bool(cond)


class Q(Trace):
    """one member function of Quantities, executed abstractly"""

    def __init__(self, P, name, dim, opaque=(), args={}, fields={}, which=None, options=None, series=None):
        super().__init__(P, opaque)
        I = self.I
        h = I.hooks
        self.options, self.series = options, series
        self.buffers = []
        if options is not None:
            h['find'] = self.find
        if 'internal_accumulate' in opaque:
            h['internal_accumulate'] = self.recorded
        if series is not None:
            h['has_value'] = self.has_value
        h['to_primitive_state'] = self.primitive
        h['get_tensor'] = self.tensor
        h['schur_product'] = lambda I, e, fr: self.pairwise([self.val(x, fr) for x in e['a']])
        h['sum'] = self.sum
        h['row_length'] = lambda I, e, fr: T.app('row_length', self.arrpath(e['b'], fr), self.val(e['a'][0], fr))
        h['operator<<'] = self.put
        fs = P.find(r'ryujin::Quantities<.*, %d, \w+>::%s' % (dim, name))
        if which is not None:
            fs = [g for g in fs if len(split_targs(split_targs(strip_type(g['params'][1]['t']).replace('const ', ''))[1][0])[1]) == which]
        if len(fs) != 1:
            raise AnalysisError('anchor %s: %d definitions found' % (name, len(fs)))
        self.f = f = fs[0]
        fl = {'offline_data_': Opaque('od', 'ryujin::OfflineData<%d, double>' % dim)}
        fl.update(fields)
        self.this = I.new_root(Struct(f['cls'], fl, Opaque('q', f['cls'])))
        self.args, a = {}, []
        for p in f['params']:
            t = strip_type(p['t']).replace('const ', '').rstrip(' &')
            v = args.get(p['n'])
            if v is None:
                v = I.symbolic(t, p['n']) if is_scalar_type(t) else Opaque(p['n'], t)
            self.args[p['n']] = lv = I.new_root(v)
            a.append(lv)
        self.ret = self.M.run(f, a, this=self.this, keep=True)

    # -- library ---------------------------------------------------------------------------
    def find(self, I, e, fr):
        if 'basic_string' not in e.get('cls', ''):
            return NotImplemented
        v = self.val(e['a'][0], fr)
        if not isinstance(v, Str) or v.s not in OPTIONS:
            raise AnalysisError('option %s' % pretty(v))
        self.note('option', self.arrpath(e['b'], fr), None, v, e)
        return T.const(0 if v.s in self.options else NPOS)

    def recorded(self, I, e, fr):
        """the values of all points go to the buffer given"""
        r = self.opaque(I, e, fr)
        lv = I.follow(I.lv(e['a'][2], fr))
        self.buffers.append((self.events[-1], I.read(lv, '')))
        I.write(lv, Opaque('recorded', e['a'][2].get('t', '')))
        return r

    def has_value(self, I, e, fr):
        if 'std::optional' not in e.get('cls', ''):
            return NotImplemented
        p = path(self.val(e['b'], fr))
        if p == 'q.time_series_cycle_':
            return T.const(1 if self.series else 0)
        return ZERO if p is None or 'nullopt' in p else ONE

    def primitive(self, I, e, fr):
        v = self.val(e['a'][0], fr)
        return Arr([T.app('primitive', k, *v.e) for k in range(len(v.e))], v.t)

    def tensor(self, I, e, fr):
        if 'MultiComponentVector' not in e.get('cls', ''):
            return NotImplemented
        n = int(split_targs(e['cls'])[1][1])
        b = self.arrpath(e['b'], fr)
        i = self.val(e['a'][0], fr)
        return Arr([T.app('state', plain(b), i, k) for k in range(n)], e['t'])

    def pairwise(self, a):
        return Arr([x * y for x, y in zip(a[0].e, a[1].e)], a[0].t)

    def sum(self, I, e, fr):
        if not e.get('q', '').startswith('dealii::Utilities::MPI'):
            return NotImplemented
        v, c = self.val(e['a'][0], fr), path(self.val(e['a'][1], fr))
        self.note('call', 'sum', None, [v, c], e)

        def go(x):
            return Arr([go(y) for y in x.e], x.t) if isinstance(x, Arr) else T.app('allsum', c, x)
        return go(v)

    def put(self, I, e, fr):
        if 'boost::archive' in e.get('cls', '') + e['a'][0].get('t', ''):
            return self.stream(I, e, fr)
        if e['k'] == 'opcall' or (e['k'] == 'call' and len(e['a']) == 2):
            b, x = e['a']
        else:
            b, x = e['b'], e['a'][0]
        base = path(self.val(b, fr))
        v = self.val(x, fr)
        if isinstance(v, Opaque) and v.path.startswith('setprecision') or not isinstance(v, (Value, Arr, Str, Opaque)):
            return Opaque(base, '')
        self.note('put', base, None, v, e)
        return Opaque(base, '')

    def puts(self, base):
        return [e for e in self.events if e.kind == 'put' and plain(e.arr) == base]

    def transform(self, I, e, fr):
        r = super().transform(I, e, fr)
        if r is not NotImplemented or not e.get('q', '').startswith('std::transform') or len(e['a']) != 4:
            return r
        try:
            x = self.range(e['a'][0], fr)
        except AnalysisError:
            return NotImplemented
        f = self.val(e['a'][3], fr)
        if not isinstance(f, Clos):
            return NotImplemented
        src = self.arrpath(x, fr)
        out = e['a'][2]
        while out['k'] in ('cast', 'copy') or (out['k'] == 'ctor' and len(out.get('a', [])) == 1):
            out = out['e'] if 'e' in out else out['a'][0]
        ins = out['k'] == 'call' and out['n'].split('<')[0] in ('back_inserter', 'inserter')
        y = out['a'][0] if ins else self.range(out, fr)
        dst = self.arrpath(y, fr)
        et = split_targs(strip_type(x.get('t', '')).replace('const ', ''))[1]
        dt = split_targs(strip_type(y.get('t', '')).replace('const ', ''))[1]
        root = I.new_root(ZERO)
        self.names[root[0]] = 'element of %s' % src
        n = f.node
        n = n['inst'][0] if n.get('generic') else n

        def once(b, fr2):
            i = I.read(root, 'int')
            v = I.call_clos(f, [self.cell(src, i, et[0])], fr2)
            while isinstance(v, Ref):
                v = I.read(v.lv, '')
            if ins:
                self.note('append', dst, None, [v], e)
            else:
                I.assign(self.cell(dst, i, dt[0]), v, e, fr2)
        self.walk({'b': n.get('body'), 'l': e.get('l')}, fr, root, self.size(src), once)
        return None


def each(L, arr):
    """the position in a loop over all elements of an array"""
    if any(not g.is_zero() for g in L.breaks):
        return None
    for init, head, end, after in L.carried.values():
        if isinstance(head, Value) and isinstance(init, Value) and init.is_zero() and (end - head - 1).is_zero():
            n = T.app('size', arr)
            for c in (T.gt0(n - head), ONE - T.ge0(head - n), ONE - T.eq0(n - head)):
                if (L.cond - c).is_zero():
                    return head
    return None


def flat(x):
    return [z for y in x.e for z in flat(y)] if isinstance(x, Arr) else [x]


def same(a, b):
    a, b = flat(a), flat(b)
    return len(a) == len(b) and all(isinstance(x, Value) and isinstance(y, Value) and (x - y).is_zero() for x, y in zip(a, b))


def cells(m, arr, idx, field=''):
    """values in a cell of an array, by their place inside"""
    def of(v):
        return {a.args[1]: T.atom_value(a) for a in v.deep_atoms() if a.name == 'cell' and plain(str(a.args[0])) == arr and (T.lift(a.args[2]) - idx).is_zero()}
    return of


def accumulate_points(R, P, eq, dim, n, mass, kind):
    m = Q(P, 'internal_accumulate', dim, which=n)
    C = Ctx(R, '%s:%d:%s points' % (eq, dim, kind), m.f)
    st, pts, val = [p['n'] for p in m.f['params']]
    w = [e for e in m.events if e.kind == 'write']
    ok = len(w) == 1 and len(w[0].loops) == 1
    i = each(w[0].loops[0], pts) if ok else None
    if not C.ok('all points', i is not None and plain(w[0].arr) == val and (w[0].idx - i).is_zero() and (w[0].guard - w[0].loops[0].cond).is_zero(), 'values', lambda: (w, m.loops)):
        return
    L = w[0].loops[0]
    v = w[0].value
    heads = [a for x in flat(v) for a in x.deep_atoms() if a.name == 'state']
    idx = heads[0].args[1] if heads else None
    nc = len(flat(v)) // 2
    good = idx is not None
    if good:
        e = [a for a in T.lift(idx).atoms()]
        good = len(e) == 1 and e[0].name == 'cell' and plain(str(e[0].args[0])) == pts and e[0].args[1] == '<0>' and (T.lift(e[0].args[2]) - i).is_zero()
    C.ok('index', good, 'values', lambda: v)
    if not good:
        return
    U = [T.app('state', '%s<0>' % st if '%s<0>' % st in str(heads[0].args[0]) else str(heads[0].args[0]), idx, k) for k in range(nc)]
    C.ok('state', plain(str(heads[0].args[0])).startswith(st), 'values', lambda: heads[0])
    prim = [T.app('primitive', k, *U) for k in range(nc)]
    want = prim + [x * x for x in prim]
    C.ok('values', same(v, Arr(want)), 'values', lambda: v)
    mi = cells(m, pts, i)
    # sums
    total, sums = None, {}
    for nm, (init, head, end, after) in L.carried.items():
        if not isinstance(head, Value) or (head - i).is_zero():
            continue
        d = end - head
        c = mi(d)
        M = c.get('<%d>' % mass)
        if not init.is_zero() or M is None:
            continue
        if (d - M).is_zero():
            total = after
        for k, x in enumerate(want):
            if (d - M * x).is_zero():
                sums[k] = after
    C.ok('sums', total is not None and len(sums) == 2 * nc, 'average', lambda: L)
    if total is None or len(sums) != 2 * nc:
        return
    comm = 'q.mpi_communicator_'
    avg = Arr([T.app('allsum', comm, sums[k]) * T.inv(T.app('allsum', comm, total)) for k in range(2 * nc)])
    C.ok('average', isinstance(m.ret, Arr) and same(m.ret, avg), 'average', lambda: m.ret)
    C.ok('together', all(e.guard == ONE and not e.loops for e in m.calls('sum')), 'average', lambda: m.calls('sum'))


class Group:
    """what is done for the manifolds of one kind"""

    def __init__(self, m, kind, anchor):
        self.kind = kind
        self.points = 'q.%s_maps_' % kind
        self.manifolds = 'q.%s_manifolds_' % kind
        self.ev = [e for e in anchor if e.loops and (self.points + '[' in self.text(e))]
        self.L = self.h = None
        Ls = [(L, each(L, self.points)) for L in m.loops if L.parent is None]
        Ls = [x for x in Ls if x[1] is not None]
        if len(Ls) == 1:
            self.L, self.h = Ls[0]
            self.el = '%s[%s]' % (self.points, pretty(self.h))
            self.opt = 'result of get_options_from_name|%s|%s<0>' % (self.manifolds, self.el)
            self.stat = 'q.%s_statistics_[idx(%s<0>)]' % (kind, self.el)
            self.series = 'q.%s_time_series_[idx(%s<0>)]' % (kind, self.el)

    def text(self, e):
        return ' '.join(path(x) or '' for x in (e.value if isinstance(e.value, list) else [e.value]) if x is not None and not isinstance(x, (Value, Arr)))

    def inside(self, m):
        return [e for e in m.events if e.loops and e.loops[0] is self.L]


def asked(C, m, g):
    """the options are those of the manifold"""
    o = [e for e in g.inside(m) if e.kind == 'option']
    C.ok('options', o and all(e.arr == g.opt for e in o), 'select', lambda: o)


def final(g, k):
    """what a part of the statistics is after the manifold has been treated"""
    for init, head, end, after in g.L.carried.values():
        if isinstance(end, Struct) and 'q' != k:
            s = end.f.get('%s_statistics_' % g.kind)
            if isinstance(s, Struct):
                r = [x for n, x in s.f.items() if isinstance(x, (Struct, Arr))]
                if len(r) == 1 and isinstance(r[0], Struct):
                    return r[0].f.get(('i', k))
    return None


def combos(names):
    for r in range(len(names) + 1):
        yield from itertools.combinations(names, r)


def accumulate(R, P, eq, dim):
    for opts in combos(OPTIONS):
        m = Q(P, 'accumulate', dim, ('internal_accumulate', 'get_options_from_name'), options=opts)
        for kind in KINDS:
            C = Ctx(R, '%s:%d:accumulate:%s:%s' % (eq, dim, kind, '+'.join(o.split('_')[0] for o in opts) or 'nothing'), m.f)
            g = Group(m, kind, m.events)
            if not C.ok('every manifold', g.L is not None, 'select', lambda: m.loops):
                continue
            asked(C, m, g)
            ia = [e for e in g.inside(m) if e.kind == 'call' and e.arr == 'internal_accumulate']
            app = [e for e in g.inside(m) if e.kind == 'append']
            wr = [e for e in g.inside(m) if e.kind == 'write']
            if not ('time_averaged' in opts or 'space_averaged' in opts):
                C.ok('skipped', not ia and not app and not wr, 'select', lambda: ia + app + wr)
                continue
            good = len(ia) == 1 and (ia[0].guard - g.L.cond).is_zero() and len(ia[0].loops) == 1 and path(ia[0].value[1]) == m.f['params'][0]['n'] and plain(path(ia[0].value[2])) == g.el + '<1>'
            C.ok('computed', good, 'select', lambda: ia)
            if not good:
                continue
            X, Y = 'recorded', g.stat + '[1]'
            slots = ['%s[%d]' % (g.stat, k) for k in range(3)]
            t = S(m.f['params'][1]['n'])
            told, tnew, tsum = (T.sym('%s[%d]' % (g.stat, k)) for k in (3, 4, 5))
            first = T.eq0(tnew) * T.eq0(told)
            # the values recorded last are the old ones, the new ones go to the other buffer
            C.ok('order', path(final(g, 1)) == X and path(final(g, 0)) == Y, 'time', lambda: (final(g, 0), final(g, 1)))
            a, b, c = final(g, 3), final(g, 4), final(g, 5)
            vals = all(isinstance(x, Value) for x in (a, b, c))
            G = g.L.cond
            C.ok('new time', vals and (G * (b - t)).is_zero(), 'time', lambda: b)
            C.ok('old time', vals and (G * (ONE - first) * (a - tnew)).is_zero(), 'time', lambda: a)
            C.ok('total time', vals and (G * (c - tsum - (ONE - first) * (t - tnew))).is_zero(), 'time', lambda: c)
            tau = t - tnew
            for f in ('0', '1'):
                w = [e for e in wr if plain(e.arr) == slots[2] and (e.field == f or e.field.startswith(f + '.'))]
                good = len(w) >= 1 and len(w[-1].loops) == 2
                i = each(w[-1].loops[1], slots[2]) if good else None
                good = i is not None and all((e.idx - i).is_zero() and (e.guard - G * (ONE - first) * w[-1].loops[1].cond).is_zero() for e in w)
                C.ok('sum over all:' + f, good, 'time', lambda: (w, w and w[-1].loops))
                if not good:
                    continue
                last = {}
                for e in w:
                    sub = e.field[len(f):]
                    for k, x in enumerate(flat(e.value)):
                        last['<%s>[%d]' % (f, k) if not sub else '<%s>[%s]' % (f, sub[1:])] = x
                for key, x in sorted(last.items()):
                    s, o, n = (cells(m, z, i)(x).get(key) for z in (slots[2], Y, X))
                    C.ok('trapezoid:' + key, None not in (s, o, n) and (x - s - tau * (o + n) * T.const(T.Fraction(1, 2))).is_zero(), 'time', lambda: show(x))
                C.ok('components:' + f, len(last) >= dim + 1 or eq in ('scalar_conservation', 'skeleton'), 'time', lambda: last)
            good = len(app) == 1 and plain(app[0].arr) == g.series and (app[0].guard - G).is_zero() and (flat(app[0].value[0])[0] - t).is_zero() if app and isinstance(app[0].value[0], Arr) else \
                len(app) == 1 and plain(app[0].arr) == g.series and (app[0].guard - G).is_zero() and isinstance(app[0].value[0], Value) and (app[0].value[0] - t).is_zero()
            C.ok('series', good and 'internal_accumulate' in pretty_all(app[0].value), 'time', lambda: app)
            C.ok('nothing else', all(plain(e.arr) in (slots[2],) for e in wr), 'select', lambda: wr)


def pretty_all(x):
    if isinstance(x, (list, tuple)):
        return ' '.join(pretty_all(y) for y in x)
    return pretty(x)


def outname(g, mid, lit):
    return [('s', 'q.base_name_'), ('l', '-'), ('s', g.el + '<0>'), ('l', '-R'), ('s', mid), ('l', lit)]


def settled(v, *conds):
    """a guard where some conditions hold"""
    for c in conds:
        for a in T.bools(v):
            if (T.atom_value(a) - c).is_zero():
                v = T.restrict(v, a, 1)
    return v


def write_out(R, P, eq, dim):
    for series, opts in itertools.product((False, True), combos(OPTIONS)):
        m = Q(P, 'write_out', dim, ('internal_accumulate', 'internal_write_out', 'internal_write_out_time_series', 'write_mesh_files', 'clear_statistics', 'get_options_from_name'),
              options=opts, series=series)
        tag = '%s:%d:write:%s:%s' % (eq, dim, 'again' if series else 'first', '+'.join(o.split('_')[0] for o in opts) or 'nothing')
        C = Ctx(R, tag, m.f)
        stv, tn, cy = [p['n'] for p in m.f['params']]
        t, cyc = S(tn), S(cy)
        mf = m.calls('write_mesh_files')
        written = T.boolsym('q.mesh_files_have_been_written_')
        C.ok('point files', len(mf) == 1 and (mf[0].guard - (ONE - written)).is_zero() and not mf[0].loops and (mf[0].value[1] - cyc).is_zero(), 'files', lambda: mf)
        end = m.I.read(m.this, '')
        C.ok('point files once', isinstance(end, Struct) and isinstance(end.f.get('mesh_files_have_been_written_'), Value) and
             (end.f['mesh_files_have_been_written_'] - ONE).is_zero() or mesh_flag(m), 'files', lambda: end)
        sc = [e for e in m.events if e.kind == 'call' and e.arr == '=' and path(e.value[0]) == 'q.time_series_cycle_']
        C.ok('series number', not sc if series else len(sc) == 1 and sc[0].guard == ONE and not sc[0].loops and (path(sc[0].value[1]) or pretty(sc[0].value[1])) in ('std::optional<unsigned int>(%s)' % cy, cy),
             'files', lambda: sc)
        last = 0
        for kind in KINDS:
            C = Ctx(R, tag + ':' + kind, m.f)
            g = Group(m, kind, m.events)
            if not C.ok('every manifold', g.L is not None, 'select', lambda: m.loops):
                continue
            asked(C, m, g)
            G = g.L.cond
            inside = g.inside(m)
            last = max([last] + [m.at(e) for e in inside])
            ia = [e for e in inside if e.kind == 'call' and e.arr == 'internal_accumulate']
            wo = [e for e in inside if e.kind == 'call' and e.arr == 'internal_write_out']
            ts = [e for e in inside if e.kind == 'call' and e.arr == 'internal_write_out_time_series']
            cl = [e for e in inside if e.kind == 'clear' and plain(e.arr) == g.series]
            avg = 'time_averaged' in opts or 'space_averaged' in opts
            inst = 'instantaneous' in opts
            tnew, tsum = S(g.stat + '[4]'), S(g.stat + '[5]')
            # the statistics are those of the time of output
            now = [T.eq0(tnew - t)] if avg and inst else []
            new, total = g.stat + '[1]', g.stat + '[2]'
            rec = 'to_string|%s|4' % cy
            good = True
            if inst and not avg:
                good = len(ia) == 1 and (ia[0].guard - G).is_zero() and len(ia[0].loops) == 1 and path(ia[0].value[1]) == stv and plain(path(ia[0].value[2])) == g.el + '<1>'
                buf = 'recorded'
            else:
                good, buf = not ia, new
            C.ok('computed', good, 'select', lambda: ia)
            w = [e for e in wo if (pieces(e.value[1]) or [0])[-1] == ('l', '-instantaneous.dat')]
            good = not w
            if inst:
                good = len(w) == 1 and (settled(w[0].guard, *now) - G).is_zero() and len(w[0].loops) == 1 and outname(g, 'to_string(%s, 4)' % cy, '-instantaneous.dat') == pieces(w[0].value[1]) and \
                    plain(path(w[0].value[3])) == buf and isinstance(w[0].value[4], Value) and (w[0].value[4] - ONE).is_zero() and (not ia or m.at(ia[0]) < m.at(w[0]))
            C.ok('instantaneous', good, 'select', lambda: wo)
            w = [e for e in wo if (pieces(e.value[1]) or [0])[-1] == ('l', '-time_averaged.dat')]
            good = not w
            if 'time_averaged' in opts:
                good = len(w) == 1 and (settled(w[0].guard, *now) - G * (ONE - T.eq0(tsum))).is_zero() and len(w[0].loops) == 1 and outname(g, 'to_string(%s, 4)' % cy, '-time_averaged.dat') == pieces(w[0].value[1]) and \
                    plain(path(w[0].value[3])) == total and isinstance(w[0].value[4], Value) and (w[0].value[4] * tsum - ONE).is_zero()
            C.ok('time average', good, 'select', lambda: wo)
            C.ok('nothing else', len(wo) == ('instantaneous' in opts) + ('time_averaged' in opts), 'select', lambda: wo)
            good = not ts and not cl
            if 'space_averaged' in opts:
                mids = ['to_string(q.time_series_cycle_, 4)'] if series else ['to_string(std::optional<unsigned int>(%s), 4)' % cy, 'to_string(%s, 4)' % cy]
                good = len(ts) == 1 and (settled(ts[0].guard, *now) - G).is_zero() and len(ts[0].loops) == 1 and any(outname(g, x, '-space_averaged_time_series.dat') == pieces(ts[0].value[1]) for x in mids) and \
                    plain(path(ts[0].value[2])) == g.series and isinstance(ts[0].value[3], Value) and (ts[0].value[3] - (ONE if series else ZERO)).is_zero()
                C.ok('series cleared', len(cl) == 1 and ts and m.at(cl[0]) > m.at(ts[0]) and (settled(cl[0].guard, *now) - G).is_zero(), 'files', lambda: cl)
            C.ok('series', good, 'select', lambda: (ts, cl))
        C = Ctx(R, tag, m.f)
        cs = m.calls('clear_statistics')
        C.ok('cleared', len(cs) == 1 and not cs[0].loops and any((all_settled(cs[0].guard) - x).is_zero() for x in (T.boolsym('q.clear_temporal_statistics_on_writeout_'),)) and m.at(cs[0]) > last, 'time', lambda: cs)


def all_settled(v):
    """without the conditions on the time of the records"""
    for a in list(T.bools(v)):
        if a.name == 'eq0':
            v = T.restrict(v, a, 1)
    return v


def mesh_flag(m):
    w = [e for e in m.events if e.kind == 'call' and e.arr == '=' and path(e.value[0]) == 'q.mesh_files_have_been_written_']
    f = T.boolsym('q.mesh_files_have_been_written_')
    return len(w) == 1 and not w[0].loops and isinstance(w[0].value[1], Value) and (w[0].value[1] - ONE).is_zero() and any((w[0].guard - x).is_zero() for x in (ONE, ONE - f))


def stream_of(m):
    """the file a function writes, with everything put there"""
    r = {}
    for e in m.events:
        if e.kind == 'put':
            r.setdefault(plain(e.arr), []).append(e)
    return r


def table(m, evs, L):
    """what is written for every element"""
    return [e.value for e in evs if e.loops and e.loops[-1] is L]


def rank0(c):
    return T.eq0(T.app('this_mpi_process', c))


def rows(C, m, evs, arr, inner, columns, rule, root):
    """one row for each entry of every process"""
    Ls = [L for L in m.loops if any(e.loops and e.loops[-1] is L for e in evs)]
    hits = []
    for L in Ls:
        h = each(L, arr if inner is None else None) if inner is None else None
        if inner is not None and L.parent is not None:
            ho = each(L.parent, arr)
            if ho is not None:
                el = '%s[%s]' % (arr, pretty(ho))
                hi = each(L, el)
                if hi is not None:
                    hits.append((L, el, hi))
        elif h is not None:
            hits.append((L, arr, h))
    if not C.ok('every entry', len(hits) == 1, rule, lambda: (arr, m.loops)):
        return
    L, el, i = hits[0]
    vals = [e for e in evs if e.loops and e.loops[-1] is L]
    shown = [e.value for e in vals if not (isinstance(e.value, Str) and not e.value.s.strip())]
    want = columns(el, i)
    C.ok('columns', len(shown) == len(want) and all(same(a, b) if isinstance(a, (Arr, Value)) else False for a, b in zip(shown, want)), rule, lambda: (shown, want))
    g = root * L.cond * (L.parent.cond if L.parent is not None and L.parent.cond is not None else ONE)
    C.ok('rows always', all((e.guard - vals[0].guard).is_zero() for e in vals) and (vals[0].guard - g).is_zero(), rule, lambda: vals[:2])
    C.ok('separated', bool(vals) and isinstance(vals[-1].value, Str) and vals[-1].value.s.endswith('\n'), rule, lambda: vals[-1:])


def cellat(m, arr, sub, i, like):
    """the value of a field of an element as the interpreter names it"""
    return T.app('cell', arr, sub, i)


def columns_of(m, evs, names):
    """values shown, looked up by the places they come from"""


def files(R, P, eq, dim):
    # one value per point
    m = Q(P, 'internal_write_out', dim)
    C = Ctx(R, '%s:%d:write values' % (eq, dim), m.f)
    fn, stamp, vals, scale = [p['n'] for p in m.f['params']]
    comm = 'q.mpi_communicator_'
    gt = m.calls('gather')
    C.ok('gathered', len(gt) == 1 and gt[0].guard == ONE and not gt[0].loops and plain(path(gt[0].value[1])) == comm and plain(path(gt[0].value[2])) == vals and (len(gt[0].value) < 4 or gt[0].value[3].is_zero()), 'files', lambda: gt)
    st = stream_of(m)
    if C.ok('one file', len(st) == 1 and '(%s' % fn in list(st)[0], 'files', lambda: st):
        evs = list(st.values())[0]
        C.ok('time stamp', evs and path(evs[0].value) == stamp and (evs[0].guard - rank0(comm)).is_zero(), 'files', lambda: evs[:2])

        def cols(el, i):
            out = []
            for f in ('<0>', '<1>'):
                k = len([a for a in set(x for e in evs for z in flat(e.value) if isinstance(z, Value) for x in z.deep_atoms()) if a.name == 'cell' and a.args[1].startswith(f + '[')])
                out.append(Arr([S(scale) * T.app('cell', el, '%s[%d]' % (f, d), i) for d in range(k)]))
            return out
        rows(C, m, evs, 'gather(%s, %s, 0)' % (comm, vals), True, cols, 'files', rank0(comm))
    # one value per time
    m = Q(P, 'internal_write_out_time_series', dim)
    C = Ctx(R, '%s:%d:write series' % (eq, dim), m.f)
    fn, vals, app = [p['n'] for p in m.f['params']]
    st = stream_of(m)
    ap = T.boolsym(app)
    op = m.calls('open')
    g = rank0(comm)
    a = [e for e in op if (e.guard - g * ap).is_zero()]
    n = [e for e in op if (e.guard - g * (ONE - ap)).is_zero()]
    good = len(op) == 2 and len(a) == 1 and len(n) == 1 and all(path(e.value[1]) == fn for e in op)
    C.ok('opened', good and int(a[0].value[2].const()) & 33 == 1 and int(n[0].value[2].const()) & 33 == 32 and all(int(e.value[2].const()) & 16 for e in op), 'files', lambda: op)
    if C.ok('one file', len(st) == 1, 'files', lambda: st):
        evs = list(st.values())[0]

        def cols(el, i):
            out = [T.app('cell', el, '<0>', i)]
            for f in ('<1><0>', '<1><1>'):
                k = len([a for a in set(x for e in evs for z in flat(e.value) if isinstance(z, Value) for x in z.deep_atoms()) if a.name == 'cell' and a.args[1].startswith(f + '[')])
                out.append(Arr([T.app('cell', el, '%s[%d]' % (f, d), i) for d in range(k)]))
            return out
        head = [e for e in evs if not e.loops]
        C.ok('header', head and all((e.guard - g * (ONE - ap)).is_zero() for e in head), 'files', lambda: head)
        rows(C, m, evs, vals, None, cols, 'files', g)
    # point files
    for opts in combos(OPTIONS):
        m = Q(P, 'write_mesh_files', dim, ('get_options_from_name',), options=opts)
        cy = m.f['params'][0]['n']
        for kind in KINDS:
            C = Ctx(R, '%s:%d:point files:%s:%s' % (eq, dim, kind, '+'.join(o.split('_')[0] for o in opts) or 'nothing'), m.f)
            g = Group(m, kind, m.events)
            if not C.ok('every manifold', g.L is not None, 'select', lambda: m.loops):
                continue
            asked(C, m, g)
            inside = g.inside(m)
            puts = [e for e in inside if e.kind == 'put']
            gt = [e for e in inside if e.kind == 'call' and e.arr == 'gather']
            if not ('instantaneous' in opts or 'time_averaged' in opts):
                C.ok('skipped', not puts and not gt, 'select', lambda: puts[:3])
                continue
            C.ok('gathered', len(gt) == 1 and (gt[0].guard - g.L.cond).is_zero() and len(gt[0].loops) == 1 and plain(path(gt[0].value[2])) == g.el + '<1>', 'files', lambda: gt)
            names = set(plain(e.arr) for e in puts)
            want = 'std::basic_ofstream<char, std::char_traits<char>>'
            good = len(names) == 1 and list(names)[0].startswith(want)
            if good:
                p = list(names)[0][len(want) + 1:].rsplit(',', 1)[0]
                good = pieces(p) == outname(g, 'to_string(%s, 4)' % cy, '-points.dat')
            C.ok('name', good, 'files', lambda: names)

            def cols(el, i):
                x = (lambda f: Arr([T.app('cell', el, '%s[%d]' % (f, d), i) for d in range(dim)]))
                if kind == 'interior':
                    return [x('<2>'), T.app('cell', el, '<1>', i)]
                return [x('<5>'), x('<1>'), T.app('cell', el, '<2>', i), T.app('cell', el, '<3>', i)]
            sub = [e for e in puts]
            rows(C, m, sub, 'gather(%s, %s, 0)' % (comm, g.el + '<1>'), True, cols, 'files', rank0(comm) * g.L.cond)


def clearing(R, P, eq, dim):
    m = Q(P, 'clear_statistics', dim)
    for kind in KINDS:
        C = Ctx(R, '%s:%d:clear:%s' % (eq, dim, kind), m.f)
        g = Group(m, kind, m.events)
        if not C.ok('every manifold', g.L is not None, 'fresh', lambda: m.loops):
            continue
        first = min([m.at(e) for e in g.inside(m)] or [0])
        for what, before in (('statistics', True), ('time_series', None)):
            cl = [e for e in m.events if (e.kind == 'call' and e.arr == 'clear' and path(e.value[0]) == 'q.%s_%s_' % (kind, what)) or (e.kind == 'clear' and plain(e.arr) == 'q.%s_%s_' % (kind, what))]
            C.ok('clear ' + what, len(cl) == 1 and cl[0].guard == ONE and not cl[0].loops and (before is None or m.at(cl[0]) < first), 'fresh', lambda: cl)
        for k in range(3):
            r = [e for e in g.inside(m) if e.kind == 'resize' and plain(e.arr) == '%s[%d]' % (g.stat, k)]
            C.ok('size %d' % k, len(r) == 1 and (r[0].guard - g.L.cond).is_zero() and isinstance(r[0].value[0], Value) and (r[0].value[0] - T.app('size', g.el + '<1>')).is_zero(), 'fresh', lambda: r)
        for k in (3, 4, 5):
            v = final(g, k)
            C.ok('time %d' % k, isinstance(v, Value) and (g.L.cond * v).is_zero(), 'fresh', lambda: v)


def product(C, key, v, roles, rule):
    """a guard is the conjunction of certain conditions; every condition has a role and a sign"""
    got, rest = {}, v
    for a in T.bools(v):
        x = T.atom_value(a)
        r = None
        for name, fn in roles.items():
            s = fn(a, x)
            if s:
                r = (name, s)
        if r is None:
            return C.ok(key, False, rule, lambda: ('unknown condition', show(x)))
        got.setdefault(r[0], []).append(x if r[1] > 0 else ONE - x)
    w = ONE
    for xs in got.values():
        for x in xs:
            w = w * x
    return C.ok(key, set(got) == set(roles) and all(len(x) == 1 for x in got.values()) and (v - w).is_zero(), rule, lambda: (sorted(set(roles) - set(got)), show(v)))


def same_as(c):
    """role of one particular condition"""
    return lambda a, x: 1 if (x - c).is_zero() else -1 if (x - (ONE - c)).is_zero() else 0


def levelset(parser, pos):
    """the point is on the level set up to a small tolerance"""
    def fn(a, x):
        if a.name not in ('gt0', 'ge0'):
            return 0
        v = a.args[0]
        vs = [b for b in v.deep_atoms() if b.name == 'value']
        if len(vs) != 1 or plain(str(vs[0].args[0])) .find(parser) < 0:
            return 0
        if not pos(vs[0].args[1]):
            return 0
        d = T.absval(T.atom_value(vs[0]))
        for s in (1, -1):
            # tolerance - d, up to a positive factor
            c = T.diff(v, next(iter(d.atoms()))).const()
            if not c:
                return 0
            tol = (v - d * T.const(c)).const()
            if tol is None:
                return 0
            tol = tol / -c
            return (1 if c < 0 else -1) if 0 < tol <= T.Fraction(1, 10**8) else 0
        return 0
    return fn


def prepare(R, P, eq, dim):
    m = Q(P, 'prepare', dim, ('clear_statistics',))
    C = Ctx(R, '%s:%d:prepare' % (eq, dim), m.f)
    nm = m.f['params'][0]['n']
    base = [e for e in m.events if e.kind == 'call' and e.arr == '=' and path(e.value[0]) == 'q.base_name_']
    C.ok('name', len(base) == 1 and path(base[0].value[1]) == nm and base[0].guard == ONE, 'fresh', lambda: base)
    rs = [e for e in m.events if e.kind == 'call' and ((e.arr == 'reset' and path(e.value[0]) == 'q.time_series_cycle_') or (e.arr == '=' and path(e.value[0]) == 'q.time_series_cycle_' and 'nullopt' in pretty_all(e.value)))]
    C.ok('new series', len(rs) == 1 and rs[0].guard == ONE and not rs[0].loops, 'fresh', lambda: rs)
    cs = m.calls('clear_statistics')
    last = 0
    fl = [e for e in m.events if e.kind == 'call' and e.arr == '=' and path(e.value[0]) == 'q.mesh_files_have_been_written_']
    C.ok('new point files', len(fl) == 1 and fl[0].guard == ONE and not fl[0].loops and fl[0].value[1].is_zero(), 'fresh', lambda: fl)
    for kind in KINDS:
        C = Ctx(R, '%s:%d:prepare:%s' % (eq, dim, kind), m.f)
        man, maps = 'q.%s_manifolds_' % kind, 'q.%s_maps_' % kind
        ins = [e for e in m.events if e.kind == 'append' and plain(e.arr) == maps]
        cl = [e for e in m.events if e.kind in ('call', 'clear') and (e.arr == 'clear' and path(e.value[0]) == maps or e.kind == 'clear' and e.arr == maps)]
        if not C.ok('one map each', len(ins) == 1 and len(ins[0].loops) == 1 and each(ins[0].loops[0], man) is not None and (ins[0].guard - ins[0].loops[0].cond).is_zero() and
                    len(cl) == 1 and cl[0].guard == ONE and m.at(cl[0]) < m.at(ins[0]), 'points', lambda: (ins, cl)):
            continue
        last = max(last, m.at(ins[0]))
        L = ins[0].loops[0]
        h = each(L, man)
        el = '%s[%s]' % (man, pretty(h))
        pr = ins[0].value[0]
        pr = pr.e if isinstance(pr, Arr) else [pr.f.get('first'), pr.f.get('second')] if isinstance(pr, Struct) else [None, None]
        C.ok('its name', plain(path(pr[0])) == el + '<0>', 'points', lambda: ins)
        target = plain(path(pr[1])) if path(pr[1]) else None
        app = [e for e in m.events if e.kind == 'append' and plain(e.arr) == target and e.loops and e.loops[0] is L]
        if not C.ok('filled', target is not None and len(app) == 1 and len(app[0].loops) == 2, 'points', lambda: (target, app)):
            continue
        parser = 'FunctionParser<%d>(%s<1>' % (dim, el)
        if kind == 'interior':
            interior(C, m, dim, L, app[0], parser)
        else:
            bm = 'od.boundary_map_'
            L2 = app[0].loops[1]
            i = each(L2, bm)
            if not C.ok('all entries', i is not None, 'points', lambda: L2):
                continue
            cell = lambda f: T.app('cell', bm, f, i)
            idx = cell('<0>')
            vals = app[0].value
            flatv = [x for v in vals for x in flat(v)]
            want = [idx] + [cell('<1>[%d]' % d) for d in range(dim)] + [cell('<2>'), cell('<3>'), cell('<4>')] + [cell('<5>[%d]' % d) for d in range(dim)]
            C.ok('whole entry', len(flatv) == len(want) and all(isinstance(a, Value) and (a - b).is_zero() for a, b in zip(flatv, want)), 'points', lambda: flatv)
            product(C, 'kept', app[0].guard, {
                'manifold': same_as(L.cond), 'entry': same_as(L2.cond), 'owned': same_as(T.gt0(S('od.n_locally_owned_') - idx)),
                'unconstrained': unconstrained(idx),
                'level set': levelset(parser, lambda p: positions(p) == [str(x) for x in want[-dim:]])}, 'points')
    C = Ctx(R, '%s:%d:prepare' % (eq, dim), m.f)
    C.ok('statistics', len(cs) == 1 and cs[0].guard == ONE and not cs[0].loops and m.at(cs[0]) > last, 'fresh', lambda: cs)


def positions(p):
    """components of a position given to a function"""
    if isinstance(p, Arr):
        return [str(x) for x in p.e]
    if isinstance(p, (tuple, list)):
        return [str(x) for x in p]
    return [pretty(p)]


def unconstrained(idx):
    def fn(a, x):
        if a.name == 'is_constrained':
            y = T.lift(a.args[1])
            return -1 if plain(str(a.args[0])) == 'od.affine_constraints_' and (y - T.app('local_to_global', 'od.scalar_partitioner_', idx)).is_zero() else 0
        if a.name == 'eq0':
            d = a.args[0]
            w = T.app('row_length', 'od.sparsity_pattern_simd_', idx)
            return -1 if (d - (w - 1)).is_zero() or (d - (ONE - w)).is_zero() else 0
        return 0
    return fn


def interior(C, m, dim, L, copy, parser):
    """points are collected by index, then copied"""
    L2 = copy.loops[1]
    src = None
    for x in flat(copy.value[0]) if isinstance(copy.value[0], (Arr, Value)) else []:
        for a in x.deep_atoms():
            if a.name == 'cell':
                src = str(a.args[0])
    i = each(L2, src) if src else None
    good = i is not None and (copy.guard - L.cond * L2.cond).is_zero()
    vals = [x for v in copy.value for x in flat(v)]
    want = ['<1><0>', '<1><1>'] + ['<1><2>[%d]' % d for d in range(dim)]
    C.ok('all copied', good and len(vals) == len(want) and all((v - T.app('cell', src, f, i)).is_zero() for v, f in zip(vals, want)), 'points', lambda: copy)
    if not good:
        return
    col = re.sub(r'^#|^head\d+\.(after )?', '', plain(src))
    w = [e for e in m.events if e.kind == 'call' and e.arr == '=' and e.loops and e.loops[0] is L and re.match(r'(#|head\d+\.(after )?)?%s\[' % re.escape(col), path(e.value[0]) or '')]
    if not C.ok('collected', len(w) == 1 and len(w[0].loops) == 3 and isinstance(w[0].value[1], Arr) and m.at(w[0]) < m.at(copy), 'points', lambda: w):
        return
    e = w[0]
    v = flat(e.value[1])
    idx = v[0]
    key = (path(e.value[0]) or '').split('[', 1)[1][:-1]
    L1, L3 = e.loops[1:]
    cellpath = [x for x in m.events if x.kind == 'call' and x.arr in ('get_active_or_mg_dof_indices', 'get_dof_indices') and x.loops[:2] == e.loops[:2] and len(x.loops) == 2]
    if not C.ok('cell', len(cellpath) == 1 and m.at(cellpath[0]) < m.at(e), 'points', lambda: cellpath):
        return
    cell = path(cellpath[0].value[0])
    dofs = plain(path(cellpath[0].value[1]))
    j = None
    for init, head, end, after in L3.carried.values():
        if isinstance(head, Value) and isinstance(init, Value) and init.is_zero() and (end - head - 1).is_zero():
            j = head
    C.ok('cells', 'active_cell_iterators' in cell and 'od.dof_handler_' in cell and L1.cond is not None and L1.cond == ONE and all(b.is_zero() for b in L1.breaks + L3.breaks), 'points', lambda: (cell, L1))
    hi = None
    if j is not None:
        d = (L3.cond if True else None)
        for a in L3.cond.atoms():
            if a.kind == 'bool' and a.name in ('gt0', 'ge0'):
                hi = a.args[0]
    C.ok('all points of a cell', j is not None and hi is not None and any((L3.cond - c).is_zero() for n in
         [T.sym(x) for x in ('od.dof_handler_.get_fe(0).dofs_per_cell', 'od.discretization_.finite_element_.dofs_per_cell')] + [T.app('size', dofs)] for c in (T.gt0(n - j), ONE - T.ge0(j - n))), 'points', lambda: L3)
    if j is None:
        return
    gl = [a for a in idx.deep_atoms() if a.name == 'cell' and plain(str(a.args[0])) == dofs]
    C.ok('index', len(gl) == 1 and (T.lift(gl[0].args[2]) - j).is_zero() and (idx - T.app('global_to_local', 'od.scalar_partitioner_', T.atom_value(gl[0]))).is_zero() and key == pretty(idx), 'points', lambda: (idx, key))
    C.ok('mass', (v[1] - T.app('cell', 'od.lumped_mass_matrix_', '', idx)).is_zero(), 'points', lambda: v[1])
    tr = [x for x in m.calls('transform_unit_to_real_cell') if x.loops == e.loops]
    pos = v[2:]
    good = len(tr) == 1 and len(pos) == dim and plain(path(tr[0].value[0])) == 'od.discretization_.mapping_' and cell in (path(tr[0].value[1]) or '')
    if good:
        sp = [a for z in flat(tr[0].value[2]) for a in z.deep_atoms() if a.name == 'cell']
        good = len(sp) == dim and all('get_unit_support_points' in str(a.args[0]) and a.args[1] == '[%d]' % d and (T.lift(a.args[2]) - j).is_zero() for d, a in enumerate(sp))
    C.ok('position', good and all(len(z.atoms()) == 1 and next(iter(z.atoms())).name == 'transform_unit_to_real_cell[%d]' % d for d, z in enumerate(pos)), 'points', lambda: (tr, pos))
    product(C, 'kept', e.guard, {
        'manifold': same_as(L.cond), 'dof': same_as(L3.cond), 'cell': lambda a, x: 1 if a.name == 'is_locally_owned' and plain(str(a.args[0])) == plain(cell) else 0,
        'owned': same_as(T.gt0(S('od.n_locally_owned_') - idx)), 'unconstrained': unconstrained(idx),
        'level set': levelset(parser, lambda p: True)}, 'points')
    vs = [x for x in m.calls('value') if x.loops == e.loops and parser in (path(x.value[0]) or '')]
    C.ok('level set at', len(vs) == 1 and same(vs[0].value[1], Arr(pos)), 'points', lambda: vs)


def check(R, item):
    tu, eq = item
    P = export.programs([tu])[tu]
    for dim in (1, 2, 3):
        accumulate_points(R, P, eq, dim, 3, 1, 'interior')
        accumulate_points(R, P, eq, dim, 6, 3, 'boundary')
        accumulate(R, P, eq, dim)
        write_out(R, P, eq, dim)
        files(R, P, eq, dim)
        clearing(R, P, eq, dim)
        prepare(R, P, eq, dim)


def run(R):
    for r in RULES.values():
        R.rule(r + '.')
    eqs = EQ if R.tier == 'thorough' else EQ[:2]
    R.each([('%s:quantities.cc' % e, e) for e in eqs], check)
    R.floor('obligations', 150)
