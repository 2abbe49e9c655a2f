"""Abstract execution of index arithmetic.

Containers are arrays of cells addressed by integer normal forms; pointers and
iterators are offsets into them; appends advance a symbolic size.  A loop is
analysed in one arbitrary iteration: every location it changes becomes a fresh
symbol at the head, and the step from the head to the next head is recorded,
so that an invariant can be decided by initial value and step.
"""
import re
import terms as T
from terms import Value, ZERO, ONE
from interp import AnalysisError, Arr, Struct, Opaque, Str, Ref, Clos, strip_type, split_targs, is_scalar_type, pretty, tkey, INTS
from model import Model

CONTAINERS = ('AlignedVector', 'std::vector', 'std::basic_string', 'std::deque')


def width(x):
    return int(x.rstrip('UL'))


class Ev:
    __slots__ = ('kind', 'arr', 'idx', 'field', 'value', 'guard', 'loops', 'line', 'node')

    def __repr__(self):
        return '%s %s[%s]%s = %s  if %s in %s (line %s)' % (
            self.kind, self.arr, pretty(self.idx) if self.idx is not None else '', self.field or '', show(self.value),
            pretty(self.guard), [l.id for l in self.loops], self.line)


def show(v):
    if isinstance(v, (list, tuple)):
        return [show(x) for x in v]
    return pretty(v)[:200] if v is not None else None


class Loop:
    def __init__(self, id, line):
        self.id, self.line = id, line
        self.carried = {}      # name -> (initial, at the head, at the next head, after)
        self.cond = ONE
        self.parent = None
        self.depth = 0

    def __repr__(self):
        return 'loop%d(line %s, while %s, %s)' % (self.id, self.line, pretty(self.cond)[:150], {
            k: [show(x) for x in v] for k, v in self.carried.items()})


WHOLE = ('dealii::FullMatrix', 'dealii::LinearAlgebra::distributed::Vector', 'dealii::Vector<')


class Memory:
    def __init__(self, prog):
        self.index = {}
        self.tagged = set()    # types of local objects told apart by the name of the variable
        self.paths = {}        # path of an element -> (array, index)
        self.P = prog
        self.M = Model(prog)
        self.I = I = self.M.I
        self.events = []
        self.loops = []
        self.stack = []
        self.names = {}
        self.version = {}
        self.joined = {}
        self.associative = False   # walk through maps and sets by position, short names for tagged objects
        self.made = {}             # their initial values
        self.muted = 0
        self.merged = 0
        self.lanes = 1
        h = I.hooks
        h.pop('get_tensor', None)
        h.pop('write_tensor', None)
        for n in ('begin', 'data', 'cbegin', 'end', 'size', 'back', 'front', 'push_back', 'emplace_back', 'clear', 'resize', 'resize_fast', 'empty', 'reserve', 'assign'):
            h[n] = self.container
        h['local_element'] = self.element
        h['get_values'] = self.container
        for n in ('vectorized_load_and_transpose', 'vectorized_transpose_and_store'):
            h[n] = self.transpose
        for n in ('load', 'store', 'gather', 'streaming_store', 'scatter'):
            h[n] = self.vector
        self.opcall0 = I.e_opcall
        I.e_opcall = self.opcall
        self.lv0, self.assign0, self.binop0, self.sym0 = I.lv, I.assign, I.binop, I.symbolic
        self.celltype = {}
        I.revive = self.revive
        self.declare0, self.loop0, self.rfor0, self.un0 = I.declare, I.symbolic_loop, I.s_rfor, I.e_un
        I.lv, I.assign, I.binop, I.symbolic = self.lv, self.assign, self.binop, self.symbolic
        I.declare, I.symbolic_loop, I.s_rfor = self.declare, self.loop, self.rfor
        I.s_omp = lambda s, fr: I.exec(s['b'], fr) if s.get('b') else None
        self.log0 = I.log
        I.log = self.effect
        self.ver0 = I.ver
        I.ver = self.ver
        self.anyloop0 = I.loop
        I.loop = self.endless
        self.zero0 = I.zero_of
        I.zero_of = self.zero_of

    def where(self):
        return list(self.stack)

    # -- values ---------------------------------------------------------------------------
    def val(self, e, fr):
        v = self.I.eval(e, fr)
        while isinstance(v, Ref):
            v = self.I.read(v.lv, '')
        return v

    def opcall(self, e, fr):
        if e.get('op') == '=' and not e.get('own') and any(c in e['a'][0].get('t', '') for c in WHOLE) and is_scalar_type(strip_type(e['a'][1].get('t', ''))):
            arr = self.arrpath(e['a'][0], fr)
            self.note('fill', arr, None, self.val(e['a'][1], fr), e)
            self.forget(arr)
            return Opaque(arr, e['t'])
        v = self.opcall0(e, fr)
        if e.get('op') == '*' and len(e['a']) == 1 and isinstance(v, Opaque) and is_scalar_type(strip_type(e['t'])):
            return T.app('at', v.path)
        return v

    def is_lanes(self, t):
        n, a = split_targs(strip_type(t))
        return n == 'dealii::VectorizedArray' and len(a) > 1 and width(a[1]) > 1 and width(a[1])

    def symbolic(self, t, path, mk=None):
        k = self.is_lanes(t)
        if k:
            return Arr([self.sym0('double', '%s{%d}' % (path, x), mk) for x in range(k)], strip_type(t))
        return self.sym0(t, path, mk)

    def zero_of(self, t):
        k = self.is_lanes(t)
        if k:
            return Arr([ZERO] * k, strip_type(t))
        return self.zero0(t)

    def binop(self, op, a, b, e=None):
        if op in ('/', '%') and isinstance(a, Value) and isinstance(b, Value) and b.is_const() and b.const().denominator == 1 and \
                e is not None and strip_type(e.get('t', '')) in INTS:
            return (div if op == '/' else mod)(a, b)
        return self.binop0(op, a, b, e)

    # -- cells ------------------------------------------------------------------------------
    def cell(self, arr, idx, t):
        I = self.I
        key = ('mem', arr, T.lift(idx).fp)
        self.celltype[key] = t
        if key not in I.store:
            ver = I.store.get(('mver', arr), 0)
            nm = arr if not ver else '%s@%s' % (arr, ver)
            full = '%s[%s]' % (nm, pretty(idx))
            self.paths[full] = (nm, T.lift(idx))
            I.store[key] = I.symbolic(strip_type(t), full, lambda p, pos: I.mk_app(
                'cell', pos, nm, p[len(full):] if p.startswith(full) else p, idx))
        self.index[key] = idx
        return (key, ())

    def revive(self, r):
        if r not in self.celltype or r not in self.index:
            return False
        self.cell(r[1], self.index[r], self.celltype[r])
        return True

    def pointer(self, v):
        """(array, offset) of a pointer value"""
        if isinstance(v, Value):
            for a in v.atoms():
                if a.kind == 'sym' and a.name.startswith('P:'):
                    off = v - T.atom_value(a)
                    if not any(x.kind == 'sym' and x.name.startswith('P:') for x in off.atoms()):
                        return a.name[2:], off
        return None

    def arrpath(self, e, fr):
        I = self.I
        lv = I.follow(I.lv(e, fr))
        b = I.read(lv, e.get('t', ''))
        while isinstance(b, Ref):
            b = I.read(b.lv, '')
        if isinstance(b, Opaque):
            return b.path
        if isinstance(b, Struct) and b.base is not None:
            return b.base.path
        if isinstance(b, (Struct, Arr)):
            root = lv[0]
            return self.names.get(root, 'obj%s' % (root,)) + ''.join('.%s' % (x[1],) for x in lv[1])
        return pretty(b)

    def lv(self, e, fr):
        I = self.I
        k = e['k']
        if k == 'mcall' and e['n'] == 'local_element' and 'distributed::Vector' in e.get('cls', ''):
            return self.cell(self.arrpath(e['b'], fr), self.val(e['a'][0], fr), e['t'])
        if k == 'opcall' and e.get('op') == '[]' and not e.get('own') and any(c in e['a'][0].get('t', '') for c in CONTAINERS) and \
                not split_targs(strip_type(e['a'][0]['t']))[0].endswith('map'):
            arr = self.arrpath(e['a'][0], fr)
            return self.cell(arr, self.val(e['a'][1], fr), e['t'])
        if k == 'opcall' and e.get('op') == '()' and not e.get('own') and 'dealii::FullMatrix' in e['a'][0].get('t', ''):
            return self.cell(self.arrpath(e['a'][0], fr), T.app('ij', self.val(e['a'][1], fr), self.val(e['a'][2], fr)), e['t'])
        if k == 'idx':
            v = self.val(e['a'][0], fr) if e['a'][0].get('t', '').rstrip(' const').endswith('*') else None
            p = self.pointer(v)
            if p:
                return self.cell(p[0], p[1] + self.val(e['a'][1], fr), e['t'])
        if (k == 'un' and e['op'] == '*') or (k == 'opcall' and e.get('op') in ('*', '->') and len(e['a']) == 1 and not e.get('own')):
            x = e['e'] if k == 'un' else e['a'][0]
            v = self.val(x, fr)
            p = self.pointer(v)
            if p:
                t = e['t']
                if k == 'opcall' and e['op'] == '->':
                    t = t.rstrip().rstrip('*').rstrip()
                return self.cell(p[0], p[1], t)
            if k == 'un' and isinstance(v, Ref):
                return v.lv
        if k == 'mem':
            b = e['b']
            if b.get('t', '').rstrip(' const').endswith('*') and b['k'] not in ('this',):
                v = self.val(b, fr)
                p = self.pointer(v)
                if p:
                    r = self.cell(p[0], p[1], re.sub(r'\*\s*(const)?\s*$', '', b['t']).strip())
                    return I.follow_ref((r[0], r[1] + (('f', e['n']),)), e['t'])
        return self.lv0(e, fr)

    def assign(self, lv, v, e, fr):
        if isinstance(lv[0], tuple) and lv[0][0] == 'mem' and not self.muted:
            self.note('write', lv[0][1], self.index[lv[0]], v, e, field='.'.join(str(x[1]) for x in lv[1]))
        return self.assign0(lv, v, e, fr)

    def note(self, kind, arr, idx, value, e, field=None):
        if self.muted or self.I.muted:
            return
        x = Ev()
        x.kind, x.arr, x.idx, x.value, x.field = kind, arr, idx, value, field
        x.guard = self.I.outer[-1] * self.I.guard
        x.loops = tuple(self.stack)
        x.line = e.get('l')
        x.node = e
        self.events.append(x)

    def ver(self, base):
        """states joined from different histories get a name of their own"""
        if isinstance(base, Opaque):
            v = self.I.store.get(('ver', base.path))
            if isinstance(v, Value) and v.const() is None:
                n = self.joined.setdefault((base.path, T.keyof(v)), len(self.joined) + 1)
                return '%s@%d' % (base.path, 1000 + n)
        return self.ver0(base)

    def effect(self, name, base, args, node, fr, ret=None):
        self.note('call', name, None, [base] + list(args), node)
        return self.log0(name, base, args, node, fr, ret)

    def size(self, arr):
        k = ('size', arr)
        if k not in self.I.store:
            ver = self.I.store.get(('mver', arr), 0)
            self.I.store[k] = T.app('size', arr if not ver else '%s@%s' % (arr, ver))
            self.names[k] = 'size(%s)' % arr
        return self.I.store[k]

    def element(self, I, e, fr):
        return Ref(self.lv(e, fr)) if e['k'] == 'mcall' else NotImplemented

    def plain(self, e, fr):
        """the array behind a pointer to its first element"""
        I = self.I
        if e['k'] == 'cast' or e['k'] == 'copy':
            return self.plain(e['e'], fr)
        if e['k'] == 'un' and e['op'] == '&':
            lv = I.follow(I.lv(e['e'], fr))
            if lv[1] and lv[1][-1] == ('i', 0):
                return lv[0], lv[1][:-1]
        if e['k'] == 'mcall' and e['n'] in ('data', 'begin') and 'std::array' in e.get('cls', ''):
            return I.follow(I.lv(e['b'], fr))
        raise AnalysisError('pointer argument at line %s' % e.get('l'))

    def transpose(self, I, e, fr):
        """transfers of n components of all lanes, lane k at offset[k]"""
        a = e['a']
        load = e['n'] == 'vectorized_load_and_transpose'
        n, ptr, offs, regs = (a[0], a[1], a[2], a[3]) if load else (a[1], a[4], a[3], a[2])
        n = int(self.val(n, fr).const())
        p = self.pointer(self.val(ptr, fr))
        if p is None:
            raise AnalysisError('address of a transposed transfer at line %s' % e.get('l'))
        offs = I.read(self.plain(offs, fr), '')
        lv = self.plain(regs, fr)
        lanes = len(offs.e)
        et = 'double'
        cells = [[self.cell(p[0], p[1] + offs.e[k] + d, et) for k in range(lanes)] for d in range(n)]
        if load:
            for d in range(n):
                r = [I.read(c, et) for c in cells[d]]
                I.assign((lv[0], lv[1] + (('i', d),)), Arr(r, '') if lanes > 1 else r[0], e, fr)
            return None
        add = self.val(a[0], fr)
        for d in range(n):
            x = I.read((lv[0], lv[1] + (('i', d),)), '')
            x = x.e if isinstance(x, Arr) else [x] * lanes
            for k in range(lanes):
                v = x[k]
                if not add.is_zero():
                    v = v + add * I.read(cells[d][k], et)
                I.assign(cells[d][k], v, e, fr)
        return None

    def container(self, I, e, fr):
        if e['k'] == 'mcall' and e['n'] in ('begin', 'get_values', 'end') and 'distributed::Vector' in e.get('cls', ''):
            arr = self.arrpath(e['b'], fr)
            return T.sym('P:' + arr) + (T.app('local_size', arr) if e['n'] == 'end' else ZERO)
        if e['k'] != 'mcall' or e.get('own') or not any(c in split_targs(strip_type(e.get('cls', '')))[0] for c in CONTAINERS):
            return NotImplemented
        n = e['n']
        arr = self.arrpath(e['b'], fr)
        if n in ('begin', 'data', 'cbegin'):
            return T.sym('P:' + arr)
        if n == 'end':
            return T.sym('P:' + arr) + self.size(arr)
        if n == 'size':
            return self.size(arr)
        if n == 'empty':
            return T.eq0(self.size(arr))
        if n == 'back':
            return Ref(self.cell(arr, self.size(arr) - 1, e['t']))
        if n == 'front':
            return Ref(self.cell(arr, ZERO, e['t']))
        if n == 'reserve':
            return None
        if n in ('push_back', 'emplace_back'):
            v = [self.val(x, fr) for x in e['a']]
            if len(v) == 1 and isinstance(v[0], Arr):
                v = list(v[0].e)
            s = self.size(arr)
            self.note('append', arr, s, v, e)
            I.store[('size', arr)] = s + 1
            return None
        if n == 'clear':
            self.note('clear', arr, None, None, e)
            self.forget(arr)
            self.size(arr)
            I.store[('size', arr)] = ZERO
            return None
        if n in ('resize', 'resize_fast', 'assign'):
            v = [self.val(x, fr) for x in e['a']]
            self.note('resize', arr, None, v, e)
            self.forget(arr)
            self.size(arr)
            I.store[('size', arr)] = v[0]
            return None
        return NotImplemented

    def forget(self, arr):
        """the cells of an array are no longer known"""
        st = self.I.store
        for k in [k for k in st if isinstance(k, tuple) and k[0] == 'mem' and k[1] == arr]:
            del st[k]
        ver = st.get(('mver', arr), 0)
        if isinstance(ver, int):
            st[('mver', arr)] = ver + 1
        else:                   # merged from different histories
            self.merged += 1
            st[('mver', arr)] = 1000 * self.merged

    def vector(self, I, e, fr):
        """whole-register transfers"""
        if e['k'] != 'mcall' or 'VectorizedArray' not in e.get('cls', ''):
            return NotImplemented
        w = width(split_targs(strip_type(e['cls']))[1][1])
        a = [self.val(x, fr) for x in e['a']]
        n = e['n']
        p = self.pointer(a[0])
        if not p:
            return NotImplemented
        et = 'double'
        lv = I.follow(I.lv(e['b'], fr))

        def get(off):
            return I.read(self.cell(p[0], off, et), et)
        if n == 'load':
            r = [get(p[1] + k) for k in range(w)]
        elif n == 'gather':
            o = self.pointer(a[1])
            if not o:
                return NotImplemented
            r = [get(p[1] + I.read(self.cell(o[0], o[1] + k, 'unsigned int'), 'unsigned int')) for k in range(w)]
        elif n in ('store', 'streaming_store'):
            b = I.read(lv, e['b'].get('t', ''))
            b = b.e if isinstance(b, Arr) else [b] * w
            for k in range(w):
                I.assign(self.cell(p[0], p[1] + k, et), b[k], e, fr)
            return None
        else:
            return NotImplemented
        I.assign(lv, Arr(r, strip_type(e['cls'])) if w > 1 else r[0], e, fr)
        return None

    # -- declarations and loops -----------------------------------------------------------
    def declare(self, v, fr):
        t = strip_type(v['t'])
        self.declare0(v, fr)
        lv = fr.env.get(v.get('id'))
        if lv and t in self.tagged and not lv[1] and not v.get('bind') and not v['t'].rstrip().endswith('&') and isinstance(self.I.store.get(lv[0]), Opaque):
            o = self.I.store[lv[0]]
            if self.associative:
                self.made['#' + v['n']] = o.path
            self.I.store[lv[0]] = Opaque('%s#%s' % ('' if self.associative else o.path, v['n']), o.t, o.args)
        k = self.is_lanes(t)
        if k and lv and not lv[1] and isinstance(self.I.store.get(lv[0]), Value):
            self.I.store[lv[0]] = Arr([self.I.store[lv[0]]] * k, t)
        if lv and not v.get('bind') and not lv[1] and lv[0] not in self.names:
            self.names[lv[0]] = v['n']
            if any(c in split_targs(t)[0] for c in CONTAINERS) and not v['t'].rstrip().endswith('&'):
                init = v.get('init')
                if init is not None and init['k'] in ('ctor', 'init'):
                    a = [self.val(x, fr) for x in init.get('a', [])]
                    if not a or isinstance(a[0], Value):
                        self.I.store[lv[0]] = Opaque(v['n'], t)
                        self.names[('size', v['n'])] = 'size(%s)' % v['n']
                        self.I.store[('size', v['n'])] = a[0] if a else ZERO
                        self.forget(v['n'])
                        self.note('sized', v['n'], None, a[0] if a else ZERO, v)

    def leafname(self, r, p):
        n = self.names.get(r)
        if n is None:
            n = '%s' % (r,) if not (isinstance(r, tuple) and r[0] == 'mem') else '%s[%s]' % (r[1], pretty(self.index[r]))
        return n + ''.join('.%s' % (x[1],) for x in p)

    def endless(self, s, fr, cond, inc, body, pre):
        if cond is None or always(cond):        # left from inside only
            return self.loop(s, fr, cond, inc, body, {'break': [], 'cont': []})
        return self.anyloop0(s, fr, cond, inc, body, pre)

    def loop(self, s, fr, cond, inc, body, ctx):
        """one arbitrary iteration"""
        I = self.I
        st0, g0 = I.store, I.guard
        L = Loop(len(self.loops), s.get('l'))
        if not self.muted:
            self.loops.append(L)
        L.parent = self.stack[-1] if self.stack else None
        L.depth = len(self.stack)
        carried, phis = [], {}
        written = set()
        for attempt in range(12):
            I.store = dict(st0)
            I.guard = g0
            for a in written:
                self.forget(a)
            heads = {}
            for r, p in carried:
                if r not in I.store:
                    I.store[r] = st0.get(r)
                I.store[r] = I.update(I.store[r], p, phis[(r, p)])
            entry = dict(I.store)
            nev, nl, nrets, nfx = len(self.events), len(self.loops), len(fr.rets), len(I.effects)
            self.stack.append(L)
            c = I.boolean(self.valc(cond, fr)) if cond is not None else ONE
            I.guard = g0 * c
            ctx2 = {'break': [], 'cont': []}
            fr.loops.append(ctx2)
            I.exec(body, fr)
            fr.loops.pop()
            I.join(ctx2['cont'])
            if I.store is not None and inc is not None:
                I.eval(inc, fr)
            self.stack.pop()
            out = I.store if I.store is not None else entry
            new = []
            now = set(a for r in out if isinstance(r, tuple) and r[0] == 'mver' for a in [r[1]] if out[r] != entry.get(r, 0))
            now |= set(x.arr for x in self.events[nev:] if x.kind == 'write')
            outs = [out] + [b[1] for b in ctx2['break']]
            for o in outs:
                for r, v in entry.items():
                    if r not in o or o[r] is v or (isinstance(r, tuple) and r[0] in ('mver', 'mem', 'ver')):
                        continue
                    for p in I.leaves(v, o[r]):
                        if not any(r == r2 and p[:len(p2)] == p2 for r2, p2 in carried) and (r, p) not in new:
                            new.append((r, p))
                for r in o:
                    # a size first seen inside
                    if isinstance(r, tuple) and r[0] == 'size' and r not in entry:
                        st0 = dict(st0)
                        st0[r] = T.app('size', r[1])
                        self.names.setdefault(r, 'size(%s)' % r[1])
                        new.append(None)
            if not new and now <= written:
                break
            written |= now
            del self.events[nev:]
            del self.loops[nl:]
            del fr.rets[nrets:]
            del I.effects[nfx:]
            for x in new:
                if x is None:
                    continue
                r, p = x
                carried = [(r2, p2) for r2, p2 in carried if not (r2 == r and p2[:len(p)] == p)]
                carried.append((r, p))
                old = I.get_path(st0[r], p)
                phis[(r, p)] = self.phi(old, L, self.leafname(r, p))
        else:
            raise AnalysisError('loop at line %s: no fixed point' % s.get('l'))
        if len(fr.rets) > nrets:
            raise AnalysisError('loop at line %s: return from inside' % s.get('l'))
        L.cond = c
        L.breaks = [g for g, st in ctx2['break']]
        L.breakvals = [(g, {self.leafname(r, p): I.get_path(st[r], p) if r in st else phis[(r, p)] for r, p in carried}) for g, st in ctx2['break']]
        I.store = dict(st0)
        I.guard = g0
        for a in written:
            self.forget(a)
        for r, p in carried:
            init = I.get_path(st0[r], p)
            end = I.get_path(out[r], p) if r in out else phis[(r, p)]
            nm = self.leafname(r, p)
            after = self.phi(init, L, 'after ' + nm)
            L.carried[nm] = (init, phis[(r, p)], end, after)
            I.store[r] = I.update(I.store[r], p, after)

    def valc(self, cond, fr):
        return self.val(cond, fr)

    def phi(self, old, L, nm):
        if isinstance(old, Arr):
            return Arr([self.phi(x, L, '%s[%d]' % (nm, k)) for k, x in enumerate(old.e)], old.t)
        if isinstance(old, Value):
            p = self.pointer(old)
            v = T.app('head', L.id, nm)
            return T.sym('P:' + p[0]) + v if p else v
        if isinstance(old, Struct):
            return Struct(old.t, {k: self.phi(x, L, '%s.%s' % (nm, k)) for k, x in old.f.items()}, old.base)
        return Opaque('head%d.%s' % (L.id, nm), getattr(old, 't', ''))

    def rfor(self, s, fr):
        I = self.I
        t = s['range'].get('t', '')
        base, targs = split_targs(strip_type(t))
        known = {'std::set': 'std::set', 'std::map': 'std::map', 'std::multimap': 'std::map'}.get(base.replace('const ', '').strip()) if self.associative else None
        if known or any(c in base for c in CONTAINERS):
            arr = self.arrpath(s['range'], fr)
            v = s['var']
            # an index that walks through all elements
            root = I.new_root(ZERO)
            self.names[root[0]] = 'element of %s' % arr
            et = 'std::pair<const %s, %s>' % (targs[0], targs[1]) if known == 'std::map' else targs[0]
            hi = self.size(arr)
            me = self

            def once(b, fr2):
                i = I.read(root, 'int')
                lv = me.cell(arr, i, et)
                if v.get('bind'):
                    I.bind_parts(v['bind'], lv, et, fr2)
                elif v['t'].rstrip().endswith('&'):
                    fr2.env[v['id']] = lv
                else:
                    fr2.env[v['id']] = I.new_root(I.read(lv, et))
                I.exec(b['b'], fr2)
            self.walk(s, fr, root, hi, once)
            return
        if 'iota_view' in t or 'boost::integer_range' in t:
            o = self.val(s['range'], fr)
            p = o.path if isinstance(o, Opaque) else pretty(o)
            root = I.new_root(ZERO)
            self.names[root[0]] = 'element of %s' % p
            hi = T.app('size', p)
            v = s['var']
            def one(b, fr2):
                fr2.env[v['id']] = I.new_root(I.read(root, 'int'))
                I.exec(b['b'], fr2)
            self.walk(s, fr, root, hi, one)
            return
        return self.rfor0(s, fr)

    def walk(self, s, fr, root, hi, once):
        I = self.I
        I.s_memrfor = lambda b, fr2: b['f'](b, fr2)
        I.e_memcond = I.e_memnext = lambda e, fr2: e['f']()
        self.loop(s, fr, {'k': 'memcond', 't': 'bool', 'f': lambda: T.gt0(hi - I.read(root, 'int'))},
                  {'k': 'memnext', 't': 'int', 'f': lambda: I.write(root, I.read(root, 'int') + 1)},
                  {'k': 'memrfor', 'b': s['b'], 'l': s.get('l'), 'f': once}, {'break': [], 'cont': []})


def always(c):
    """a condition that is literally true"""
    while c.get('k') in ('cast', 'copy', 'paren'):
        c = c['e']
    return c.get('k') in ('num', 'bool') and str(c.get('v')).lower() in ('1', 'true')


def div(a, b):
    return divmod_(a, b)[0]


def mod(a, b):
    return divmod_(a, b)[1]


def divmod_(a, w):
    """exact on linear forms whose symbolic part is divisible"""
    if isinstance(w, Value):
        if not w.is_const():
            return T.app('div', a, w), T.app('mod', a, w)
        w = int(w.const())
    q, r = {}, {}
    for m, c in a.t.items():
        if c.denominator != 1:
            break
        if m == ():
            x = int(c)
            if x // w:
                q[m] = T.Fraction(x // w)
            if x % w:
                r[m] = T.Fraction(x % w)
        elif int(c) % w == 0:
            q[m] = T.Fraction(int(c) // w)
        else:
            r[m] = c
    else:
        if not r or list(r) == [()]:
            return Value(q), Value(r)
    return T.app('div', a, T.const(w)), T.app('mod', a, T.const(w))


class Closed:
    """Values with the carried variables that advance by a constant written by the number of the iteration"""

    def __init__(self, mem, names=None):
        self.lin = {}
        self.z = names or {}
        for L in mem.loops:
            for nm, (init, head, end, after) in L.carried.items():
                if not all(isinstance(x, Value) for x in (init, head, end)):
                    continue
                step = end - head
                if step.is_const():
                    p = mem.pointer(init)
                    self.lin[(L.id, nm)] = (p[1] if p else init, step)

    def it(self, L):
        i = L if isinstance(L, int) else L.id
        return self.z.get(i) if i in self.z else T.sym('it%d' % i)

    def __call__(self, v):
        if not isinstance(v, Value):
            return v
        def fn(a, args):
            if a.kind == 'app' and a.name == 'head':
                k = (int(args[0]) if not isinstance(args[0], Value) else int(args[0].const()), args[1])
                if k in self.lin:
                    init, step = self.lin[k]
                    return T.rewrite(init, fn) + step * self.it(k[0])
            if a.kind == 'app' and a.name == 'div':
                return div(args[0], args[1])
            if a.kind == 'app' and a.name == 'mod':
                return mod(args[0], args[1])
            return None
        return T.rewrite(v, fn)


def split(v):
    """cells at an address that depends on a condition, as the choice between two cells"""
    def fn(a, args):
        if a.kind == 'app' and a.name == 'cell':
            b = next((x for x in T.lift(args[2]).atoms() if x.kind == 'bool'), None)
            if b is not None:
                r = ZERO
                for w, k in ((T.atom_value(b), ONE), (ONE - T.atom_value(b), ZERO)):
                    r = r + w * split(T.app('cell', args[0], args[1], T.subst(args[2], {b: k})))
                return r
        return None
    return T.rewrite(v, fn)
