"""Abstract execution of the row-parallel phases of the hyperbolic update.

The arrays of the scheme are tables addressed by (row, column).  Inside a row
loop the analysis knows the own row, the j-th neighbour of the own row and the
matrix entries between both; everything a phase writes is recorded with its
value number, its index range and the loops around it.  The kernels of the
equation modules (decided by the A checks) are uninterpreted functions here.
"""
import re
import export
import terms as T
from terms import Value, ZERO, ONE
from interp import AnalysisError, Arr, Struct, Opaque, Str, Ref, Clos, strip_type, split_targs, is_scalar_type, pretty, tkey, Frame
from model import Model, S, flat

VEC = ('MultiComponentVector', 'Vector')


class Access:
    """one read or write of a table inside a row loop"""
    __slots__ = ('array', 'row', 'col', 'kind', 'value', 'guard', 'loops', 'line', 'phase', 'region', 'mode', 'how', 'func', 'ver', 'aliased')

    def __repr__(self):
        return '%s %s[%s%s] (%s) %s:%s in %s' % (self.mode, self.array, pretty(self.row), '' if self.col is None else ', ' + pretty(self.col),
                                                self.kind, self.how, self.line, self.loops)


class Call:
    """a kernel or object call"""
    __slots__ = ('name', 'base', 'args', 'guard', 'loops', 'line', 'phase', 'ret')

    def __repr__(self):
        return 'call %s %s' % (self.name, [pretty(a)[:60] for a in self.args])


class Mark:
    """'region' / 'endregion' / 'phase' / 'endphase' / 'sync' / 'swap' / 'dispatch' / 'check' / 'omp'"""
    def __init__(self, kind, **kw):
        self.kind = kind
        self.__dict__.update(kw)

    def __repr__(self):
        return '%s %s' % (self.kind, {k: (pretty(v) if not isinstance(v, (str, int, list, tuple)) else v) for k, v in self.__dict__.items() if k != 'kind'})


class Phase:
    """one work-shared loop"""
    def __init__(self, n, region, line, directive):
        self.n, self.region, self.line, self.directive = n, region, line, directive
        self.nowait = False
        self.events = []
        self.range = None

    @property
    def accesses(self):
        return [x for x in self.events if isinstance(x, Access)]

    @property
    def calls(self):
        return [x for x in self.events if isinstance(x, Call)]

    def reads(self, array=None):
        return [a for a in self.accesses if a.mode == 'read' and (array is None or a.array == array)]

    def writes(self, array=None):
        return [a for a in self.accesses if a.mode == 'write' and (array is None or a.array == array)]


class Stepper:
    KERNELS = {'flux_contribution', 'flux_divergence', 'high_order_flux_divergence', 'nodal_source', 'affine_shift',
               'equilibrated_states', 'is_admissible', 'apply_boundary_conditions'}
    OBJECTS = {'compute', 'reset', 'accumulate', 'alpha', 'bounds', 'limit', 'combine_bounds'}
    SYNC = {'update_ghost_values', 'update_ghost_values_start', 'update_ghost_values_finish', 'update_ghost_rows',
            'update_ghost_rows_start', 'update_ghost_rows_finish'}

    def __init__(self, tu, ns, dim):
        self.P = export.programs([tu])[tu]
        self.M = Model(self.P)
        self.I = I = self.M.I
        self.ns, self.dim = ns, dim
        self.phases = []
        self.region = 0
        self.inregion = False
        self.cur = None
        self.writers = {}            # array -> list of (phase no, region, range, own row only)
        self.versions = {}
        h = I.hooks
        for n in self.KERNELS:
            h[n] = self.kernel
        for n in self.OBJECTS:
            h[n] = self.object_call
        for n in self.SYNC:
            h[n] = self.sync
        for n in ('get_tensor', 'get_entry', 'get_transposed_entry', 'get_transposed_tensor', 'local_element'):
            h[n] = self.get
        for n in ('write_tensor', 'write_entry', 'write_transposed_entry'):
            h[n] = self.put
        h['columns'] = self.columns
        h['row_length'] = lambda I, e, fr: T.app('row_length', self.val(e['a'][0], fr), pos=True)
        h['std::swap'] = self.swap
        h['swap'] = self.swap
        I.s_omp = self.omp
        h['load'] = self.atomic_load
        h['store'] = self.atomic_store
        for n in ('compare_exchange_weak', 'compare_exchange_strong'):
            h[n] = self.atomic_cas
        h['std::accumulate'] = self.accumulate
        h['resize_fast'] = h['resize'] = lambda I, e, fr: None if 'AlignedVector' in e.get('cls', '') else NotImplemented
        h['valid'] = lambda I, e, fr: ZERO if 'future' in e.get('cls', '') else NotImplemented
        h['issue_error_noreturn'] = self.assertion
        h['std::to_string'] = lambda I, e, fr: Str('#')
        h['ryujin::Scope::Scope'] = lambda I, e, fr: Opaque('scope')
        for n in ('isnan', 'isinf', 'isfinite'):
            h['std::' + n] = self.fpclass
        self.ctor0, self.block0, self.lv0, self.asg0 = I.construct, I.s_block, I.lv, I.raw_call
        I.construct = self.construct
        self.if0, I.s_if = I.s_if, self.s_if
        for n in ('min', 'max', 'sum', 'logical_or', 'logical_and'):
            h['dealii::Utilities::MPI::' + n] = self.collective
        I.s_block = self.block
        I.lv = self.lvalue
        I.raw_call = self.raw_call

    # -- evaluation helpers ---------------------------------------------------------------
    def val(self, e, fr):
        v = self.I.eval(e, fr)
        while isinstance(v, Ref):
            v = self.I.read(v.lv, '')
        return v

    def path(self, e, fr):
        I = self.I
        lv = I.follow(I.lv(e, fr))
        b = I.read(lv, e.get('t', ''))
        while isinstance(b, Ref):
            b = I.read(b.lv, '')
        if isinstance(b, Opaque):
            return b.path
        if isinstance(b, Struct) and b.base is not None:
            return b.base.path
        if isinstance(b, Struct):
            return b.t
        return pretty(b)

    def columns(self, I, e, fr):
        return T.app('columns', self.val(e['a'][0], fr))

    def pointer(self, v):
        """(row, offset) of a pointer into the column list of a row"""
        for a in v.atoms():
            if a.name == 'columns':
                off = v - T.atom_value(a)
                if not any(x.name == 'columns' for x in off.atoms()):
                    return a.args[0], off
        return None

    def index(self, e, fr):
        """classify a row argument: ('own', row) / ('nb', row, offset) / ('other', value)"""
        I = self.I
        t = e.get('t', '').rstrip()
        v = self.I.eval(e, fr)
        if isinstance(v, Ref) and t.replace('const', '').rstrip().endswith('*'):
            v = I.read(v.lv, 'unsigned int')     # the address of one index
            while isinstance(v, Ref):
                v = I.read(v.lv, '')
            return self.classify(v)
        while isinstance(v, Ref):
            v = I.read(v.lv, '')
        if not isinstance(v, Value):
            return ('other', T.app('index', pretty(v)))
        if t.replace('const', '').rstrip().endswith('*'):
            p = self.pointer(v)
            return ('nb',) + p if p else ('other', T.app('deref', v))
        return self.classify(v)

    def classify(self, v):
        if v.atoms() and len(v.t) == 1:
            a = next(iter(v.atoms()))
            if a.name == 'deref' and v == T.atom_value(a) and isinstance(a.args[0], Value):
                p = self.pointer(a.args[0])
                if p:
                    return ('nb',) + p
        return ('own', v)

    def rowval(self, ix):
        if ix[0] == 'own':
            return ix[1]
        if ix[0] == 'nb':
            return T.app('col', ix[1], ix[2])
        return ix[1]

    # -- objects whose semantics the steps rely on -----------------------------------------------
    def construct(self, e, fr):
        I = self.I
        t = strip_type(e['t'])
        name, ta = split_targs(t)
        if name == 'std::atomic':
            return I.eval(e['a'][0], fr) if e['a'] else I.zero_of(ta[0])
        if t == 'ryujin::Scope':
            return Opaque('scope')
        if name.split('::')[-1] in ('Indicator', 'Limiter') and 'ryujin' in name:
            v = self.ctor0(e, fr)
            cls = name.split('::')[-1]
            args = tuple(self.akey(self.I.eval(a, fr)) for a in e['a'])
            if isinstance(v, Struct):
                v.f['$state'] = T.app(cls + '.fresh', *args)
            return v
        return self.ctor0(e, fr)

    def block(self, s, fr):
        """runs the destructors of the scope guards of a block"""
        I = self.I
        guards = []
        for x in s['s']:
            if I.store is None:
                return
            I.exec(x, fr)
            if x.get('k') == 'decl':
                for v in x['v']:
                    if v.get('id') in fr.env and strip_type(v.get('t', '')) == 'ryujin::SynchronizationDispatch':
                        guards.append(v['id'])
        if I.store is None:
            return
        for g in reversed(guards):
            f = self.P.one('ryujin::SynchronizationDispatch::~SynchronizationDispatch')
            I.call_func(f, [], fr, fr.env[g])

    def lvalue(self, e, fr):
        if e['k'] == 'opcall' and e.get('op') == '[]' and 'AlignedVector' in e['a'][0].get('t', ''):
            arr = self.path(e['a'][0], fr)
            i = self.val(e['a'][1], fr)
            key = ('mem', arr, pretty(i), '')
            if key not in self.I.store:
                self.mem(key[1:], T.app(arr, i))
            return (key, ())
        if e['k'] == 'idx':
            t = e['a'][0].get('t', '').replace('const', '').strip()
            if t == 'unsigned int *':
                b = self.I.eval(e['a'][0], fr)
                if isinstance(b, Value) and self.pointer(b):
                    return self.I.new_root(T.app('deref', b + self.val(e['a'][1], fr)))
        return self.lv0(e, fr)

    def raw_call(self, e, fr):
        if self.atomic(e):
            n = e.get('n', '')
            if e['k'] == 'mcall' and n.startswith('operator ') or n == 'load':
                return self.atomic_load(self.I, e, fr)
            if e['k'] in ('opcall', 'mcall') and (e.get('op') == '=' or n == 'operator='):
                I = self.I
                base, v = (e['b'], e['a'][0]) if e['k'] == 'mcall' else e['a']
                lv = I.follow(I.lv(base, fr))
                x = self.val(v, fr)
                I.write(lv, x)
                return x
        return self.asg0(e, fr)

    def run(self, f, args=None, this=None):
        args = args or []
        for p in f['params'][len(args):]:
            name, ta = split_targs(strip_type(p['t']))
            args.append(self.I.symbolic(ta[0] if name == 'std::atomic' else p['t'], p['n']))
        self.I.called = set()
        return self.M.run(f, args, this or Opaque('this'))

    def atomic(self, e):
        return 'atomic' in e.get('cls', '')

    def atomic_load(self, I, e, fr):
        if not self.atomic(e):
            return NotImplemented
        return I.read(I.follow(I.lv(e['b'], fr)), '')

    def atomic_store(self, I, e, fr):
        if not self.atomic(e):
            return NotImplemented
        lv = I.follow(I.lv(e['b'], fr))
        I.write(lv, self.val(e['a'][0], fr))
        return None

    def atomic_cas(self, I, e, fr):
        """without interference, which is what a retry loop waits for"""
        if not self.atomic(e):
            return NotImplemented
        lv = I.follow(I.lv(e['b'], fr))
        ex = I.follow(I.lv(e['a'][0], fr))
        cur, exp, des = I.read(lv, ''), I.read(ex, ''), self.val(e['a'][1], fr)
        eq = T.eq0(cur - exp)
        I.write(lv, T.select(eq, des, cur))
        I.write(ex, T.select(eq, exp, cur))
        return eq

    def accumulate(self, I, e, fr):
        a = e['a']

        def container(x):
            while x['k'] in ('cast', 'ctor') and (x.get('e') or x.get('a')):
                x = x.get('e') or x['a'][0]
            if x['k'] == 'mcall' and x['n'] in ('begin', 'end', 'cbegin', 'cend'):
                return x['n'].lstrip('c'), self.val(x['b'], fr)
            return None, None
        b, e2 = container(a[0]), container(a[1])
        if b[0] == 'begin' and e2[0] == 'end' and isinstance(b[1], Arr) and isinstance(e2[1], Arr) and tkey(b[1]) == tkey(e2[1]) and len(a) == 3:
            r = self.val(a[2], fr)
            for x in b[1].e:
                r = r + x
            return r
        return NotImplemented

    def collective(self, I, e, fr):
        v = self.val(e['a'][0], fr)
        self.mark('collective', name=e['n'], value=v, line=e.get('l'))
        if e['n'].startswith('logical'):
            return T.boolapp('MPI.' + e['n'], v)
        return T.app('MPI.' + e['n'], v)

    def s_if(self, s, fr):
        I = self.I
        g, n = I.guard, self.asserts
        self.if0(s, fr)
        if self.asserts != n and I.store is not None and n == self.assert_base:
            I.guard = g       # what follows is unconditional: a failed assertion ends the program
        self.asserts = n

    asserts = assert_base = 0

    def assertion(self, I, e, fr):
        self.asserts += 1
        self.mark('assert', line=e.get('l'))
        I.store = None
        return ZERO

    def fpclass(self, I, e, fr):
        return T.boolapp(e['n'], self.val(e['a'][0], fr))

    # -- tables -----------------------------------------------------------------------------
    def version(self, array, own):
        ws = self.writers.get(array, [])
        here = self.cur.n if self.cur else -1
        reg = self.region
        vs = 0
        for ph, region, rng, complete in ws:
            if ph == here:
                continue
            if region == reg and self.cur is not None and rng is not None and self.cur.range is not None:
                lo, hi = rng
                lo2, hi2 = self.cur.range
                if hi == lo2 or hi2 == lo:       # disjoint row ranges
                    if own:
                        continue
                    return 'mixed'
            vs = max(vs, region if region != reg else ph + 0.5)
        return vs

    def symbol(self, array, ver, t, row, col=None, tr=False):
        nm = array + ('@%s' % ver if ver else '') + ("^T" if tr else '')
        args = (row,) if col is None else (row, col)
        def mk(path, pos):
            return T.app(nm + path[1:], *args)
        return self.I.symbolic(t, '$', mk)

    def mem(self, key, default):
        st = self.I.store
        k = ('mem',) + key
        if k not in self.I.memdefault:
            self.I.memdefault[k] = default
        if k in st:
            return st[k]
        st[k] = default
        return default

    def like(self, v, nm, args, p=''):
        if isinstance(v, Arr):
            return Arr([self.like(x, nm, args, p + '[%d]' % k) for k, x in enumerate(v.e)], v.t)
        return T.app(nm + p, *args)

    def record(self, mode, array, how, ix, col, value, e, fr, ver=None):
        if self.I.muted:
            return
        a = Access()
        a.mode, a.array, a.how, a.kind = mode, array, how, ix[0]
        a.row, a.col, a.value = self.rowval(ix), col, value
        a.guard = self.I.outer[-1] * self.I.guard
        a.loops = tuple(self.I.loopctx)
        a.line = e.get('l')
        a.func = fr.func
        a.phase, a.region = (self.cur.n if self.cur else None), self.region
        a.ver = ver
        self.I.effects.append(a)

    def get(self, I, e, fr):
        n = e.get('n')
        a = e['a']
        if e['k'] == 'mcall':
            arr = self.path(e['b'], fr)
            cls = split_targs(e.get('cls', ''))[0].split('::')[-1]
        else:
            arr = self.path(a[0], fr)
            cls = 'Vector'
            a = a[1:]
        ix = self.index(a[0], fr)
        matrix = cls == 'SparseMatrixSIMD'
        col = self.val(a[1], fr) if matrix else None
        t = strip_type(e['t'])
        ver = self.version(arr, ix[0] == 'own' and 'transposed' not in n)
        tr = 'transposed' in n
        default = self.symbol(arr, ver, t, self.rowval(ix), col, tr)
        self.record('read', arr, n, ix, col, default, e, fr, ver)
        if self.cur is None or tr:
            return default
        return self.mem((arr, pretty(self.rowval(ix)), pretty(col) if col is not None else ''), default)

    def put(self, I, e, fr):
        n = e.get('n')
        a = e['a']
        if e['k'] == 'mcall':
            arr = self.path(e['b'], fr)
            cls = split_targs(e.get('cls', ''))[0].split('::')[-1]
        else:
            arr = self.path(a[0], fr)
            cls = 'Vector'
            a = a[1:]
        v = self.val(a[0], fr)
        if isinstance(v, Arr):
            v = self.M.detach(v)
        ix = self.index(a[1], fr)
        col = self.val(a[2], fr) if cls == 'SparseMatrixSIMD' else None
        if I.store is None:
            return None
        self.record('write', arr, n, ix, col, v, e, fr)
        k = (arr, pretty(self.rowval(ix)), pretty(col) if col is not None else '')
        if ('mem',) + k not in I.store:
            ver = self.version(arr, ix[0] == 'own')
            row = self.rowval(ix)
            self.mem(k, self.like(v, arr + ('@%s' % ver if ver else ''), (row,) if col is None else (row, col)))
        I.store[('mem',) + k] = v
        return None

    # -- kernels ------------------------------------------------------------------------------
    def akey(self, v):
        I = self.I
        while isinstance(v, Ref):
            v = I.read(v.lv, '')
        if isinstance(v, Arr):
            lv = [x for x in flat(v)] if v.e else []
            if lv and all(isinstance(x, Value) for x in lv):
                at = [next(iter(x.atoms()), None) for x in lv]
                if all(a is not None and a.kind == 'app' and a.name.startswith('flux_contribution') and x == T.atom_value(a)
                       for a, x in zip(at, lv)) and len({a.args for a in at}) == 1 and len({a.name for a in at}) == len(at):
                    return T.app('flux', *at[0].args)
            return tuple(self.akey(x) for x in v.e)
        if isinstance(v, Value):
            return v
        if isinstance(v, Opaque):
            return (v.path,) + tuple(self.akey(x) if not isinstance(x, str) else x for x in (v.args or ()))
        if isinstance(v, Struct):
            return v.base.path if v.base is not None else v.t
        return pretty(v)

    def args(self, e, fr):
        I = self.I
        r = []
        for a in e['a']:
            t = a.get('t', '')
            if t.rstrip().replace('const', '').rstrip().endswith('*'):
                ix = self.index(a, fr)
                r.append(self.rowval(ix))
                continue
            v = self.val(a, fr)
            if isinstance(v, Value):
                c = self.classify(v)
                if c[0] == 'nb':
                    v = self.rowval(c)
            r.append(v)
        return r

    def kernel(self, I, e, fr):
        if e['k'] != 'mcall':
            return NotImplemented
        args = self.args(e, fr)
        keys = tuple(self.akey(a) for a in args)
        n = e['n']
        self.note(n, None, args, e, fr)
        t = strip_type(e['t'])
        def mk(path, pos):
            if pos == 'bool':
                return T.boolapp(n + path[1:], *keys)
            return T.app(n + path[1:], *keys)
        return self.structured(t, mk, n)

    def structured(self, t, mk, n):
        r = self.I.symbolic(t, '$', mk)
        if isinstance(r, (Value, Arr)):
            return r
        name, a = split_targs(t)
        if name in ('std::tuple', 'std::pair'):
            return Arr([self.structured(x, lambda p, pos, k=k: mk('$<%d>' % k + p[1:], pos), n) for k, x in enumerate(a)], t)
        if name == 'std::array':
            return Arr([self.structured(a[0], lambda p, pos, k=k: mk('$<%d>' % k + p[1:], pos), n) for k in range(int(a[1]))], t)
        return Opaque('%s' % n, t, (mk('$', False),))

    def object_call(self, I, e, fr):
        """calls of the Riemann solver, indicator and limiter objects"""
        if e['k'] not in ('mcall', 'call'):
            return NotImplemented
        n = e['n']
        cls = split_targs(e.get('cls', ''))[0].split('::')[-1]
        if cls not in ('RiemannSolver', 'Indicator', 'Limiter'):
            return NotImplemented
        args = self.args(e, fr)
        keys = tuple(self.akey(a) for a in args)
        base = ''
        if e['k'] == 'mcall':
            lv = I.follow(I.lv(e['b'], fr))
            base = 'o%s' % lv[0]
        full = '%s.%s' % (cls, n)
        self.note(full, base, args, e, fr)
        t = strip_type(e['t'])
        if n in ('reset', 'accumulate', 'alpha', 'bounds') and e['k'] == 'mcall':
            # the object's state is the sequence of calls made on it
            at = (lv[0], lv[1] + (('f', '$state'),))
            old = I.read(at, 'double')
            if n in ('reset', 'accumulate'):
                I.write(at, T.app(full, *(keys if n == 'reset' else (old,) + keys)))
                return None
            keys = (old,) + keys

        def mk(path, pos):
            if pos == 'bool':
                return T.boolapp(full + path[1:], *keys)
            return T.app(full + path[1:], *keys)
        return self.structured(t, mk, full)

    def rowiv(self):
        for d, l in enumerate(self.I.loopctx):
            if l[0] == 'for':
                return T.app('iv', d, l[1], l[2], l[3])
        return None

    def note(self, name, base, args, e, fr):
        if self.I.muted:
            return
        c = Call()
        c.name, c.base, c.args, c.guard = name, base, args, self.I.outer[-1] * self.I.guard
        c.loops, c.line, c.phase = tuple(self.I.loopctx), e.get('l'), self.cur.n if self.cur else None
        self.I.effects.append(c)

    def mark(self, kind, **kw):
        if not self.I.muted:
            self.I.effects.append(Mark(kind, guard=self.I.outer[-1] * self.I.guard, loops=tuple(self.I.loopctx), **kw))

    # -- synchronisation ------------------------------------------------------------------------
    def sync(self, I, e, fr):
        if e['k'] != 'mcall':
            return NotImplemented
        arr = self.path(e['b'], fr)
        args = [self.val(a, fr) for a in e['a']]
        self.mark('sync', name=e['n'], array=arr, args=args, line=e.get('l'), parallel=self.cur is not None or self.inregion)
        return None

    def swap(self, I, e, fr):
        a, b = [I.follow(I.lv(x, fr)) for x in e['a']]
        va, vb = I.read(a, e['a'][0].get('t', '')), I.read(b, e['a'][1].get('t', ''))
        I.write(a, vb)
        I.write(b, va)
        self.mark('swap', a=pretty(va), b=pretty(vb), line=e.get('l'))
        return None

    # -- configurations -----------------------------------------------------------------------------
    def fix(self, path, value):
        """a run-time constant of the configuration under analysis"""
        self.I.bindings[path] = value

    @property
    def events(self):
        return self.I.effects

    # -- parallel structure ----------------------------------------------------------------------
    def omp(self, s, fr):
        I = self.I
        d = s['d']
        if I.muted:
            I.exec(s.get('b'), fr)
            return
        if 'for' in d.split():
            ph = Phase(len(self.phases), self.region, s.get('l'), d)
            ph.nowait = any('nowait' in str(c) for c in s.get('cl', []) or [])
            self.phases.append(ph)
            self.mark('phase', phase=ph)
            old, self.cur = self.cur, ph
            ph.range = self.range_of(s.get('b'), fr)
            n0 = len(I.effects)
            I.exec(s.get('b'), fr)
            ph.events = I.effects[n0:]
            self.cur = old
            self.mark('endphase', phase=ph)
            if I.store is not None:
                for k in [k for k in I.store if isinstance(k, tuple) and k[0] == 'mem']:
                    del I.store[k]
            for a in {a.array for a in ph.writes()}:
                self.writers.setdefault(a, []).append((ph.n, ph.region, ph.range, True))
        elif 'parallel' in d.split():
            self.region += 1
            self.inregion = True
            self.mark('region', n=self.region, line=s.get('l'), directive=d)
            I.exec(s.get('b'), fr)
            self.mark('endregion', n=self.region)
            self.inregion = False
            self.region += 1
        else:
            self.mark('omp', directive=d, line=s.get('l'))
            I.exec(s.get('b'), fr)

    def range_of(self, b, fr):
        """the index range of a work-shared loop"""
        I = self.I
        if b is None or b.get('k') != 'for':
            return None
        I.muted += 1
        st = I.store
        I.store = dict(st)
        try:
            if b.get('init'):
                I.exec(b['init'], fr)
            cn = I.counter(b.get('c'), b.get('inc'), fr, [])
            if not cn:
                return None
            return (I.read(cn[0], 'int'), cn[1])
        finally:
            I.store = st
            I.muted -= 1
