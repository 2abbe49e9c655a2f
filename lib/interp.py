"""Forward value-numbering dataflow over the resolved source (see exporter).

One pass over the structured control flow of a function: branches are joined
with gated phi values (no path is enumerated), callees are inlined, loops with
a compile-time trip count are unrolled and all other loops are summarised with
loop phis (sum / max / min / last-value recurrences).  Calls to code outside
the repository become uninterpreted values; those that may change something
are logged as effects, with the gate and the enclosing loops.
"""
import json
import re
from fractions import Fraction
import terms as T
from terms import Value, ZERO, ONE, HALF


class AnalysisError(Exception):
    pass


# -- program ----------------------------------------------------------------------
class Program:
    def __init__(self, path):
        self.funcs = {}
        self.by_key = {}
        self.classes = {}
        self.class_by_q = {}
        self.enums = {}
        self.vars = {}
        self.tu = path
        end = False
        with open(path) as fh:
            for line in fh:
                d = json.loads(line)
                k = d['k']
                if k == 'func':
                    self.funcs[d['id']] = d
                    self.by_key[d['key']] = d
                elif k == 'class':
                    self.classes[d['id']] = d
                    self.class_by_q[d['q']] = d
                elif k == 'enum':
                    self.enums[d['q']] = d
                elif k == 'var':
                    self.vars[d['q']] = d
                elif k == 'end':
                    end = True
        if not end:
            raise AnalysisError('incomplete export of ' + path)

    def find(self, q, n=None, pred=None):
        """functions whose qualified name matches the regular expression"""
        r = []
        rx = re.compile(q)
        for f in self.funcs.values():
            if rx.fullmatch(f['q']) and (pred is None or pred(f)):
                r.append(f)
        return r

    def one(self, q, pred=None):
        r = self.find(q, pred=pred)
        if len(r) != 1:
            raise AnalysisError('anchor %s: %d definitions found' % (q, len(r)))
        return r[0]


# -- types ---------------------------------------------------------------------------
def split_targs(s):
    """'a<b, c>' -> ('a', ['b','c'])"""
    i = s.find('<')
    if i < 0 or not s.rstrip().endswith('>'):
        return s, []
    name = s[:i]
    body = s[i + 1:s.rstrip().rindex('>')]
    args, d, cur = [], 0, ''
    for ch in body:
        if ch in '<([':
            d += 1
        elif ch in '>)]':
            d -= 1
        if ch == ',' and d == 0:
            args.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        args.append(cur.strip())
    return name, args


def strip_type(t):
    t = t.strip()
    while True:
        o = t
        if t.startswith('const '):
            t = t[6:]
        if t.startswith('volatile '):
            t = t[9:]
        if t.endswith('&&'):
            t = t[:-2].strip()
        elif t.endswith('&') or t.endswith('*'):
            t = t[:-1].strip()
        if t.endswith(' const'):
            t = t[:-6].strip()
        if t == o:
            return t


INTS = {'int', 'unsigned int', 'long', 'unsigned long', 'short', 'unsigned short', 'char',
        'unsigned char', 'signed char', 'long long', 'unsigned long long'}
FLOATS = {'double', 'float', 'long double'}


def is_scalar_type(t):
    t = strip_type(t)
    return t in INTS or t in FLOATS or t == 'bool' or \
        ((t.startswith('dealii::VectorizedArray<') or t.startswith('dealii::Tensor<0,')) and t.endswith('>'))


# -- trees ---------------------------------------------------------------------------
class Arr:
    __slots__ = ('e', 't')

    def __init__(self, e, t=''):
        self.e = tuple(e)
        self.t = t

    def __repr__(self):
        return '[' + ', '.join(map(repr, self.e)) + ']'

    def key(self):
        return ('arr',) + tuple(tkey(x) for x in self.e)


class Struct:
    __slots__ = ('t', 'f', 'base')

    def __init__(self, t, f, base=None):
        self.t, self.f, self.base = t, f, base

    def __repr__(self):
        return '%s{%s}' % (self.t, ', '.join('%s=%r' % x for x in self.f.items()))

    def key(self):
        return ('struct', self.t, tuple((k, tkey(v)) for k, v in sorted(self.f.items(), key=lambda x: str(x[0]))),
                self.base.key() if self.base else None)


class Opaque:
    __slots__ = ('path', 't', 'args')

    def __init__(self, path, t='', args=()):
        self.path, self.t, self.args = path, t, args

    def __repr__(self):
        return '<%s>' % self.path

    def key(self):
        return ('opq', self.path)


class Str:
    __slots__ = ('s',)

    def __init__(self, s):
        self.s = s

    def __repr__(self):
        return repr(self.s)

    def key(self):
        return ('str', self.s)


class Clos:
    __slots__ = ('node', 'env', 'this')

    def __init__(self, node, env, this):
        self.node, self.env, self.this = node, env, this

    def key(self):
        return ('clos', self.node.get('key'), self.node.get('id'))

    def __repr__(self):
        return '<lambda:%s>' % self.node.get('l')


class Ref:
    __slots__ = ('lv',)

    def __init__(self, lv):
        self.lv = lv

    def key(self):
        return ('ref', self.lv[0], tuple(tkey(x) if isinstance(x, Value) else x for x in self.lv[1]))

    def __repr__(self):
        return '&%s%s' % (self.lv[0], ''.join('.%s' % (x[1],) for x in self.lv[1]))


class Func:
    __slots__ = ('f',)

    def __init__(self, f):
        self.f = f

    def key(self):
        return ('func', self.f)


def tkey(x):
    if x is None:
        return None
    if isinstance(x, Value):
        return x.fp
    if isinstance(x, (str, int)):
        return x
    return x.key()


def pretty(x):
    if isinstance(x, Value):
        s = T.show(x)
        if '...' in s or '..)' in s:
            s += '#%x' % (x.fp % 0xffffff)
        return s
    if isinstance(x, Opaque):
        return x.path
    if isinstance(x, Arr):
        return '[' + ','.join(pretty(y) for y in x.e) + ']'
    if isinstance(x, Str):
        return '"%s"' % x.s
    if isinstance(x, Struct):
        return '{' + ','.join('%s=%s' % (k, pretty(v)) for k, v in sorted(x.f.items(), key=lambda x: str(x[0]))) + '}'
    return repr(x)


def num(s):
    f = Fraction(s)
    if f.denominator != 1 and f.denominator > 10**6:
        g = f.limit_denominator(5040)
        if abs(g - f) < abs(f) * Fraction(1, 10**15):
            return g
    return f


LIMITS = [(Fraction(2) ** -52, 'eps'), (Fraction(2) ** -1022, 'dblmin'),
          (Fraction(2) ** 1024 - Fraction(2) ** 971, 'dblmax')]


def limit_const(s):
    """literals; multiples of the limits of the number type keep them as symbols"""
    f = Fraction(s)
    if f.denominator == 1 and abs(f) < 10**30 or f == 0:
        return T.const(f)
    for l, n in LIMITS:
        q = f / l
        g = q.limit_denominator(64)
        if g != 0 and abs(g - q) < abs(q) * Fraction(1, 10**14) and (abs(q) < 10**9):
            if n != 'eps' or abs(f) < Fraction(1, 10**5):
                if n == 'eps' and not (abs(q) >= 1 and q.limit_denominator(1) == g or abs(q) < 1):
                    continue
                return T.const(g) * T.sym(n, True)
    return T.const(num(s))


class Frame:
    def __init__(self, this=None, func=None):
        self.env = {}
        self.this = this
        self.rets = []
        self.loops = []
        self.func = func


class Effect:
    __slots__ = ('name', 'base', 'args', 'guard', 'loops', 'file', 'line', 'node', 'func', 'ret')

    def __repr__(self):
        return '%s:%s %s.%s(%s) if %s in %s' % (
            self.file, self.line, self.base, self.name, ', '.join(pretty(a) for a in self.args),
            pretty(self.guard), self.loops)


PURE_EXT = set()


class Interp:
    def __init__(self, prog, positive=None, max_depth=60):
        self.P = prog
        self.store = {}
        self.guard = ONE
        self.outer = [ONE]
        self.effects = []
        self.muted = 0
        self.memdefault = {}
        self.trying = 0
        self.loopctx = []
        self.nroot = 0
        self.depth = 0
        self.max_depth = max_depth
        self.positive = positive or (lambda path: False)
        self.hooks = {}          # name or key -> callable(interp, node, base, args)
        self.bindings = {}       # path -> tree: facts about symbolic inputs
        self.virtual = {}        # key -> function for devirtualisation
        self.cur_file = ''
        self.steps = 0
        self.called = set()
        self.fields = {}         # opaque field overrides by path
        self.noinline = set()
        self.asserts = []

    # -- roots -----------------------------------------------------------------------
    def new_root(self, tree, tag=''):
        self.nroot += 1
        r = self.nroot
        self.store[r] = tree
        return (r, ())

    # -- symbolic inputs -----------------------------------------------------------------
    def symbolic(self, t, path, mk=None):
        b = self.bindings.get(path)
        if b is not None:
            return b
        t0 = t
        t = strip_type(t)
        mk_ = mk or (lambda p, pos: T.sym(p, pos))
        name, args = split_targs(t)
        if t == 'bool':
            return mk(path, 'bool') if mk else T.boolsym(path)
        if t in INTS or t in FLOATS:
            return mk_(path, self.positive(path))
        if name == 'dealii::VectorizedArray':
            return mk_(path, self.positive(path))
        if name in ('dealii::Tensor', 'dealii::Point', 'dealii::SymmetricTensor'):
            if name == 'dealii::Point':
                rank, n, x = 1, int(args[0]), (args[1] if len(args) > 1 else 'double')
            else:
                rank, n = int(args[0]), int(args[1])
                x = args[2] if len(args) > 2 else 'double'
            if rank == 0:
                return self.symbolic(x, path, mk)
            if name == 'dealii::SymmetricTensor' and rank == 2:
                return Arr([Arr([self.symbolic(x, '%s[%d][%d]' % (path, min(i, j), max(i, j)), mk)
                                 for j in range(n)]) for i in range(n)], t)
            sub = x if rank == 1 else 'dealii::Tensor<%d, %d, %s>' % (rank - 1, n, x)
            return Arr([self.symbolic(sub, '%s[%d]' % (path, i), mk) for i in range(n)], t)
        if name == 'std::array':
            return Arr([self.symbolic(args[0], '%s[%d]' % (path, i), mk) for i in range(int(args[1]))], t)
        if name in ('std::tuple', 'std::pair'):
            return Arr([self.symbolic(a, '%s<%d>' % (path, i), mk) for i, a in enumerate(args)], t)
        m = re.match(r'(.*)\[(\d+)\]$', t)
        if m:
            return Arr([self.symbolic(m.group(1), '%s[%d]' % (path, i), mk) for i in range(int(m.group(2)))], t)
        if t in self.P.enums:
            return mk_(path, False)
        return Opaque(path, t)

    def zero_of(self, t):
        t = strip_type(t)
        name, args = split_targs(t)
        if is_scalar_type(t):
            return ZERO
        s = self.symbolic(t, '0')
        if isinstance(s, Arr):
            return self.map_tree(lambda v: ZERO, s)
        if t in self.P.enums:
            return ZERO
        return s

    def map_tree(self, f, x):
        if isinstance(x, Value):
            return f(x)
        if isinstance(x, Arr):
            return Arr([self.map_tree(f, y) for y in x.e], x.t)
        return x

    # -- reading / writing ----------------------------------------------------------------
    def child(self, tree, step, t):
        """sub-tree; t: type of the child"""
        kind, x = step
        if isinstance(tree, Ref):
            return self.child(self.read(tree.lv, ''), step, t)
        if kind == 'f':
            if isinstance(tree, Struct):
                if x in tree.f:
                    return tree.f[x]
                if tree.base is not None:
                    return self.child(tree.base, step, t)
                if '.' in tree.f:      # base sub-object
                    return self.child(tree.f['.'], step, t)
                return self.symbolic(t, 'uninit.%s' % x)
            if isinstance(tree, Arr) and x in ('first', 'second'):
                return tree.e[0 if x == 'first' else 1]
            if isinstance(tree, Arr) and x in ('_M_elems', 'data', 'values'):
                return tree
            if isinstance(tree, Value) and x == 'data':
                return tree
            if isinstance(tree, Opaque):
                return self.symbolic(t, '%s.%s' % (tree.path, x))
            return self.symbolic(t, '%s.%s' % (pretty(tree), x))
        if kind == 'i':
            if isinstance(x, Value):
                c = x.const()
                if c is not None:
                    x = int(c)
            if isinstance(tree, Arr):
                if isinstance(x, int):
                    if 0 <= x < len(tree.e):
                        return tree.e[x]
                    self.asserts.append(('index', x, len(tree.e)))
                    return self.symbolic(t, 'out_of_range(%s)' % x)
                r = tree.e[-1]
                for k in range(len(tree.e) - 2, -1, -1):
                    r = self.sel(T.eq0(x - k), tree.e[k], r)
                return r
            if isinstance(tree, Value):    # lane of a vectorised value
                return tree
            p = tree.path if isinstance(tree, Opaque) else pretty(tree)
            if isinstance(tree, Struct):
                key = ('i', tkey(x))
                if key in tree.f:
                    return tree.f[key]
                p = tree.base.path if tree.base else 'uninit'
            return self.symbolic_elem(t, p, x)
        raise AnalysisError('bad step')

    def symbolic_elem(self, t, p, x):
        if isinstance(x, int):
            return self.symbolic(t, '%s[%d]' % (p, x))
        full = '%s[%s]' % (p, pretty(x))
        return self.symbolic(t, full, lambda path, pos, _p=p, _x=x, _f=full: self.mk_app(
            'elem', pos, _p, path[len(_f):] if path.startswith(_f) else path, _x))

    def mk_app(self, name, pos, *args):
        if pos == 'bool':
            return T.boolapp(name, *args)
        return T.app(name, *args, pos=bool(pos))

    def read(self, lv, t=''):
        r, path = lv
        if r not in self.store and not self.revive(r):
            raise AnalysisError('dangling location %r' % (lv,))
        x = self.store[r]
        for k, s in enumerate(path):
            last = k == len(path) - 1
            x = self.child(x, s if not (s[0] == 'i' and isinstance(s[1], tuple)) else s, t if last else '?')
        return x

    def write(self, lv, v):
        r, path = lv
        if path and r not in self.store:
            self.revive(r)
        self.store[r] = self.update(self.store.get(r), path, v)

    def revive(self, r):
        """a location whose value is no longer known is read again"""
        return False

    def update(self, tree, path, v):
        if not path:
            return v
        if isinstance(tree, Ref):
            self.write((tree.lv[0], tree.lv[1] + tuple(path)), v)
            return tree
        (kind, x), rest = path[0], path[1:]
        if isinstance(x, Value):
            c = x.const()
            if c is not None:
                x = int(c)
        if kind == 'f':
            if isinstance(tree, Struct):
                f = dict(tree.f)
                if x not in f and '.' in f and rest == () and tree.base is None and \
                        isinstance(f['.'], (Struct,)) and x in f['.'].f:
                    f['.'] = self.update(f['.'], path, v)
                    return Struct(tree.t, f, tree.base)
                f[x] = self.update(f.get(x) if x in f else (self.child(tree, (kind, x), '?') if rest else None), rest, v)
                return Struct(tree.t, f, tree.base)
            if isinstance(tree, Opaque):
                f = {}
                f[x] = self.update(self.child(tree, (kind, x), '?') if rest else None, rest, v)
                return Struct(tree.t, f, tree)
            if isinstance(tree, Arr) and x in ('first', 'second'):
                return self.update(tree, (('i', 0 if x == 'first' else 1),) + tuple(rest), v)
            if isinstance(tree, (Arr, Value)) and x in ('_M_elems', 'data', 'values'):
                return self.update(tree, rest, v)
            if tree is None:
                return Struct('?', {x: self.update(None, rest, v)})
        if kind == 'i':
            if isinstance(tree, Arr):
                e = list(tree.e)
                if isinstance(x, int):
                    if not 0 <= x < len(e):
                        self.asserts.append(('index', x, len(e)))
                        return tree
                    e[x] = self.update(e[x], rest, v)
                else:
                    for k in range(len(e)):
                        e[k] = self.sel(T.eq0(x - k), self.update(e[k], rest, v), e[k])
                return Arr(e, tree.t)
            if isinstance(tree, Value):
                return self.update(None, rest, v) if rest else v
            base = tree if isinstance(tree, Opaque) else (tree.base if isinstance(tree, Struct) else None)
            f = dict(tree.f) if isinstance(tree, Struct) else {}
            key = ('i', tkey(x) if isinstance(x, Value) else x)
            if isinstance(x, Value):
                # other symbolic entries may alias
                f = {k: w for k, w in f.items() if not (isinstance(k, tuple) and k[0] == 'i')}
            f[key] = self.update(f.get(key) if key in f else (self.child(tree, (kind, x), '?') if rest and tree is not None else None), rest, v)
            return Struct(getattr(tree, 't', '?'), f, base)
        raise AnalysisError('cannot update %r at %r' % (tree, path))

    # -- joins ------------------------------------------------------------------------
    def sel(self, c, a, b):
        if a is b:
            return a
        k = c.const()
        if k is not None:
            return a if k != 0 else b
        if isinstance(a, Value) and isinstance(b, Value):
            return T.select(c, a, b)
        if a is None:
            return b
        if b is None:
            return a
        if tkey(a) == tkey(b):
            return a
        if isinstance(a, Arr) and isinstance(b, Arr) and len(a.e) == len(b.e):
            return Arr([self.sel(c, x, y) for x, y in zip(a.e, b.e)], a.t)
        if isinstance(a, Struct) or isinstance(b, Struct):
            fa = a.f if isinstance(a, Struct) else {}
            fb = b.f if isinstance(b, Struct) else {}
            base = a.base if isinstance(a, Struct) else (a if isinstance(a, Opaque) else None)
            f = {}
            for n in set(fa) | set(fb):
                x = fa.get(n)
                y = fb.get(n)
                if x is None and base is not None and not isinstance(n, tuple) and isinstance(y, Value):
                    x = self.symbolic('double', '%s.%s' % (base.path, n))
                if y is None and base is not None and not isinstance(n, tuple) and isinstance(x, Value):
                    y = self.symbolic('double', '%s.%s' % (base.path, n))
                if isinstance(base, Opaque) and isinstance(n, tuple) and n[0] == 'i' and isinstance(n[1], int):
                    if x is None and isinstance(y, (Value, Opaque)):
                        x = self.child(base, n, 'double' if isinstance(y, Value) else y.t)
                    if y is None and isinstance(x, (Value, Opaque)):
                        y = self.child(base, n, 'double' if isinstance(x, Value) else x.t)
                if x is None and isinstance(base, Opaque) and not isinstance(n, tuple) and isinstance(y, Opaque):
                    x = Opaque('%s.%s' % (base.path, n), y.t)
                if y is None and isinstance(base, Opaque) and not isinstance(n, tuple) and isinstance(x, Opaque):
                    y = Opaque('%s.%s' % (base.path, n), x.t)
                f[n] = self.sel(c, x, y)
            return Struct(getattr(a, 't', ''), f, base)
        if isinstance(a, Str) and isinstance(b, Str):
            return Opaque('(%s?%s:%s)' % (pretty(c), a.s, b.s))
        return Opaque('(%s?%s:%s)' % (pretty(c), pretty(a), pretty(b)), getattr(a, 't', ''))

    def merge(self, c, s1, s2):
        if s1 is None:
            return s2
        if s2 is None:
            return s1
        r = dict(s2)
        md = self.memdefault
        for k, v in s1.items():
            w = s2.get(k)
            if w is v:
                continue
            if k not in s2:
                r[k] = v if k not in md else self.sel(c, v, md[k])
            else:
                r[k] = self.sel(c, v, w)
        if md:
            for k, w in s2.items():
                if k not in s1 and k in md:
                    r[k] = self.sel(c, md[k], w)
        return r

    # -- statements --------------------------------------------------------------------
    def dead(self):
        return self.store is None

    def exec(self, s, fr):
        if s is None or self.store is None:
            return
        self.steps += 1
        k = s['k']
        m = getattr(self, 's_' + k, None)
        if m:
            m(s, fr)
        else:
            self.eval(s, fr)

    def s_block(self, s, fr):
        for x in s['s']:
            if self.store is None:
                return
            self.exec(x, fr)

    def s_null(self, s, fr):
        pass

    def s_decl(self, s, fr):
        for v in s['v']:
            if v.get('k') == 'td' or 'id' not in v:
                continue
            self.declare(v, fr)

    def declare(self, v, fr):
        t = v['t']
        init = v.get('init')
        if v.get('static'):
            key = ('static', v['id'])
            if key not in self.store:
                val = self.eval(init, fr) if init is not None else self.zero_of(t)
                if isinstance(val, Opaque) and val.path.endswith('()'):
                    val = Opaque('static.' + v['n'], val.t)
                self.store[key] = val
            fr.env[v['id']] = (key, ())
            return
        if v.get('bind'):
            if init is None:
                raise AnalysisError('binding without initialiser')
            if t.rstrip().endswith('&'):
                lv = self.lv(init, fr)
            else:
                lv = self.new_root(self.eval(init, fr))
            self.bind_parts(v['bind'], lv, t, fr)
            return
        if t.rstrip().endswith('&'):
            if init is not None:
                fr.env[v['id']] = self.lv(init, fr)
                return
        if init is None:
            val = self.symbolic(t, 'uninit.%s' % v['n']) if not is_scalar_type(t) else T.app('uninit', v['n'])
        else:
            val = self.eval(init, fr)
        if isinstance(val, Arr) and not val.e and is_scalar_type(t):
            val = ZERO
        fr.env[v['id']] = self.new_root(val)

    def bind_parts(self, names, lv, t, fr):
        """the parts of a tuple, a pair, or an array, named as the other ways to access them do"""
        base = split_targs(strip_type(t.rstrip().rstrip('&').rstrip()))[0].replace('const ', '').strip()
        part = (lambda i: ('i', i))
        if base == 'std::pair':
            try:
                lv = self.follow(lv)
                w = self.read(lv, '')
            except AnalysisError:
                w = None
            if isinstance(w, (Opaque, Struct)):
                part = (lambda i: ('f', ('first', 'second')[i]))
        for i, b in enumerate(names):
            fr.env[b['id']] = (lv[0], lv[1] + (part(i),))

    def s_if(self, s, fr):
        if s.get('init'):
            self.exec(s['init'], fr)
        if s.get('var'):
            self.exec(s['var'], fr)
        c = self.boolean(self.eval(s['c'], fr))
        if self.store is None:
            return
        k = c.const()
        if k is not None:
            self.exec(s['th'] if k != 0 else s.get('el'), fr)
            return
        s0, g0 = self.store, self.guard
        self.store = dict(s0)
        self.guard = g0 * c
        self.exec(s['th'], fr)
        s1, g1 = self.store, self.guard
        self.store = dict(s0)
        self.guard = g0 * (ONE - c)
        self.exec(s.get('el'), fr)
        s2, g2 = self.store, self.guard
        if s1 is None:
            self.store, self.guard = s2, g2
        elif s2 is None:
            self.store, self.guard = s1, g1
        else:
            self.store = self.merge(c, s1, s2)
            self.guard = g1 + g2

    def s_ret(self, s, fr):
        e = s.get('e')
        v = None
        if e is not None:
            rt = fr.func.get('rt', '') if fr.func else ''
            if rt.rstrip().endswith('&'):
                v = Ref(self.lv(e, fr))
            else:
                v = self.eval(e, fr)
        if self.store is None:
            return
        fr.rets.append((self.guard, v, self.store))
        self.store = None

    def s_break(self, s, fr):
        if not fr.loops:
            raise AnalysisError('break outside loop')
        fr.loops[-1]['break'].append((self.guard, self.store))
        self.store = None

    def s_cont(self, s, fr):
        for l in reversed(fr.loops):
            if not l.get('switch'):
                l['cont'].append((self.guard, self.store))
                break
        self.store = None

    def join(self, pend):
        """join pending states into the current one"""
        for g, st in pend:
            if self.store is None:
                self.store, self.guard = st, g
            else:
                self.store = self.merge(g, st, self.store)
                self.guard = self.guard + g

    def s_for(self, s, fr):
        if s.get('init'):
            self.exec(s['init'], fr)
        self.loop(s, fr, s.get('c'), s.get('inc'), s['b'], True)

    def s_while(self, s, fr):
        self.loop(s, fr, s.get('c'), None, s['b'], True)

    def s_do(self, s, fr):
        self.loop(s, fr, s.get('c'), None, s['b'], False)

    MAXUNROLL = 200

    def loop(self, s, fr, cond, inc, body, pre):
        ctx = {'break': [], 'cont': []}
        n = 0
        first = not pre
        while True:
            if self.store is None:
                break
            if not first:
                c = self.boolean(self.eval(cond, fr)) if cond is not None else ONE
                k = c.const()
                if k is None or n > self.MAXUNROLL:
                    self.symbolic_loop(s, fr, cond, inc, body, ctx)
                    break
                if k == 0:
                    break
            first = False
            fr.loops.append(ctx)
            self.exec(body, fr)
            fr.loops.pop()
            cont, ctx['cont'] = ctx['cont'], []
            self.join(cont)
            if self.store is None:
                break
            if inc is not None:
                self.eval(inc, fr)
            n += 1
        self.join(ctx['break'])

    def leaves(self, a, b, path=()):
        """paths at which two trees differ"""
        if a is b or tkey(a) == tkey(b):
            return []
        if isinstance(a, Arr) and isinstance(b, Arr) and len(a.e) == len(b.e):
            r = []
            for i, (x, y) in enumerate(zip(a.e, b.e)):
                r += self.leaves(x, y, path + (('i', i),))
            return r
        if isinstance(a, Struct) and isinstance(b, Struct):
            r = []
            for n in sorted(set(a.f) | set(b.f), key=str):
                if n in a.f and n in b.f:
                    r += self.leaves(a.f[n], b.f[n], path + (('f', n) if not isinstance(n, tuple) else n,))
                else:
                    r.append(path)
                    return [path]
            return r
        return [path]

    def get_path(self, tree, path):
        for s in path:
            tree = self.child(tree, s, '?')
        return tree

    def symbolic_loop(self, s, fr, cond, inc, body, ctx):
        st0, g0 = self.store, self.guard
        # the loop counter
        iv_lv, lo, hi, step, ivval = None, None, None, None, None
        desc = None
        extra = []
        cn = self.counter(cond, inc, fr, extra)
        if not cn:
            cn = self.body_counter(s, cond, inc, body, fr)
            extra = [inc] if cn and inc is not None else []
        if cn:
            iv_lv, hi, step, rel = cn
            lo = self.read(iv_lv, 'int')
            desc = ('for', lo, hi, step)
        else:
            desc = ('while', s.get('l'))
        depth = len(self.loopctx)
        if cn:
            ivval = T.app('iv', depth, lo, hi, step)
        # bodies: find the loop-carried leaves
        carried = []          # (root, path)
        phis = {}
        linear = {}           # carried leaves that advance by a constant: closed form
        for attempt in range(8):
            self.store = dict(st0)
            self.guard = g0
            for i, (r, p) in enumerate(carried):
                ph = linear[(r, p)][0] if linear.get((r, p)) else phis[(r, p)]
                self.store[r] = self.update(self.store[r], p, ph)
            if iv_lv is not None:
                self.write(iv_lv, ivval)
            entry = dict(self.store)
            final = attempt > 0
            if not final:
                self.muted += 1
            neff = len(self.effects)
            self.loopctx.append(desc)
            c2 = self.boolean(self.eval(cond, fr)) if (cond is not None and not cn) else ONE
            self.guard = g0 * c2
            ctx2 = {'break': [], 'cont': []}
            nret = len(fr.rets)
            fr.loops.append(ctx2)
            gb = self.guard
            self.exec(body, fr)
            fr.loops.pop()
            self.join(ctx2['cont'])
            if self.store is not None and inc is not None and not cn:
                self.eval(inc, fr)
            if self.store is not None and cn:
                for x in extra:
                    self.eval(x, fr)
            self.loopctx.pop()
            if not final:
                self.muted -= 1
            out = self.store
            if out is None:
                out = entry
            # states leaving through break / return contribute their changes too
            outs = [out] + [x[1] for x in ctx2['break']]
            new = []
            for o in outs:
                for r, v in entry.items():
                    if r not in o or o[r] is v:
                        continue
                    if iv_lv is not None and r == iv_lv[0] and not iv_lv[1]:
                        continue
                    for p in self.leaves(v, o[r]):
                        if not any(r == r2 and p[:len(p2)] == p2 for r2, p2 in carried):
                            if (r, p) not in new:
                                new.append((r, p))
            redo = False
            for o in outs:
                for r in o:
                    # a table entry of an outer index first touched in this loop: restart with its value before the loop
                    if r in self.memdefault and r not in entry and not (cn and pretty(ivval) in ''.join(r[2:])):
                        st0 = dict(st0)
                        st0[r] = self.memdefault[r]
                        redo = True
            if final and not new and cn and not redo:
                for r, p in carried:
                    ph = phis[(r, p)]
                    if not isinstance(ph, Value) or any(r not in o for o in outs):
                        continue
                    lin = linear.get((r, p))
                    ends = [self.get_path(o[r], p) for o in outs]
                    if lin is None:
                        init = self.get_path(st0[r], p)
                        d = ends[0] - ph if all(isinstance(x, Value) for x in ends) else None
                        if (d is not None and isinstance(init, Value) and not d.is_zero() and not T.has_bool(d)
                                and d.is_const() and all(x == ends[0] for x in ends)):
                            linear[(r, p)] = (init + d * (ivval - lo) / step, d,
                                              init + d * (hi - lo) / step)
                            redo = True
                        else:
                            linear[(r, p)] = False
                    elif lin and any(x != lin[0] + lin[1] for x in ends):
                        linear[(r, p)] = False
                        redo = True
            if final and not new and not redo:
                rets = fr.rets[nret:]
                break
            # forget what this attempt logged
            del self.effects[neff:]
            del fr.rets[nret:]
            for r, p in new:
                carried = [(r2, p2) for r2, p2 in carried if not (r2 == r and p2[:len(p)] == p)]
                carried.append((r, p))
                old = self.get_path(st0[r], p)
                n = len(phis)
                phis[(r, p)] = self.phi_tree(old, self.get_path(out[r], p) if r in out else None, depth, n)
        else:
            raise AnalysisError('loop summary did not converge at line %s' % s.get('l'))
        # summarise
        self.store = dict(st0)
        self.guard = g0
        lkey = ('loop', depth) + (tuple(desc[1:]) if cn else ())
        allphi = set()
        for ph in phis.values():
            self.collect_atoms(ph, allphi)
        hasbreak = bool(ctx2['break']) or bool(rets)
        merged = out
        for g, st in ctx2['break']:
            merged = self.merge(g, st, merged)
        for r, p in carried:
            init = self.get_path(st0[r], p)
            ph = phis[(r, p)]
            if linear.get((r, p)) and not hasbreak:
                self.store[r] = self.update(self.store[r], p, linear[(r, p)][2])
                continue
            end = self.get_path(merged[r], p) if r in merged else ph
            res = self.summarise(init, ph, end, lkey, allphi, hasbreak)
            self.store[r] = self.update(self.store[r], p, res)
        if self.memdefault and cn and not hasbreak:
            # table entries addressed by the loop counter: what the generic iteration leaves behind
            for r, v in out.items():
                if r not in st0 and r in self.memdefault and not (self.deep(v) & allphi):
                    self.store[r] = v
        if iv_lv is not None:
            self.write(iv_lv, T.app('iv_end', lo, hi, step) if hasbreak else hi)
        # returns from inside the loop: possible exits
        for i in range(nret, len(fr.rets)):
            g, v, st = fr.rets[i]
            any_ = T.boolapp('any', lkey_args(lkey), g) if g.const() is None else ONE
            fr.rets[i] = (any_, v, {**self.store, **{k: w for k, w in st.items() if k not in self.store}})
            self.guard = self.guard * (ONE - any_)

    def collect_atoms(self, x, s):
        if isinstance(x, Value):
            s |= x.atoms()
        elif isinstance(x, Arr):
            for y in x.e:
                self.collect_atoms(y, s)
        elif isinstance(x, Struct):
            for y in x.f.values():
                self.collect_atoms(y, s)

    def deep(self, x):
        if isinstance(x, Value):
            return set(x.deep_atoms())
        if isinstance(x, Arr):
            return set().union(*[self.deep(y) for y in x.e]) if x.e else set()
        if isinstance(x, Struct):
            return set().union(*[self.deep(y) for y in x.f.values()]) if x.f else set()
        return set()

    def phi_tree(self, old, new, depth, n, sub=''):
        if isinstance(old, Value):
            isb = self.is_boolval(old) and (not isinstance(new, Value) or self.is_boolval(new))
            nm = 'phi%d.%d%s' % (depth, n, sub)
            return T.boolapp('phi', nm) if isb and old.is_const() is False else T.app('phi', nm)
        if isinstance(old, Arr):
            return Arr([self.phi_tree(x, None, depth, n, '%s[%d]' % (sub, i)) for i, x in enumerate(old.e)], old.t)
        b = old if isinstance(old, Opaque) else getattr(old, 'base', None)
        p = b.path.split('@')[0] + '@' if isinstance(b, Opaque) else ''
        return Opaque('%sphi%d.%d%s' % (p, depth, n, sub), getattr(old, 't', ''))

    def summarise(self, init, ph, end, lkey, allphi, hasbreak):
        if isinstance(ph, Arr) and isinstance(end, Arr) and isinstance(init, Arr):
            return Arr([self.summarise(a, b, c, lkey, allphi, hasbreak)
                        for a, b, c in zip(init.e, ph.e, end.e)], init.t)
        if isinstance(ph, Value) and isinstance(end, Value) and isinstance(init, Value):
            if end == ph:
                return init
            la = lkey_args(lkey)
            d = end - ph
            if not (d.deep_atoms() & allphi):
                return init + T.app('sum', la, d) if not hasbreak else init + T.app('sum_until', la, d)
            nd = T.modulo_ties(end)
            for w, sg in ((end, 1), (-end, -1)):
                tag = w.tag
                if tag and tag[0] == 'max':
                    rest = [x for x in tag[1] if x != ph * sg]
                    if len(rest) < len(tag[1]) and not any(x.deep_atoms() & allphi for x in rest):
                        e = T.vmax(*rest)
                        return (T.vmax(init * sg, T.app('maxover', la, e))) * sg
            if not (end.deep_atoms() & allphi):
                return T.app('last', la, end, init)
            return T.app('recur', la, ph, end, init)
        return Opaque('recur(%s)' % pretty(end), getattr(init, 't', ''))

    def body_counter(self, s, cond, inc, body, fr):
        """a while loop (or a for loop without increment) whose body advances
        the compared variable by a constant on every path"""
        if cond is None or cond.get('k') != 'bin' or cond['op'] not in ('<', '!=', '<=') or \
                cond['a'][0].get('k') != 'ref' or self.trying:
            return None
        st0, g0, ne, nr = self.store, self.guard, len(self.effects), len(fr.rets)
        lv = self.lv(cond['a'][0], fr)
        init = self.read(lv, 'int')
        hi = self.eval(cond['a'][1], fr)
        if not isinstance(init, Value) or not isinstance(hi, Value) or T.has_bool(init):
            return None
        self.trying += 1
        self.muted += 1
        ph = T.app('phi', 'counter')
        try:
            self.store = dict(st0)
            self.write(lv, ph)
            ctx2 = {'break': [], 'cont': []}
            fr.loops.append(ctx2)
            self.loopctx.append(('while', s.get('l')))
            self.exec(body, fr)
            self.loopctx.pop()
            fr.loops.pop()
            self.join(ctx2['cont'])
            if self.store is None:
                return None
            if inc is not None:
                self.eval(inc, fr)
            d = self.read(lv, 'int')
            d = d - ph if isinstance(d, Value) else None
        except AnalysisError:
            return None
        finally:
            self.muted -= 1
            self.trying -= 1
            self.store, self.guard = st0, g0
            del self.effects[ne:]
            del fr.rets[nr:]
        if d is None or d.is_zero() or T.has_bool(d) or ph.atoms() & d.deep_atoms():
            return None
        if cond['op'] == '<=':
            hi = hi + 1
        return lv, hi, d, cond['op']

    def counter(self, cond, inc, fr, extra):
        """(lvalue, bound, step, relation) of a counting loop; extra receives
        the other increments"""
        if cond is None or inc is None or cond.get('k') not in ('bin',):
            return None
        if cond['op'] not in ('<', '!=', '<='):
            return None
        parts = []

        def flatten(x):
            if x['k'] == 'bin' and x['op'] == ',':
                for y in x['a']:
                    flatten(y)
            else:
                parts.append(x)
        flatten(inc)
        for k, inc in enumerate(parts):
            var = None
            if inc['k'] == 'un' and inc['op'] in ('++', 'p++', '++p'):
                var, step = inc['e'], ONE
            elif inc['k'] == 'asg' and inc['op'] == '+':
                var, step = inc['a'][0], None
            if var is None or var['k'] != 'ref' or cond['a'][0].get('k') != 'ref' or \
                    cond['a'][0].get('id') != var.get('id'):
                continue
            lv = self.lv(var, fr)
            if step is None:
                step = self.eval(inc['a'][1], fr)
            hi = self.eval(cond['a'][1], fr)
            if not isinstance(hi, Value) or not isinstance(step, Value):
                return None
            if cond['op'] == '<=':
                hi = hi + 1
            extra += parts[:k] + parts[k + 1:]
            return lv, hi, step, cond['op']
        return None

    def s_rfor(self, s, fr):
        rng = self.lv(s['range'], fr)
        v = s['var']
        tree = self.read(rng, s['range'].get('t', ''))
        isref = v['t'].rstrip().endswith('&')
        ctx = {'break': [], 'cont': []}

        def bind(lv, val):
            if v.get('bind'):
                if not isref:
                    lv = self.new_root(val)
                self.bind_parts(v['bind'], lv, v['t'], fr)
            elif isref:
                fr.env[v['id']] = lv
            else:
                fr.env[v['id']] = self.new_root(val)
        if isinstance(tree, Arr):
            for i in range(len(tree.e)):
                if self.store is None:
                    break
                lv = (rng[0], rng[1] + (('i', i),))
                bind(lv, self.read(lv))
                fr.loops.append(ctx)
                self.exec(s['b'], fr)
                fr.loops.pop()
                cont, ctx['cont'] = ctx['cont'], []
                self.join(cont)
            self.join(ctx['break'])
            return
        p = tree.path if isinstance(tree, Opaque) else (tree.base.path if isinstance(tree, Struct) and tree.base else pretty(tree))
        depth = len(self.loopctx)
        lo, hi = ZERO, T.app('size', p)
        iv = T.app('iv', depth, lo, hi, ONE)
        et = strip_type(v['t'])
        el = self.symbolic_elem(et, p, iv)
        lv = self.new_root(el)
        bind(lv, el)
        self.symbolic_loop({'l': s.get('l')}, fr, None, None, s['b'], ctx)
        self.join(ctx['break'])

    def s_switch(self, s, fr):
        if s.get('var'):
            self.exec(s['var'], fr)
        c = self.eval(s['c'], fr)
        body = s['b']
        items = body['s'] if body['k'] == 'block' else [body]
        # flatten: list of (labels, stmt)
        flat = []
        for x in items:
            labels = []
            y = x
            while y is not None and y['k'] in ('case', 'default'):
                labels.append(y)
                y = y['b']
            flat.append((labels, y))
        vals = []
        for labels, _ in flat:
            for l in labels:
                if l['k'] == 'case':
                    vals.append(self.eval(l['v'], fr))
        ctx = {'break': [], 'cont': [], 'switch': True}
        st0, g0 = self.store, self.guard
        self.store = None
        for labels, st in flat:
            if labels:
                cc = ZERO
                for l in labels:
                    if l['k'] == 'default':
                        d = ONE
                        for w in vals:
                            d = d * (ONE - T.eq0(c - w))
                        cc = cc + d
                    else:
                        cc = cc + T.eq0(c - self.eval_in(l['v'], fr, st0))
                k = cc.const()
                if k is None or k != 0:
                    if self.store is None:
                        self.store, self.guard = dict(st0), g0 * cc
                    else:
                        self.store = self.merge(cc, st0, self.store)
                        self.guard = self.guard + g0 * cc
            if self.store is not None and st is not None:
                fr.loops.append(ctx)
                self.exec(st, fr)
                fr.loops.pop()
        # fallthrough without a match
        if not any(l['k'] == 'default' for labels, _ in flat for l in labels):
            d = ONE
            for w in vals:
                d = d * (ONE - T.eq0(c - w))
            if d.const() != 0:
                ctx['break'].append((g0 * d, dict(st0)))
        self.join(ctx['break'])

    def eval_in(self, e, fr, st):
        cur = self.store
        self.store = st
        r = self.eval(e, fr)
        self.store = cur
        return r

    def s_try(self, s, fr):
        self.exec(s['b'], fr)

    def s_omp(self, s, fr):
        if not self.muted:
            self.log('omp ' + s['d'], None, [], s, fr)
        self.exec(s.get('b'), fr)

    def s_other(self, s, fr):
        for x in s.get('s', s.get('a', [])):
            self.exec(x, fr)

    # -- expressions ----------------------------------------------------------------------
    def boolean(self, v):
        if isinstance(v, Value):
            if self.is_boolval(v):
                return v
            return ONE - T.eq0(v)
        if isinstance(v, Opaque):
            return T.boolapp('truth', v.path)
        if isinstance(v, (Ref, Clos, Struct)):
            return ONE
        return T.boolapp('truth', pretty(v))

    def is_boolval(self, v):
        if v.is_const():
            return v.const() in (0, 1)
        for m, c in v.t.items():
            if c.denominator != 1:
                return False
            for a, e in m:
                if a.kind != 'bool':
                    return False
        return True

    def log(self, name, base, args, node, fr, ret=None):
        if self.muted:
            return
        e = Effect()
        e.name, e.base, e.args = name, base, args
        e.guard = self.outer[-1] * self.guard
        e.loops = tuple(self.loopctx)
        e.line = node.get('l')
        e.file = fr.func.get('file', '') if fr.func else ''
        e.func = fr.func
        e.node = node
        e.ret = ret
        self.effects.append(e)

    def eval(self, e, fr):
        if e is None:
            return None
        if self.store is None:
            return ZERO
        k = e['k']
        m = getattr(self, 'e_' + k, None)
        if m is None:
            # a statement in expression position
            m = getattr(self, 's_' + k, None)
            if m:
                m(e, fr)
                return None
            raise AnalysisError('unknown node ' + k)
        r = m(e, fr)
        if self.naming and isinstance(r, Value):
            return self.naming.get(r.fp, r)
        return r

    naming = None    # value number -> symbol that stands for it

    def deref(self, v, t):
        while isinstance(v, Ref) and not t.rstrip().rstrip('&').rstrip().replace(' const', '').endswith('*'):
            v = self.read(v.lv, t)
        return v

    def e_num(self, e, fr):
        try:
            return limit_const(e['v'])
        except ValueError:
            return T.sym('const.' + e['v'], pos=not e['v'].startswith('-'))

    def e_str(self, e, fr):
        return Str(e['v'])

    def e_zero(self, e, fr):
        return self.zero_of(e['t'])

    def e_this(self, e, fr):
        return Ref(fr.this) if fr.this else Opaque('this')

    def e_ref(self, e, fr):
        if e.get('vk') == 'enum':
            return T.sym('enum.' + e['q'])
        if e.get('vk') == 'func':
            return Func(e['key'])
        lv = self.lv(e, fr)
        return self.deref(self.read(lv, e['t']), e['t'])

    def e_mem(self, e, fr):
        lv = self.lv(e, fr)
        return self.deref(self.read(lv, e['t']), e['t'])

    def e_idx(self, e, fr):
        lv = self.lv(e, fr)
        return self.deref(self.read(lv, e['t']), e['t'])

    def lv(self, e, fr):
        k = e['k']
        if k == 'ref':
            lv = fr.env.get(e['id'])
            if lv is None:
                if e.get('vk') in ('glob', 'smem'):
                    key = ('glob', e.get('q', e['n']))
                    if key not in self.store:
                        self.store[key] = self.global_value(e, fr)
                    lv = (key, ())
                elif e.get('vk') == 'func':
                    return self.new_root(Func(e['key']))
                else:
                    key = ('free', e['id'])
                    if key not in self.store:
                        self.store[key] = self.symbolic(e['t'], e['n'])
                    lv = (key, ())
                return lv
            if not e['t'].rstrip().endswith('*'):
                lv = self.follow(lv)
            return lv
        if k == 'mem':
            b = self.lv(e['b'], fr)
            b = self.follow(b)
            return self.follow_ref((b[0], b[1] + (('f', e['n']),)), e['t'])
        if k == 'this':
            if fr.this is None:
                return self.new_root(Opaque('this'))
            return fr.this
        if k == 'idx':
            b = self.follow(self.lv(e['a'][0], fr))
            i = self.eval(e['a'][1], fr)
            return self.index(b, i)
        if k == 'opcall' and e['op'] == '[]' and not e.get('own'):
            b = self.follow(self.lv(e['a'][0], fr))
            i = self.eval(e['a'][1], fr)
            return self.index(b, i)
        if k == 'opcall' and e['op'] in ('=', '+=', '-=', '*=', '/=') and not e.get('own'):
            self.eval(e, fr)
            return self.lv(e['a'][0], fr)
        if k == 'opcall' and e['op'] in ('*', '->') and len(e['a']) == 1 and not e.get('own'):
            b = self.lv(e['a'][0], fr)
            return self.follow(b)
        if k == 'asg' or (k == 'un' and e['op'] in ('++', '--') and not e.get('post')):
            self.eval(e, fr)
            return self.lv(e['a'][0] if k == 'asg' else e['e'], fr)
        if k == 'un' and e['op'] == '*':
            b = self.lv(e['e'], fr)
            return self.follow(b)
        if k == 'cast':
            sub = e['e']
            if sub is not None and strip_type(e['t']) == strip_type(sub.get('t', '')):
                return self.lv(sub, fr)
        if k == 'bin' and e['op'] == ',':
            self.eval(e['a'][0], fr)
            return self.lv(e['a'][1], fr)
        if k == 'cond':
            c = self.boolean(self.eval(e['a'][0], fr))
            kk = c.const()
            if kk is not None:
                return self.lv(e['a'][1 if kk else 2], fr)
        if k in ('call', 'mcall', 'opcall'):
            r = self.raw_call(e, fr)
            if isinstance(r, Ref):
                return r.lv
            return self.new_root(r)
        return self.new_root(self.eval(e, fr))

    def follow(self, lv):
        for _ in range(20):
            try:
                x = self.store.get(lv[0])
                for s in lv[1]:
                    if isinstance(x, Struct) and s[0] == 'f' and s[1] in x.f:
                        x = x.f[s[1]]
                    elif isinstance(x, Arr) and s[0] == 'i' and isinstance(s[1], int):
                        x = x.e[s[1]]
                    else:
                        return lv
            except (AttributeError, IndexError):
                return lv
            if isinstance(x, Ref):
                lv = x.lv
            else:
                return lv
        return lv

    def follow_ref(self, lv, t):
        if t.rstrip().endswith('*'):
            return lv
        return self.follow(lv)

    def index(self, b, i):
        if isinstance(i, Value):
            c = i.const()
            if c is not None and c.denominator == 1:
                i = int(c)
        elif not isinstance(i, int):
            i = T.app('idx', pretty(i))
        return (b[0], b[1] + (('i', i),))

    def global_value(self, e, fr):
        q = e.get('q', e['n'])
        d = self.P.vars.get(q)
        if d is not None and d['var'].get('init') is not None:
            try:
                return self.eval(d['var']['init'], Frame(func={'file': d['file']}))
            except AnalysisError:
                pass
        cls, _, n = q.rpartition('::')
        c = self.P.class_by_q.get(cls)
        if c:
            for st in c['statics']:
                if st['n'] == n and st['e'] is not None:
                    return self.eval(st['e'], Frame(func={'file': c['file']}))
        return self.symbolic(e['t'], q)

    def e_copy(self, e, fr):
        return self.eval(e['e'], fr)

    def e_cast(self, e, fr):
        if e['e'] is None:
            return None
        v = self.eval(e['e'], fr)
        t = strip_type(e['t'])
        if t == 'bool' and isinstance(v, Value):
            return self.boolean(v)
        if t in INTS and isinstance(v, Value):
            st = strip_type(e['e'].get('t', ''))
            if st in FLOATS and v.const() is None:
                return T.app('trunc', v)
            if v.const() is not None:
                return T.const(int(v.const()))
        return v

    def e_init(self, e, fr):
        t = strip_type(e['t'])
        args = [self.eval(a, fr) for a in e['a']]
        name, ta = split_targs(t)
        if is_scalar_type(t):
            return args[0] if args else ZERO
        if name == 'std::array' or re.match(r'.*\[\d*\]$', t):
            if len(args) == 1 and isinstance(args[0], Arr) and name == 'std::array':
                args = list(args[0].e)
            if name == 'std::array':
                n = int(ta[1])
                while len(args) < n:
                    args.append(self.zero_of(ta[0]))
            return Arr(args, t)
        c = self.P.class_by_q.get(t)
        if c is not None:
            f = {}
            for fd, a in zip(c['fields'], args):
                f[fd['n']] = a
            return Struct(t, f)
        return Arr(args, t)

    def e_lambda(self, e, fr):
        env = dict(fr.env)
        for c in e['cap']:
            if 'id' in c:
                if c.get('init') is not None:
                    if c.get('ref'):
                        env[c['id']] = self.lv(c['init'], fr)
                    else:
                        env[c['id']] = self.new_root(self.eval(c['init'], fr))
                elif not c.get('ref') and c['id'] in env:
                    env[c['id']] = self.new_root(self.read(env[c['id']], ''))
        return Clos(e, env, fr.this)

    def e_cond(self, e, fr):
        c = self.boolean(self.eval(e['a'][0], fr))
        k = c.const()
        if k is not None:
            return self.eval(e['a'][1 if k else 2], fr)
        s0, g0 = self.store, self.guard
        self.store = dict(s0)
        self.guard = g0 * c
        a = self.eval(e['a'][1], fr)
        s1 = self.store
        self.store = dict(s0)
        self.guard = g0 * (ONE - c)
        b = self.eval(e['a'][2], fr)
        s2 = self.store
        self.guard = g0
        self.store = self.merge(c, s1, s2)
        return self.sel(c, a, b)

    def e_un(self, e, fr):
        op = e['op']
        if op in ('++', '--'):
            lv = self.lv(e['e'], fr)
            v = self.read(lv, e['t'])
            if not isinstance(v, Value):
                self.write(lv, Opaque('next(%s)' % pretty(v), getattr(v, 't', '')))
                return v
            n = v + (1 if op == '++' else -1)
            self.write(lv, n)
            return v if e.get('post') else n
        if op == '&':
            return Ref(self.lv(e['e'], fr))
        if op == '*':
            v = self.eval(e['e'], fr)
            if isinstance(v, Ref):
                return self.deref(self.read(v.lv, e['t']), e['t'])
            if isinstance(v, Opaque):
                return self.symbolic(e['t'], v.path)
            if isinstance(v, Value) and e['e'].get('t', '').replace('const', '').strip().endswith('*'):
                return T.app('deref', v)
            return v
        v = self.eval(e['e'], fr)
        if op == '-':
            return self.neg(v)
        if op == '+':
            return v
        if op == '!':
            return ONE - self.boolean(v)
        if op == '~':
            return T.app('bitnot', v)
        return T.app('un' + op, v) if isinstance(v, Value) else Opaque(op + pretty(v))

    def neg(self, v):
        if isinstance(v, Arr):
            return Arr([self.neg(x) for x in v.e], v.t)
        if isinstance(v, Value):
            return -v
        return Opaque('-' + pretty(v))

    def e_bin(self, e, fr):
        op = e['op']
        if op in ('&&', '||'):
            a = self.boolean(self.eval(e['a'][0], fr))
            k = a.const()
            if k is not None:
                if op == '&&' and k == 0:
                    return ZERO
                if op == '||' and k == 1:
                    return ONE
                return self.boolean(self.eval(e['a'][1], fr))
            s0, g0 = self.store, self.guard
            g = a if op == '&&' else ONE - a
            self.guard = g0 * g
            self.store = dict(s0)
            b = self.boolean(self.eval(e['a'][1], fr))
            s1 = self.store
            self.guard = g0
            self.store = self.merge(g, s1, s0)
            return T.andb(a, b) if op == '&&' else T.orb(a, b)
        if op == ',':
            self.eval(e['a'][0], fr)
            return self.eval(e['a'][1], fr)
        a = self.eval(e['a'][0], fr)
        b = self.eval(e['a'][1], fr)
        return self.binop(op, a, b, e)

    def binop(self, op, a, b, e=None):
        if isinstance(a, Arr) or isinstance(b, Arr):
            return self.tensor_op(op, a, b, e)
        if not isinstance(a, Value) or not isinstance(b, Value):
            if isinstance(a, Value) or isinstance(b, Value) or op not in ('==', '!='):
                if op in ('<', '>', '<=', '>=', '==', '!='):
                    return T.boolapp('cmp' + op, pretty(a), pretty(b))
                if e is not None and is_scalar_type(e.get('t', '')):
                    return T.app('bin' + op, pretty(a), pretty(b))
                return Opaque('(%s%s%s)' % (pretty(a), op, pretty(b)), (e or {}).get('t', ''))
            if tkey(a) == tkey(b):
                return ONE if op == '==' else ZERO
            r = T.boolapp('same', *sorted([pretty(a), pretty(b)]))
            return r if op == '==' else ONE - r
        if op == '+':
            return a + b
        if op == '-':
            return a - b
        if op == '*':
            return a * b
        if op == '/':
            if e is not None and strip_type(e.get('t', '')) in INTS:
                if a.is_const() and b.is_const() and b.const() != 0:
                    return T.const(int(a.const() / b.const()))
                if b == ONE:
                    return a
                return T.app('intdiv', a, b)
            return a / b
        if op == '<':
            return T.gt0(b - a)
        if op == '>':
            return T.gt0(a - b)
        if op == '<=':
            return T.ge0(b - a)
        if op == '>=':
            return T.ge0(a - b)
        if op == '==':
            return T.eq0(a - b)
        if op == '!=':
            return ONE - T.eq0(a - b)
        if a.is_const() and b.is_const() and a.const().denominator == 1 and b.const().denominator == 1:
            x, y = int(a.const()), int(b.const())
            if op == '%' and y:
                return T.const(x % y)
            if op == '<<':
                return T.const(x << y)
            if op == '>>':
                return T.const(x >> y)
            if op == '&':
                return T.const(x & y)
            if op == '|':
                return T.const(x | y)
            if op == '^':
                return T.const(x ^ y)
        if op == '%' and b == ONE:
            return ZERO
        if op in ('&', '|') and self.is_boolval(a) and self.is_boolval(b):
            return T.andb(a, b) if op == '&' else T.orb(a, b)
        return T.app('op' + op, a, b)

    def tensor_op(self, op, a, b, e=None):
        if op in ('==', '!='):
            r = ONE
            fa, fb = self.flat(a), self.flat(b)
            for x, y in zip(fa, fb):
                r = r * T.eq0(x - y)
            return r if op == '==' else ONE - r
        if op in ('+', '-'):
            if isinstance(a, Arr) and isinstance(b, Arr):
                if len(a.e) != len(b.e):
                    raise AnalysisError('tensor shapes')
                return Arr([self.tensor_op(op, x, y) if isinstance(x, Arr) else self.binop(op, x, y)
                            for x, y in zip(a.e, b.e)], a.t)
            return Opaque('(%s%s%s)' % (pretty(a), op, pretty(b)))
        if op == '*':
            if isinstance(a, Arr) and isinstance(b, Arr):
                return self.contract(a, b)
            if isinstance(a, Arr):
                return Arr([self.binop('*', x, b) for x in a.e], a.t)
            return Arr([self.binop('*', a, x) for x in b.e], b.t)
        if op == '/':
            return Arr([self.binop('/', x, b) for x in a.e], a.t)
        return Opaque('(%s%s%s)' % (pretty(a), op, pretty(b)))

    def contract(self, a, b):
        """last index of a with the first of b"""
        if isinstance(a.e[0], Arr):
            return Arr([self.contract(x, b) for x in a.e], a.t)
        r = None
        for x, y in zip(a.e, b.e):
            z = self.binop('*', x, y)
            r = z if r is None else self.binop('+', r, z)
        return r

    def flat(self, x):
        if isinstance(x, Arr):
            r = []
            for y in x.e:
                r += self.flat(y)
            return r
        return [x]

    def e_asg(self, e, fr):
        op = e['op']
        r = self.eval(e['a'][1], fr)
        lv = self.lv(e['a'][0], fr)
        if self.store is None:
            return ZERO
        if op:
            old = self.deref(self.read(lv, e['a'][0]['t']), e['a'][0]['t'])
            r = self.binop(op, old, r, e)
        elif isinstance(r, Value) and strip_type(e['a'][0]['t']) == 'bool':
            r = self.boolean(r)
        self.assign(lv, r, e, fr)
        return r

    def assign(self, lv, v, e, fr):
        x = self.store.get(lv[0])
        if isinstance(x, Opaque) or (isinstance(x, Struct) and x.base is not None):
            self.log('=', self.lv_path(lv), [v], e, fr)
        self.write(lv, v)

    def lv_path(self, lv):
        x = self.store.get(lv[0])
        s = x.path if isinstance(x, Opaque) else (x.base.path if isinstance(x, Struct) and x.base else '%s' % (lv[0],))
        for kind, y in lv[1]:
            s += '.%s' % y if kind == 'f' else '[%s]' % (pretty(y) if isinstance(y, Value) else y)
        return s

    def e_ctor(self, e, fr):
        return self.construct(e, fr)

    def construct(self, e, fr):
        t = strip_type(e['t'])
        name, ta = split_targs(t)
        args = e['a']
        if name == 'dealii::VectorizedArray' or is_scalar_type(t):
            if not args:
                return T.app('uninit', 'va') if not e.get('li') else ZERO
            return self.eval(args[0], fr)
        if name in ('dealii::Tensor', 'dealii::Point', 'dealii::SymmetricTensor'):
            vals = [self.eval(a, fr) for a in args]
            if not vals:
                return self.zero_of(t)
            if len(vals) == 1 and isinstance(vals[0], Arr):
                return vals[0]
            if name == 'dealii::Point':
                return Arr(vals, t)
            if len(vals) == 1 and isinstance(vals[0], Opaque):
                return self.symbolic(t, vals[0].path)
            if len(vals) == 1 and isinstance(vals[0], Value):
                z = self.zero_of(t)
                return Arr([vals[0]], t) if len(z.e) == 1 else z
            return Opaque('%s(%s)' % (t, ','.join(pretty(v) for v in vals)), t)
        if name in ('std::array',):
            vals = [self.eval(a, fr) for a in args]
            return vals[0] if vals and isinstance(vals[0], Arr) else self.symbolic(t, 'uninit')
        if name in ('std::tuple', 'std::pair'):
            if len(args) == len(ta) or args:
                if len(args) == 1 and len(ta) > 1:
                    return self.eval(args[0], fr)
                r = []
                for a, tt in zip(args, ta):
                    if tt.rstrip().endswith('&'):
                        r.append(Ref(self.lv(a, fr)))
                    else:
                        r.append(self.eval(a, fr))
                return Arr(r, t)
            return Arr([self.zero_of(x) for x in ta], t)
        if t in ('std::string', 'std::basic_string<char>') or name == 'std::basic_string':
            if args:
                v = self.eval(args[0], fr)
                if isinstance(v, Str):
                    return v
                return v if v is not None else Str('')
            return Str('')
        if name == 'std::reference_wrapper' and args:
            return Ref(self.lv(args[0], fr))
        f = self.P.funcs.get(e.get('id'))
        if f is not None and e.get('own') and f.get('ctor'):
            return self.run_ctor(f, e, fr)
        if e.get('own') or t in self.P.class_by_q:
            vals = [self.eval(a, fr) for a in args]
            return Struct(t, {}, Opaque('%s(%s)' % (t, ','.join(pretty(v) for v in vals)), t))
        vals = [self.eval(a, fr) for a in args]
        if len(vals) == 1 and isinstance(vals[0], Clos):
            return vals[0]
        return Opaque('%s(%s)' % (t, ','.join(pretty(v) for v in vals)), t, tuple(vals))

    def run_ctor(self, f, e, fr):
        t = strip_type(e['t'])
        this = self.new_root(Struct(t, {}))
        fr2 = Frame(this=this, func=f)
        self.bind_params(f['params'], e['a'], fr, fr2)
        c = self.P.class_by_q.get(t) or {}
        ft = {x['n']: x['t'] for x in c.get('fields', [])}
        for i in f.get('inits', []):
            if 'n' in i:
                tt = ft.get(i['n'], '')
                ex = i.get('e')
                if ex is None:
                    continue
                if tt.rstrip().endswith('&'):
                    v = Ref(self.lv(ex, fr2))
                else:
                    v = self.eval(ex, fr2)
                    if isinstance(v, Arr) and not v.e and is_scalar_type(tt):
                        v = ZERO
                self.write((this[0], this[1] + (('f', i['n']),)), v)
            elif i.get('base') or i.get('deleg'):
                v = self.eval(i['e'], fr2) if i.get('e') else None
                if isinstance(v, Struct):
                    s = self.store[this[0]]
                    self.store[this[0]] = Struct(s.t, {**v.f, **s.f}, s.base or v.base)
        self.outer.append(self.outer[-1] * self.guard)
        g = self.guard
        self.guard = ONE
        self.exec(f['body'], fr2)
        self.finish(fr2)
        self.guard = g
        self.outer.pop()
        return self.store[this[0]]

    # -- calls --------------------------------------------------------------------------
    def e_call(self, e, fr):
        return self.deref(self.raw_call(e, fr), e['t'])

    e_mcall = e_call

    def e_opcall(self, e, fr):
        return self.deref(self.raw_call(e, fr), e['t'])

    def bind_params(self, params, args, fr, fr2):
        for p, a in zip(params, args):
            t = p['t'].rstrip()
            if isinstance(a, dict):
                if t.endswith('&'):
                    fr2.env[p['id']] = self.lv(a, fr)
                else:
                    fr2.env[p['id']] = self.new_root(self.eval(a, fr))
            else:
                fr2.env[p['id']] = a if isinstance(a, tuple) else self.new_root(a)

    def finish(self, fr2):
        """combine the returns of a frame; leaves the joined store"""
        rets = fr2.rets
        if self.store is not None:
            rets = rets + [(self.guard, None, self.store)]
        if not rets:
            self.store = None
            return None
        g, v, st = rets[-1]
        for g2, v2, st2 in reversed(rets[:-1]):
            st = self.merge(g2, st2, st)
            self.store = st
            v = self.sel(g2, v2, v) if v is not None and v2 is not None else (v2 if v is None else v)
        self.store = st
        return v

    def call_func(self, f, args, fr, this=None):
        if self.depth > self.max_depth:
            raise AnalysisError('inlining depth exceeded at %s' % f['q'])
        fr2 = Frame(this=this, func=f)
        self.bind_params(f['params'], args, fr, fr2)
        self.called.add(f['key'])
        self.depth += 1
        self.outer.append(self.outer[-1] * self.guard)
        g = self.guard
        self.guard = ONE
        self.exec(f['body'], fr2)
        v = self.finish(fr2)
        self.guard = g
        self.outer.pop()
        self.depth -= 1
        return v

    def call_clos(self, c, args, fr, node=None):
        n = c.node
        if n.get('generic'):
            inst = None
            for i in n['inst']:
                if node is not None and i['key'] == node.get('key'):
                    inst = i
            if inst is None:
                if len(n['inst']) >= 1:
                    cand = [i for i in n['inst'] if len(i['params']) == len(args)]
                    inst = cand[0] if cand else n['inst'][0]
                else:
                    raise AnalysisError('generic lambda without instantiation')
            params, body = inst['params'], inst['body']
        else:
            params, body = n['params'], n['body']
        fr2 = Frame(this=c.this, func={'file': fr.func.get('file', '') if fr.func else '', 'rt': '', 'q': 'lambda'})
        fr2.env = dict(c.env)
        self.bind_params(params, args, fr, fr2)
        self.depth += 1
        if self.depth > self.max_depth:
            raise AnalysisError('inlining depth')
        self.outer.append(self.outer[-1] * self.guard)
        g = self.guard
        self.guard = ONE
        self.exec(body, fr2)
        v = self.finish(fr2)
        self.guard = g
        self.outer.pop()
        self.depth -= 1
        return v

    def raw_call(self, e, fr):
        n = e.get('n', '')
        q = e.get('q', '')
        h = self.hooks.get(e.get('key')) or self.hooks.get(q) or self.hooks.get(n)
        if h is not None:
            r = h(self, e, fr)
            if r is not NotImplemented:
                return r
        import builtin_calls
        r = builtin_calls.dispatch(self, e, fr)
        if r is not NotImplemented:
            return r
        # own code
        f = self.P.funcs.get(e.get('id')) if e.get('own') else None
        if f is not None and f['q'] not in self.noinline and not (e.get('virt') and e['k'] == 'mcall' and f['key'] not in self.virtual and not self.concrete(e, fr)):
            if e['k'] == 'mcall' and not e.get('static'):
                this = self.follow(self.lv(e['b'], fr))
                return self.call_func(f, e['a'], fr, this)
            if e['k'] == 'opcall' and 'cls' in e and not e.get('static') and len(e['a']) == len(f['params']) + 1:
                this = self.follow(self.lv(e['a'][0], fr))
                return self.call_func(f, e['a'][1:], fr, this)
            return self.call_func(f, e['a'], fr)
        if e['k'] == 'opcall' and e.get('op') == '()':
            c = self.eval(e['a'][0], fr)
            if isinstance(c, Clos):
                return self.call_clos(c, e['a'][1:], fr, e)
        if e['k'] == 'call' and 'fn' in e:
            c = self.eval(e['fn'], fr)
            if isinstance(c, Clos):
                return self.call_clos(c, e['a'], fr, e)
            if isinstance(c, Func) and c.f in self.P.by_key:
                return self.call_func(self.P.by_key[c.f], e['a'], fr)
        return self.external(e, fr)

    def concrete(self, e, fr):
        """virtual member call on an object whose dynamic type is known"""
        b = e['b']
        return b['k'] == 'this' or (b['k'] == 'mem' and b.get('n') == '')

    def external(self, e, fr):
        n = e.get('n', e.get('op', '?'))
        args = []
        base = None
        lvb = None
        pm = e.get('pm', '')
        ea = e['a']
        if e['k'] == 'mcall':
            lvb = self.follow(self.lv(e['b'], fr))
            base = self.read(lvb, e['b'].get('t', ''))
        elif e['k'] == 'opcall' and 'cls' in e and not e.get('static'):
            lvb = self.follow(self.lv(ea[0], fr))
            base = self.read(lvb, ea[0].get('t', ''))
            ea = ea[1:]
        elif e['k'] == 'call' and 'fn' in e:
            base = self.eval(e['fn'], fr)
            n = 'call'
        lvs = []
        for i, a in enumerate(ea):
            mode = pm[i] if i < len(pm) else 'v'
            if mode in 'r':
                l = self.lv(a, fr)
                lvs.append(l)
                args.append(self.read(l, a.get('t', '')))
            else:
                v = self.eval(a, fr)
                if isinstance(v, Ref):
                    v = self.read(v.lv, a.get('t', ''))
                args.append(v)
        if self.store is None:
            return ZERO
        if isinstance(base, Ref):
            base = self.read(base.lv, '')
        bp = None
        if base is not None:
            bp = self.ver(base)
        pure = e.get('const') or (e['k'] == 'call' and 'fn' not in e)
        ret = self.ext_value(n, bp, args, e)
        if e.get('q') in ('std::terminate', 'abort', 'exit') or n in ('__builtin_trap', '__builtin_unreachable', 'abort'):
            self.log(n, bp, args, e, fr)
            self.store = None
            return ZERO
        self.log(n, bp, args, e, fr, ret)
        for l in lvs:
            old = self.read(l, '')
            self.write(l, self.havoc(old, n, bp, args))
        if lvb is not None and not e.get('const') and not is_scalar_type(e.get('cls', '')):
            self.bump(base)
        return ret

    def havoc(self, old, n, bp, args):
        key = tuple(self.argkey(a) for a in args)
        if isinstance(old, Value):
            return T.app('out.' + n, bp, *key)
        if isinstance(old, Arr):
            return Arr([self.havoc(x, '%s[%d]' % (n, i), bp, args) for i, x in enumerate(old.e)], old.t)
        if isinstance(old, Opaque):
            self.bump(old)
            return old
        return old

    def ver(self, base):
        if isinstance(base, Opaque):
            v = self.store.get(('ver', base.path))
            return base.path if not v else '%s@%s' % (base.path, pretty(v) if isinstance(v, Value) else v)
        if isinstance(base, Struct) and base.base is not None and not base.f:
            return self.ver(base.base)
        return pretty(base)

    def bump(self, base):
        if isinstance(base, Struct):
            base = base.base
        if isinstance(base, Opaque):
            k = ('ver', base.path)
            self.store[k] = (self.store.get(k) or ZERO) + 1

    def argkey(self, a):
        if isinstance(a, (Value,)):
            return a
        if isinstance(a, Arr):
            return tuple(self.argkey(x) for x in a.e)
        if isinstance(a, Opaque):
            return self.ver(a)
        if a is None:
            return 'void'
        return pretty(a)

    def ext_value(self, n, bp, args, e):
        t = e.get('t', '')
        key = [self.argkey(a) for a in args]
        ta = ''
        if e.get('ta'):
            num_ta = [x for x in e['ta'] if re.fullmatch(r'-?\d+|true|false', x)]
            if num_ta:
                ta = '<' + ','.join(num_ta) + '>'
        nm = n + ta
        full = '%s%s(%s)' % ('%s.' % bp if bp is not None else '', nm, ', '.join(pretty(a) for a in args))

        def mk(path, pos):
            suffix = path[len(full):] if path.startswith(full) else path
            return self.mk_app(nm + suffix, pos, *([bp] if bp is not None else []), *key)
        if strip_type(t) == 'void':
            return None
        return self.symbolic(t, full, mk)

    def e_throw(self, e, fr):
        if e.get('e') is not None:
            self.eval(e['e'], fr)
        self.log('throw', None, [Str(e['e'].get('t', '') if e.get('e') else '')], e, fr)
        self.store = None
        return ZERO

    def e_new(self, e, fr):
        return self.eval(e['e'], fr) if e.get('e') else Opaque('new')

    def e_delete(self, e, fr):
        return None

    def e_other(self, e, fr):
        r = None
        for a in e.get('a', []):
            r = self.eval(a, fr)
        return r if r is not None else Opaque(e.get('cls', 'other'))

    def e_uctor(self, e, fr):
        return Opaque('uctor')

    # -- driver ---------------------------------------------------------------------------
    def run(self, f, args, this=None):
        """evaluate function f on symbolic argument trees (or lvalues)"""
        fr = Frame(func=f)
        if this is not None and not isinstance(this, tuple):
            this = self.new_root(this)
        v = self.call_func(f, [a for a in args], fr, this)
        if isinstance(v, Ref):
            v = self.read(v.lv, f.get('rt', ''))
        return v

    def sym_args(self, f, names=None):
        r = []
        for i, p in enumerate(f['params']):
            nm = names[i] if names else p['n']
            r.append(self.symbolic(p['t'], nm))
        return r


def lkey_args(lkey):
    return tuple(lkey)
