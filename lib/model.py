"""Configured objects of the code under analysis.

Objects are built by evaluating their own constructors; every declared run-time
parameter then becomes a symbol named after its *user-visible* name, and the
call-backs connected to the end of parameter parsing are evaluated, so that
derived members hold what they hold in a running program.
"""
import re
import terms as T
from terms import Value, ZERO, ONE, HALF
from interp import (Interp, AnalysisError, Arr, Struct, Opaque, Str, Clos, Ref, Func, Frame, strip_type, split_targs,
                    is_scalar_type, pretty, tkey)


class Param:
    def __init__(self, name, lv, t, line, file, func):
        self.name, self.lv, self.t, self.line, self.file, self.func = name, lv, t, line, file, func


class Bound:
    """std::bind(&X::f, this, ...)"""
    def __init__(self, f, this):
        self.f, self.this = f, this

    def key(self):
        return ('bound', self.f)


class Model:
    def __init__(self, prog, positive=None):
        self.P = prog
        self.I = Interp(prog, positive)
        I = self.I
        I.hooks['add_parameter'] = self.h_add_parameter
        I.hooks['connect'] = self.h_connect
        I.hooks['enter_subsection'] = lambda I, e, fr: None
        I.hooks['leave_subsection'] = lambda I, e, fr: None
        I.hooks['get_tensor'] = self.h_get_tensor
        I.hooks['write_tensor'] = self.h_write_tensor
        I.hooks['std::bind'] = self.h_bind
        I.hooks['bind'] = self.h_bind
        self.params = []
        self.callbacks = []
        self.tensors = {}
        self.writes = []
        self.reads = []
        self.provider = None      # (path, key, type) -> tree or None

    # -- hooks ---------------------------------------------------------------------------
    def h_bind(self, I, e, fr):
        a = e['a']
        f = I.eval(a[0], fr)
        if isinstance(f, Ref):
            f = I.read(f.lv, '')
        if not isinstance(f, Func) or len(a) < 2:
            return NotImplemented
        t = I.eval(a[1], fr)
        return Opaque('bound', '', (f, t))

    def h_add_parameter(self, I, e, fr):
        a = e['a']
        name = I.eval(a[0], fr)
        if isinstance(name, Ref):
            name = I.read(name.lv, '')
        lv = I.follow(I.lv(a[1], fr))
        nm = name.s if isinstance(name, Str) else pretty(name)
        self.params.append(Param(nm, lv, strip_type(a[1].get('t', '')), e.get('l'),
                                 fr.func.get('file', '') if fr.func else '', fr.func))
        return None

    def h_connect(self, I, e, fr):
        if e['k'] != 'mcall' or 'call_back' not in str(e['b'].get('n', '')):
            return NotImplemented
        c = I.eval(e['a'][0], fr)
        if isinstance(c, Ref):
            c = I.read(c.lv, '')
        self.callbacks.append((e['b'].get('n'), c, e.get('l')))
        return None

    def index_key(self, I, a, fr):
        v = I.eval(a, fr)
        t = a.get('t', '').rstrip()
        if t.endswith('*') or t.endswith('* const'):
            if isinstance(v, Ref):
                v = I.read(v.lv, 'unsigned int')
                return 'at(%s)' % pretty(v)
            return 'at(*%s)' % pretty(v)
        if isinstance(v, Value) and len(v.t) == 1 and len(v.atoms()) == 1:
            a = next(iter(v.atoms()))
            if a.name == 'deref' and v == T.atom_value(a):
                return 'at(*%s)' % pretty(a.args[0])
        return 'at(%s)' % pretty(v)

    def base_path(self, I, e, fr):
        lv = I.follow(I.lv(e['b'], fr))
        b = I.read(lv, e['b'].get('t', ''))
        return b.path if isinstance(b, Opaque) else (b.base.path if isinstance(b, Struct) and b.base else pretty(b))

    def h_get_tensor(self, I, e, fr):
        if e['k'] != 'mcall' or len(e['a']) != 1:
            return NotImplemented
        p = self.base_path(I, e, fr)
        k = self.index_key(I, e['a'][0], fr)
        t = strip_type(e['t'])
        r = self.provider(p, k, t) if self.provider else None
        if r is not None:
            pass
        elif (p, k) in self.tensors:
            r = self.tensors[(p, k)]
        else:
            r = I.symbolic(t, '%s.%s' % (p, k))
        if not I.muted:
            self.reads.append((p, k, e.get('l')))
        return r

    def h_write_tensor(self, I, e, fr):
        if e['k'] != 'mcall' or len(e['a']) != 2:
            return NotImplemented
        p = self.base_path(I, e, fr)
        v = I.eval(e['a'][0], fr)
        if isinstance(v, Ref):
            v = I.read(v.lv, '')
        k = self.index_key(I, e['a'][1], fr)
        if not I.muted:
            I.log('write_tensor', p, [v], e, fr)
            ef = I.effects[-1]
            self.writes.append((p, k, v, ef.guard, ef.loops, e.get('l')))
        return None

    # -- construction --------------------------------------------------------------------
    def ctor(self, q, nargs=None, pred=None):
        n = split_targs(q)[0].split('::')[-1]
        fs = [f for f in self.P.funcs.values()
              if f.get('ctor') and f.get('cls') == q and (nargs is None or len(f['params']) >= nargs) and
              (pred is None or pred(f)) and not (len(f['params']) == 1 and strip_type(f['params'][0]['t']) == q)]
        if len(fs) != 1:
            raise AnalysisError('constructor of %s: %d found' % (q, len(fs)))
        return fs[0]

    def construct(self, q, args):
        """evaluate the constructor of class q; returns the lvalue of the object"""
        I = self.I
        f = self.ctor(q, len(args))
        this = I.new_root(Struct(q, {}, Opaque(q)))
        self.construct_into(f, q, args, this)
        return this

    def construct_into(self, f, q, args, this):
        I = self.I
        fr = Frame(this=this, func=f)
        trees = list(args)
        for p in f['params'][len(trees):]:
            trees.append(I.symbolic(p['t'], 'arg.' + p['n']))
        I.bind_params(f['params'], trees, fr, fr)
        c = self.P.class_by_q.get(q) or {}
        ft = {x['n']: x['t'] for x in c.get('fields', [])}
        for i in f.get('inits', []):
            ex = i.get('e')
            if 'n' in i:
                if ex is None:
                    continue
                tt = ft.get(i['n'], '')
                if tt.rstrip().endswith('&'):
                    v = Ref(I.lv(ex, fr))
                else:
                    v = I.eval(ex, fr)
                    if isinstance(v, Arr) and not v.e and is_scalar_type(tt):
                        v = ZERO
                I.write((this[0], this[1] + (('f', i['n']),)), v)
            elif ex is not None and ex.get('k') in ('ctor', 'init'):
                g = self.P.funcs.get(ex.get('id'))
                if g is not None and g.get('ctor') and ex.get('own'):
                    self.construct_into_expr(g, g['cls'], ex, fr, this)
        I.exec(f['body'], fr)
        I.finish(fr)

    def construct_into_expr(self, g, q, ex, fr, this):
        I = self.I
        trees = []
        for p, a in zip(g['params'], ex['a']):
            trees.append(I.lv(a, fr) if p['t'].rstrip().endswith('&') else I.new_root(I.eval(a, fr)))
        self.construct_into(g, q, trees, this)

    def configure(self, q, args=None, params=None):
        """construct, let every declared parameter be arbitrary, run the call-backs"""
        I = self.I
        n0, c0 = len(self.params), len(self.callbacks)
        if args is None:
            args = []
        this = self.construct(q, args)
        params = params or {}
        self.used = set()
        for p in self.params[n0:]:
            if p.name in params:
                v = params[p.name]
                self.used.add(p.name)
            else:
                v = I.symbolic(p.t, 'param.' + p.name)
            I.write(p.lv, v)
        missing = set(params) - self.used
        if missing:
            raise AnalysisError('parameters %s of %s are not declared' % (sorted(missing), q))
        for n, c, l in self.callbacks[c0:]:
            self.call(c)
        return this

    def call(self, c, args=()):
        I = self.I
        fr = Frame(func={'file': '', 'rt': '', 'q': 'callback'})
        if isinstance(c, Clos):
            return I.call_clos(c, [I.new_root(a) if not isinstance(a, tuple) else a for a in args], fr)
        if isinstance(c, Opaque) and c.path == 'bound':
            f, t = c.args[0], c.args[1]
            g = self.P.by_key.get(f.f)
            if g is None:
                raise AnalysisError('cannot resolve a bound call-back')
            this = t.lv if isinstance(t, Ref) else I.new_root(t)
            return I.call_func(g, [], fr, this)
        raise AnalysisError('call-back %s' % pretty(c))

    # -- evaluation ----------------------------------------------------------------------
    def run(self, q, args, this=None, keep=False, pred=None):
        """evaluate a function on trees / lvalues; state changes are dropped unless keep"""
        I = self.I
        f = self.P.one(q, pred) if isinstance(q, str) else q
        st = dict(I.store)
        g = I.guard
        trees = []
        for a in args:
            trees.append(a if isinstance(a, tuple) else I.new_root(a))
        fr = Frame(func=f)
        if this is not None and not isinstance(this, tuple):
            this = I.new_root(this)
        v = I.call_func(f, trees, fr, this)
        if isinstance(v, Ref):
            v = I.read(v.lv, f.get('rt', ''))
        v = self.detach(v)
        if I.store is None:
            I.store = st
            v = v if v is not None else None
        if not keep:
            n = I.nroot
            I.store = st
        I.guard = g
        return v

    def detach(self, v):
        """replace references by what they hold"""
        I = self.I
        if isinstance(v, Ref):
            return self.detach(I.read(v.lv, ''))
        if isinstance(v, Arr):
            return Arr([self.detach(x) for x in v.e], v.t)
        return v

    def field(self, this, *names):
        lv = this
        for n in names:
            lv = (lv[0], lv[1] + (('f', n),))
        lv = self.I.follow(lv)
        return self.I.read(lv, '')


# -- comparison --------------------------------------------------------------------------
def flat(x):
    if isinstance(x, Arr):
        r = []
        for y in x.e:
            r += flat(y)
        return r
    return [x]


def same(a, b):
    fa, fb = flat(a), flat(b)
    if len(fa) != len(fb):
        return False
    for x, y in zip(fa, fb):
        if isinstance(x, Value) and isinstance(y, Value):
            if x != y:
                return False
        elif tkey(x) != tkey(y):
            return False
    return True


def first_difference(a, b):
    fa, fb = flat(a), flat(b)
    if len(fa) != len(fb):
        return 'shapes differ: %d / %d' % (len(fa), len(fb))
    for k, (x, y) in enumerate(zip(fa, fb)):
        if not same(x, y):
            return 'component %d: derived %s, required %s' % (k, pretty(x)[:300], pretty(y)[:300])
    return ''


def vec(*v):
    return Arr([T.const(x) if not isinstance(x, (Value, Arr, Opaque, Str)) else x for x in v], 'dealii::Tensor')


def S(name, pos=False):
    return T.sym(name, pos)
