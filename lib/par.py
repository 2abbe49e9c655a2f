"""Effects of the statements of a parallel region on storage shared between threads.

Walks every parallel region of the resolved program, following calls into the
repository's own functions and lambdas, and classifies each written location:
private to the thread, atomic, guarded by a single construct, or an entry of a
shared container addressed by the index of the work-shared loop.  Everything
else is a race.
"""
import re
import export
import tree
from interp import AnalysisError, strip_type, split_targs

QUICK = [':sparse_matrix_simd.cc', 'euler:hyperbolic_module.cc', 'euler_aeos:hyperbolic_module.cc', 'shallow_water:hyperbolic_module.cc',
         'scalar_conservation:hyperbolic_module.cc', 'navier_stokes:navier_stokes/parabolic_solver.cc', 'euler:postprocessor.cc',
         'shallow_water:postprocessor.cc']
TABLES = ('MultiComponentVector', 'SparseMatrixSIMD')
ASSIGN = {'=', '+=', '-=', '*=', '/=', '%=', '|=', '&=', '^=', '++', '--', '<<=', '>>='}


# definitions a parallel region reaches in other translation units
PARTNERS = {'euler': ['euler:euler/riemann_solver.cc', 'euler:euler/limiter.cc'],
            'navier_stokes': ['euler:euler/riemann_solver.cc', 'euler:euler/limiter.cc'],
            'euler_aeos': ['euler_aeos:euler_aeos/riemann_solver.cc', 'euler_aeos:euler_aeos/limiter.cc', 'euler_aeos:euler_aeos/equation_of_state_library.cc'],
            'shallow_water': ['shallow_water:shallow_water/riemann_solver.cc', 'shallow_water:shallow_water/limiter.cc'],
            'scalar_conservation': ['scalar_conservation:scalar_conservation/riemann_solver.cc', 'scalar_conservation:scalar_conservation/limiter.cc',
                                    'scalar_conservation:scalar_conservation/flux_library.cc']}


class World:
    """a translation unit together with the units it is linked with"""
    _over = {}

    def __init__(self, tu):
        self.units = [tu] + (PARTNERS.get(tu.split(':')[0], []) + [':simd.cc'] if 'hyperbolic_module' in tu else [])
        ps = export.programs(self.units)
        self.programs = [ps[u] for u in self.units]
        self.over = {}
        for P in self.programs:
            for f in P.funcs.values():
                for o in f.get('ovr', []) or []:
                    self.over.setdefault(norm(o), []).append((P, f))

    def find(self, P, key):
        f = P.by_key.get(key)
        if f is not None and f.get('body'):
            return P, f
        for Q in self.programs:
            g = Q.by_key.get(key)
            if g is not None and g.get('body'):
                return Q, g
        return P, f

    def overriders(self, key):
        out, todo = [], [norm(key)]
        while todo:
            for P, f in self.over.get(todo.pop(), []):
                if f not in [g for _, g in out]:
                    out.append((P, f))
                    todo.append(norm(f['key']))
        return out


def norm(key):
    return re.sub(r'\bconst (double|float|unsigned int|int|bool)\b(?=[,)])', r'\1', key)


def units(tier):
    if tier == 'quick':
        return QUICK
    return QUICK + ['%s:%s.cc' % (e, f) for e in export.EQS for f in ('hyperbolic_module', 'postprocessor', 'parabolic_module', 'quantities', 'time_loop')
                    if '%s:%s.cc' % (e, f) not in QUICK] + [':offline_data.cc', ':multicomponent_vector.cc']


def preload(tier):
    us = units(tier)
    export.programs(us + [p for e in sorted({u.split(':')[0] for u in us if 'hyperbolic_module' in u}) for p in PARTNERS.get(e, []) if p not in us])


class Region:
    def __init__(self, P, f, node):
        self.P, self.f, self.node = P, f, node
        self.found = []           # (kind, message, file, line)
        self.writes = self.calls = 0
        self.memo = set()
        self.tables = {}          # shared table written -> lines
        self.reads = []           # (table, line, own)


class Ctx:
    def __init__(self, func):
        self.private = set()
        self.rows = set()
        self.single = False
        self.ws = False
        self.lam = {}
        self.alias = {}           # reference id -> (root description, indexed)
        self.this = ('shared', 'this')
        self.func = func
        self.depth = 0
        self.P = None

    def copy(self):
        c = Ctx(self.func)
        c.P = self.P
        c.private, c.rows, c.lam, c.alias = set(self.private), set(self.rows), dict(self.lam), dict(self.alias)
        c.single, c.ws, c.this, c.depth = self.single, self.ws, self.this, self.depth
        return c


def refs(e):
    return [x for x in tree.walk(e) if x.get('k') == 'ref']


def is_ref(t):
    return t.rstrip().endswith('&')


def is_const(t):
    return t.strip().startswith('const ') or ' const' in t


class Walker:
    def __init__(self, R, W):
        self.R, self.W, self.P = R, W, W.programs[0]
        self.entered = set()

    def file(self, ctx):
        return ctx.func.get('file', '')

    def bad(self, what, e, ctx, detail):
        self.r.found.append((what, detail, self.file(ctx), e.get('l')))

    # -- roots -----------------------------------------------------------------------------------
    def root(self, e, ctx, idx=None):
        """('private'|'shared'|'tls', name, indexes)"""
        idx = [] if idx is None else idx
        k = e.get('k')
        if k == 'this':
            return ctx.this[0], ctx.this[1], idx
        if k == 'ref':
            i = e.get('id')
            if i in ctx.alias:
                s, n, ix = ctx.alias[i]
                return s, n, idx + ix
            if i in ctx.private:
                return 'private', e.get('n'), idx
            if e.get('tls'):
                return 'tls', e.get('n'), idx
            return 'shared', e.get('n'), idx
        if k == 'mem':
            s, n, ix = self.root(e['b'], ctx, idx)
            return s, '%s.%s' % (n, e.get('n')), ix
        if k == 'idx':
            b = self.root(e['a'][0], ctx, idx)
            return b[0], b[1], b[2] + [e['a'][1]]
        if k == 'opcall':
            if e['op'] in ('[]', '()'):
                b = self.root(e['a'][0], ctx, idx)
                return b[0], b[1], b[2] + list(e['a'][1:])
            if e['op'] in ('*', '->'):
                return self.root(e['a'][0], ctx, idx)
            if e['op'] in ASSIGN:
                return self.root(e['a'][0], ctx, idx)
            return 'private', '?', idx
        if k == 'mcall':
            t = e.get('t', '')
            if is_ref(t) or t.rstrip().endswith('*') or e.get('lv') or e['n'] in ('begin', 'end', 'data', 'local_element', 'block', 'get', 'at', 'front', 'back'):
                b = self.root(e['b'], ctx, idx)
                return b[0], '%s.%s()' % (b[1], e['n']), b[2] + list(e['a'])
            if 'Arrow' in e or e['n'] in ('operator->', 'operator*'):
                return self.root(e['b'], ctx, idx)
            return 'private', '?', idx
        if k == 'call' and e.get('n') == 'get' and e.get('a'):
            b = self.root(e['a'][0], ctx, idx)
            return b[0], '%s<%s>' % (b[1], ','.join(e.get('ta', [])[:1])), b[2]
        if k in ('cast', 'copy', 'paren'):
            return self.root(e['e'], ctx, idx) if e.get('e') else ('private', '?', idx)
        if k == 'un' and e['op'] in ('*', '++', '--', '&'):
            return self.root(e['e'], ctx, idx)
        if k == 'cond':
            a, b = self.root(e['a'][1], ctx, idx), self.root(e['a'][2], ctx, idx)
            return a if a[0] == 'shared' else b
        if k == 'asg':
            return self.root(e['a'][0], ctx, idx)
        if k == 'bin' and e.get('op') in ('+', '-') and e.get('t', '').rstrip().endswith('*'):
            a = self.root(e['a'][0], ctx, idx)
            return a[0], a[1], a[2] + [e['a'][1]]
        if k in ('call', 'opcall') and is_ref(e.get('t', '')):
            for a in e.get('a', []):
                b = self.root(a, ctx, idx)
                if b[0] == 'shared':
                    return b
        return 'private', '?', idx

    def rowlike(self, e, ctx):
        """mentions the index of the work-shared loop, not through a pointer"""
        k = e.get('k')
        if k == 'ref':
            return e.get('id') in ctx.rows
        if k == 'un' and e.get('op') == '*':
            return False
        if k == 'idx':
            return False
        return any(self.rowlike(c, ctx) for c in tree.children(e))

    def write(self, e, lhs, ctx, how):
        self.r.writes += 1
        s, n, idx = self.root(lhs, ctx)
        if s != 'shared' or ctx.single:
            return
        t = lhs.get('t', '')
        if 'atomic' in t:
            return
        if any(self.rowlike(i, ctx) for i in idx):
            self.r.tables.setdefault(n, e.get('l'))
            return
        self.bad('write', e, ctx, '%s of shared %s' % (how, n))

    # -- statements and expressions -----------------------------------------------------------------
    def declare(self, v, ctx):
        t = v.get('t', '')
        init = v.get('init')
        if init:
            self.expr(init, ctx)
        ids = [v['id']] + [b['id'] for b in v.get('bind', [])]
        if init is not None and self.lambda_of(init, ctx) is not None:
            ctx.lam[v['id']] = self.lambda_of(init, ctx)
            ctx.private.update(ids)
            return
        if v.get('tls'):
            ctx.private.update(ids)
            return
        if v.get('static'):
            # initialisation is thread-safe; the object itself is shared
            for i in ids:
                ctx.private.discard(i)
            if init and self.lambda_of(init, ctx):
                ctx.lam[v['id']] = self.lambda_of(init, ctx)
            return
        if init is not None and self.lambda_of(init, ctx) is not None:
            ctx.lam[v['id']] = self.lambda_of(init, ctx)
            ctx.private.update(ids)
            return
        ref = is_ref(t)
        ptr = t.rstrip().endswith('*') and not re.search(r'const [\w: ]+\*$', t.strip())
        if init is not None and (ref or ptr):
            s, n, idx = self.root(init, ctx)
            if s == 'shared':
                for i in ids:
                    ctx.alias[i] = (s, n, idx)
                    ctx.private.discard(i)
                if self.rowlike(init, ctx) and v.get('bind'):
                    ctx.rows.update(ids)
                return
        ctx.private.update(ids)
        if init is not None and self.rowlike(init, ctx) and (re.search(r'\b(int|long|size_t)\b', t)) and not t.rstrip().endswith('*'):
            ctx.rows.update(ids)

    def lambda_of(self, e, ctx):
        while e is not None and e.get('k') in ('cast', 'copy', 'ctor', 'paren'):
            if e['k'] == 'ctor':
                if len(e.get('a', [])) != 1:
                    return None
                e = e['a'][0]
            else:
                e = e.get('e')
        if e is None:
            return None
        if e.get('k') == 'lambda':
            return e
        if e.get('k') == 'ref':
            return ctx.lam.get(e.get('id'))
        return None

    def stmt(self, s, ctx):
        if not s:
            return
        k = s.get('k')
        if k == 'block':
            for x in s['s']:
                self.stmt(x, ctx)
        elif k == 'decl':
            for v in s['v']:
                self.declare(v, ctx)
        elif k == 'omp':
            d = s['d'].split()
            c = ctx.copy()
            if 'for' in d:
                c.ws = True
                b = s.get('b') or {}
                if b.get('k') != 'for':
                    self.bad('form', s, ctx, 'work-shared loop without counter')
                init = b.get('init') or {}
                for v in init.get('v', []):
                    c.rows.add(v['id'])
                    c.private.add(v['id'])
                self.stmt(b, c)
                self.r.loops = getattr(self.r, 'loops', 0) + 1
            else:
                if set(d) & {'single', 'critical', 'master'}:
                    c.single = True
                self.stmt(s.get('b'), c)
        elif k == 'if':
            if s.get('init'):
                self.stmt(s['init'], ctx)
            if s.get('var'):
                self.declare(s['var'], ctx)
            if s.get('c'):
                self.expr(s['c'], ctx)
            self.stmt(s.get('th'), ctx)
            self.stmt(s.get('el'), ctx)
        elif k == 'for':
            self.stmt(s.get('init'), ctx)
            for n in ('c', 'inc'):
                if s.get(n):
                    self.expr(s[n], ctx, loop=True)
            self.stmt(s.get('b'), ctx)
        elif k == 'rfor':
            self.expr(s['range'], ctx)
            v = dict(s['var'])
            t = v.get('t', '')
            ids = [v['id']] + [b['id'] for b in v.get('bind', [])]
            r = self.root(s['range'], ctx)
            if is_ref(t) and r[0] == 'shared':
                for i in ids:
                    ctx.alias[i] = r
            else:
                ctx.private.update(ids)
            self.stmt(s['b'], ctx)
        elif k in ('while', 'do'):
            self.expr(s['c'], ctx)
            self.stmt(s['b'], ctx)
        elif k in ('ret',):
            if s.get('e'):
                self.expr(s['e'], ctx)
        elif k in ('break', 'cont', 'null'):
            pass
        elif k in ('switch', 'case', 'default', 'label', 'try'):
            for c in tree.children(s):
                self.stmt(c, ctx)
        elif 't' in s or k in EXPR:
            self.expr(s, ctx)
        else:
            for c in tree.children(s):
                self.stmt(c, ctx)

    def expr(self, e, ctx, loop=False):
        k = e.get('k')
        if k == 'lambda':
            return
        if k == 'asg':
            self.expr(e['a'][1], ctx)
            self.sub(e['a'][0], ctx)
            self.write(e, e['a'][0], ctx, 'assignment')
            return
        if k == 'un' and e['op'] in ('++', '--'):
            self.write(e, e['e'], ctx, 'increment')
            self.sub(e['e'], ctx)
            return
        if k in ('call', 'mcall', 'opcall', 'ctor'):
            self.call(e, ctx)
            return
        for c in tree.children(e):
            self.expr(c, ctx) if c.get('k') not in ('block', 'decl') else self.stmt(c, ctx)

    def sub(self, e, ctx):
        """evaluates the indexes of an lvalue"""
        for c in tree.children(e):
            self.expr(c, ctx)

    def call(self, e, ctx):
        k = e['k']
        a = e.get('a', [])
        self.r.calls += 1
        for x in a:
            self.expr(x, ctx)
        if e.get('b'):
            self.expr(e['b'], ctx)
        n = e.get('n', '')
        cls = split_targs(e.get('cls', ''))[0]
        # tables
        if k == 'mcall' and cls.split('::')[-1] in TABLES and n.startswith('write_') and len(a) >= 2:
            self.table(e, e['b'], a[1], ctx)
            return
        if k == 'call' and n == 'write_entry' and len(a) >= 3:
            self.table(e, a[0], a[2], ctx)
            return
        if k == 'mcall' and (cls.split('::')[-1] in TABLES and n.startswith('get_') or n == 'local_element') and a:
            s, nm, idx = self.root(e['b'], ctx)
            if s == 'shared':
                self.r.reads.append((nm, e.get('l'), self.rowlike(a[0], ctx) and 'transposed' not in n, self.file(ctx), ctx.func))
            if cls.split('::')[-1] in TABLES:
                return
        if k == 'call' and n == 'get_entry' and len(a) == 2:
            s, nm, idx = self.root(a[0], ctx)
            if s == 'shared':
                self.r.reads.append((nm, e.get('l'), self.rowlike(a[1], ctx), self.file(ctx), ctx.func))
            return
        # lambdas and function objects
        if k == 'opcall' and e['op'] == '()':
            lam = self.lambda_of(a[0], ctx)
            if lam is not None:
                self.enter_lambda(e, lam, a[1:], ctx)
                return
        lams = [self.lambda_of(x, ctx) for x in a]
        if self.W.find(ctx.P, e.get('key'))[1] is None and any(l is not None for l in lams):
            for l in lams:
                if l is not None:
                    self.enter_lambda(e, l, [], ctx, 'unknown')
        P, f = self.W.find(ctx.P, e.get('key')) if e.get('key') else (None, None)
        over = self.W.overriders(e['key']) if e.get('virt') and e.get('key') else []
        for Q, g in over:
            if g.get('body'):
                self.enter(e, g, ctx, Q)
        if f is None or not f.get('body'):
            if not over:
                self.missing(e)
                self.external(e, ctx)
            return
        self.enter(e, f, ctx, P)

    def missing(self, e):
        if (e.get('q') or '').startswith('ryujin::') and not e.get('virt'):
            self.nobody.add(e.get('q') or e.get('n'))

    def table(self, e, base, row, ctx):
        self.r.writes += 1
        s, n, idx = self.root(base, ctx)
        if s != 'shared' or ctx.single:
            return
        if not ctx.ws:
            self.bad('table', e, ctx, 'write to %s outside of a work-shared loop' % n)
        elif not self.rowlike(row, ctx):
            self.bad('table', e, ctx, 'write to a row of %s that is not the row of the work-shared loop' % n)
        self.r.tables.setdefault(n, e.get('l'))

    def external(self, e, ctx):
        k, a, pm = e['k'], e.get('a', []), e.get('pm', '')
        n = e.get('n', '')
        if ctx.single:
            return
        cls = e.get('cls', '')
        if k == 'opcall':
            op = e['op']
            if op in ASSIGN and a:
                self.write(e, a[0], ctx, 'assignment')
                return
            if op in ('[]', '->', '*', '()'):
                if op == '()' and not e.get('const') and e.get('cls') and self.root(a[0], ctx)[0] == 'shared' and 'lambda' not in a[0].get('t', '') and 'function<' not in a[0].get('t', ''):
                    s, nm, idx = self.root(a[0], ctx)
                    if not self.const_object(a[0]) and not is_ref(e.get('t', '')):
                        self.bad('state', e, ctx, 'call of a function object that changes its shared state: %s' % nm)
                # arguments passed by reference
        if k == 'mcall' and not e.get('const') and not e.get('static'):
            s, nm, idx = self.root(e['b'], ctx)
            if s == 'shared' and 'atomic' not in cls and n not in ACCESS and not self.const_object(e['b']):
                if not any(self.rowlike(i, ctx) for i in idx + list(a)):
                    self.bad('mutation', e, ctx, 'call of the non-const member %s of shared %s' % (n, nm))
                else:
                    self.r.tables.setdefault(nm, e.get('l'))
        off = 1 if k == 'opcall' and len(pm) == len(a) - 1 else 0
        for x, m in zip(a[off:], pm):
            if m == 'r' and n not in PURE:
                s, nm, idx = self.root(x, ctx)
                if s == 'shared' and 'atomic' not in x.get('t', '') and not self.const_object(x):
                    if any(self.rowlike(i, ctx) for i in idx):
                        self.r.tables.setdefault(nm, e.get('l'))
                    elif not (n in STREAM):
                        self.bad('argument', e, ctx, 'shared %s is passed to %s by non-const reference' % (nm, n))

    def const_object(self, e):
        return e.get('t', '').strip().startswith('const ')

    def enter_lambda(self, e, lam, args, ctx, unknown=None):
        body, params = lam.get('body'), lam.get('params')
        if lam.get('generic'):
            inst = [i for i in lam['inst'] if i['key'] == e.get('key')] or (lam['inst'] if unknown else [])
            for i in inst:
                self.enter_body(e, i['body'], i['params'], args, ctx, ctx.func, ('lam', i['key']))
            return
        self.enter_body(e, body, params, args, ctx, ctx.func, ('lam', lam.get('key')))

    def enter(self, e, f, ctx, P):
        self.entered.add(f['key'])
        c = ctx.copy() if P is ctx.P else Ctx(f)
        c.func, c.P = f, P
        c.single, c.ws, c.depth = ctx.single, ctx.ws, ctx.depth
        if e['k'] == 'mcall':
            s, n, idx = self.root(e['b'], ctx)
            c.this = (s, n)
            if any(self.rowlike(i, ctx) for i in idx):
                c.this = ('private', n)
            args = e['a']
        elif e['k'] == 'opcall' and e.get('cls'):
            s, n, idx = self.root(e['a'][0], ctx)
            c.this = (s, n)
            args = e['a'][1:]
        elif e['k'] == 'ctor':
            c.this = ('private', 'new')
            args = e['a']
        else:
            args = e['a']
            c.this = ('private', '')
        self.enter_body(e, f['body'], f['params'], args, c, f, (id(P), f['key']), ctx)
        for i in f.get('inits', []) or []:
            x = i.get('e')
            if isinstance(x, dict):
                self.expr(x, c)

    def enter_body(self, e, body, params, args, ctx, func, key, caller=None):
        caller = caller or ctx
        c = ctx.copy()
        c.func = func
        c.depth = caller.depth + 1
        if c.depth > 40:
            return
        sig = []
        for p, x in zip(params or [], list(args) + [None] * len(params or [])):
            i = p['id']
            c.private.discard(i)
            c.alias.pop(i, None)
            c.rows.discard(i)
            c.lam.pop(i, None)
            if x is None:
                c.private.add(i)
                sig.append('p')
                continue
            lam = self.lambda_of(x, caller)
            if lam is not None:
                c.lam[i] = lam
                c.private.add(i)
                sig.append('l%s' % lam.get('key'))
                continue
            t = p.get('t', '')
            rl = self.rowlike(x, caller)
            if is_ref(t) and not (t.strip().startswith('const ') and False):
                s, n, idx = self.root(x, caller)
                if s == 'shared':
                    c.alias[i] = (s, n, idx)
                    sig.append('s' + n + ('i' if any(self.rowlike(z, caller) for z in idx) else ''))
                    if rl:
                        c.rows.add(i)
                    continue
            if t.rstrip().endswith('*') and not re.match(r'const ', t.strip()):
                s, n, idx = self.root(x, caller)
                if s == 'shared':
                    c.alias[i] = (s, n, idx)
                    sig.append('s' + n)
                    continue
            c.private.add(i)
            if rl and not t.rstrip().endswith('*'):
                c.rows.add(i)
                sig.append('r')
            else:
                sig.append('p')
        mk = (key, tuple(sig), c.this, c.single, c.ws)
        if mk in self.r.memo:
            return
        self.r.memo.add(mk)
        self.stmt(body, c)

    def region(self, f, node):
        self.r = Region(self.P, f, node)
        self.nobody = set()
        ctx = Ctx(f)
        ctx.P = self.P
        ctx.lam = self.outer_lambdas(f, node)
        self.stmt(node.get('b'), ctx)
        return self.r

    def outer_lambdas(self, f, node):
        ctx = Ctx(f)
        for x in tree.walk(f['body']):
            if x.get('k') == 'decl':
                for v in x['v']:
                    if v.get('init'):
                        l = self.lambda_of(v['init'], ctx)
                        if l is not None:
                            ctx.lam[v['id']] = l
        return ctx.lam


EXPR = {'ref', 'mem', 'call', 'mcall', 'opcall', 'ctor', 'asg', 'un', 'bin', 'cond', 'idx', 'cast', 'copy', 'int', 'flt', 'bool', 'str', 'this', 'lambda', 'throw', 'new', 'delete', 'zero', 'init', 'other'}
ACCESS = {'begin', 'end', 'data', 'local_element', 'block', 'get', 'at', 'front', 'back', 'operator->', 'operator*', 'operator[]', 'find'}
PURE = {'get', 'move', 'forward', 'begin', 'end', 'make_array_view', 'tie', 'ref', 'addressof'}
STREAM = {'operator<<'}


def regions(P):
    for f in P.funcs.values():
        if not f.get('body'):
            continue
        for x in tree.walk(f['body']):
            if x.get('k') == 'omp' and 'parallel' in x['d'].split():
                yield f, x


def check(R, tier):
    n = 0
    for tu in units(tier):
        W = World(tu)
        entered, nobody = set(), set()
        for f, x in regions(W.programs[0]):
            w = Walker(R, W)
            r = w.region(f, x)
            n += 1
            R.count('parallel regions')
            R.count('shared effects', r.writes)
            R.count('calls followed', r.calls)
            entered |= w.entered
            nobody |= w.nobody
            short = f['q'].split('::')[-1]
            key = '%s:%s:%s' % (tu, re.sub(r'<.*?>', '', f['q'])[-60:], ','.join(f.get('ta', []) or [])[:40])
            R.ok(key + ':%s' % x.get('l'), not r.found, f, 'whatever a parallel region writes is private to a thread, atomic, in a single construct, or an entry of the own row',
                 lambda: '; '.join('%s:%s %s' % (p.split('/')[-1], l, d) for k, d, p, l in r.found[:5]))
            if 'HyperbolicModule' in f['q']:
                continue
            for nm, line, own, file, fn in r.reads:
                if nm in r.tables and not own:
                    R.ok(key + ':%s:read:%s' % (x.get('l'), nm), False, f, 'a table written in a parallel region is read there only at the own row', '%s, line %s' % (nm, line))
        R.count('functions entered', len(entered))
        if 'hyperbolic_module' in tu and 'skeleton' not in tu:
            for nm in ('RiemannSolver', 'Limiter'):
                if not any(re.search(nm + '<.*::(compute|limit)\\(', k) for k in entered):
                    raise AnalysisError('%s: the parallel regions do not reach the %s' % (tu, nm))
        if nobody:
            raise AnalysisError('%s: no definition of %s' % (tu, ', '.join(sorted(nobody)[:5])))
    R.floor('parallel regions', 15)
    R.floor('calls followed', 500)
