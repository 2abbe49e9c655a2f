"""Order of operations: functions of other components and of the libraries become events."""
import re
import terms as T
from terms import Value, ZERO, ONE
from interp import AnalysisError, Arr, Struct, Opaque, Str, Ref, Clos, strip_type, split_targs, is_scalar_type, pretty
from memory import Memory, show

UNROLL = 64
NORETURN = ('issue_error_noreturn',)
NOTHING = ('PetscMPIParallelComm', 'issue_error_nothrow', 'MPI_Barrier')


class Locals:
    """types of local objects told apart by their names"""

    def __init__(self, *prefixes):
        self.prefixes = prefixes

    def __contains__(self, t):
        return t.startswith(self.prefixes)


def path(v):
    while isinstance(v, Struct) and v.base is not None:
        v = v.base
    if isinstance(v, Str):
        return '"%s"' % v.s
    if isinstance(v, str):
        return v
    return v.path if isinstance(v, Opaque) else None


def plain(p):
    """a path without the versions of its parts"""
    return re.sub(r'@\d+', '', p) if p is not None else None


def pieces(v):
    """the parts of a concatenated string, adjacent literals merged"""
    p = plain(path(v))
    if p is None:
        return None
    m = re.match(r'std::(?:filesystem::(?:__cxx11::)?path|basic_string[^(]*)\((.*?)(?:,\d+)?\)$', p)
    if m:
        p = m.group(1)
    r = []
    for x in terms_of(strip_parens(p)):
        x = x.strip()
        if x.startswith('"') and x.endswith('"') and len(x) > 1:
            x = x[1:-1]
            if x and r and r[-1][0] == 'l':
                r[-1] = ('l', r[-1][1] + x)
            elif x:
                r.append(('l', x))
        elif x:
            r.append(('s', x))
    return r


def terms_of(p):
    """the operands of a sum"""
    out, depth, q, cur = [], 0, False, ''
    for c in p:
        if c == '"':
            q = not q
        if not q:
            depth += (c in '([{') - (c in ')]}')
            if c == '+' and depth == 0:
                out.append(cur)
                cur = ''
                continue
        cur += c
    return out + [cur]


def strip_parens(p):
    """without the parentheses of concatenations"""
    out, stack, q = [], [], False
    for i, c in enumerate(p):
        if c == '"':
            q = not q
        if not q and c == '(':
            call = i > 0 and (p[i - 1].isalnum() or p[i - 1] in '_>')
            stack.append(call)
            if not call:
                continue
        elif not q and c == ')' and stack:
            if not stack.pop():
                continue
        out.append(c)
    return ''.join(out)


def name(base, lit=''):
    return [('s', base)] + ([('l', lit)] if lit else [])


class Trace(Memory):
    def __init__(self, P, opaque=(), local=()):
        super().__init__(P)
        I = self.I
        self.associative = True
        self.tagged = Locals('dealii::LinearAlgebra::distributed::Vector', 'std::tuple<ryujin::Vectors', 'boost::archive', 'std::map', 'dealii::DataOut', *local)
        self.closures = {}
        self.results = 0
        h = I.hooks
        h['ryujin::Scope::Scope'] = lambda I, e, fr: Opaque('scope', 'ryujin::Scope')
        for n in NORETURN:
            h[n] = self.stop
        for n in NOTHING:
            h[n] = lambda I, e, fr: ZERO
        for n in ('start', 'stop', 'wall_time'):
            h[n] = self.timer
        h['MPI_Bcast'] = self.bcast
        h['broadcast'] = self.broadcast
        h['transform'] = self.transform
        h['operator<<'] = h['operator>>'] = self.stream
        h['operator+='] = self.concat
        for n in opaque:
            h[n] = self.opaque

    # -- library -------------------------------------------------------------------------
    def stop(self, I, e, fr):
        I.store = None
        return ZERO

    def timer(self, I, e, fr):
        if 'dealii::Timer' not in e.get('cls', ''):
            return NotImplemented
        return T.app('wall', e.get('l')) if e['n'] == 'wall_time' else None

    def target(self, e, fr):
        """the location behind an argument that is a pointer or a reference"""
        I = self.I
        v = I.eval(e, fr)
        lv = v.lv if isinstance(v, Ref) else I.lv(e, fr)
        while True:
            w = I.read(lv, '')
            if not isinstance(w, Ref):
                return lv
            lv = w.lv

    def atroot(self, v, root):
        """the value the process root has"""
        for a in list(v.atoms()):
            if a.kind == 'bool' and a.name == 'eq0' and any('mpi_rank' in str(x) for x in a.args):
                d = a.args[0]
                r = next(x for x in d.atoms())
                at = T.subst(d, {r: root})
                if at.is_const():
                    v = T.restrict(v, a, 1 if at.is_zero() else 0)
        return v

    def bcast(self, I, e, fr):
        lv = self.target(e['a'][0], fr)
        v = I.read(lv, '')
        root = self.val(e['a'][3], fr)
        t = strip_type(e['a'][0].get('t', '')).rstrip('* ')
        self.note('bcast', None, None, [v, self.val(e['a'][1], fr), path(self.val(e['a'][2], fr)), root], e, field=self.typeof(e['a'][0]))
        if isinstance(v, Value):
            I.write(lv, self.atroot(v, root))
        return ZERO

    def typeof(self, x):
        while x['k'] in ('cast', 'copy'):
            x = x['e']
        if x['k'] == 'un' and x['op'] == '&':
            x = x['e']
            return strip_type(x.get('t', ''))
        return strip_type(x.get('t', '')).replace('const ', '').rstrip('* ')

    def broadcast(self, I, e, fr):
        if not e.get('q', '').startswith('dealii::Utilities::MPI'):
            return NotImplemented
        a = [self.val(x, fr) for x in e['a']]
        root = a[2] if len(a) > 2 else ZERO
        self.note('bcast', None, None, [a[1], ONE, None, root], e)
        return self.atroot(a[1], root) if isinstance(a[1], Value) else a[1]

    def stream(self, I, e, fr):
        """transfers to and from an archive"""
        if e['k'] not in ('opcall', 'mcall') or 'boost::archive' not in e.get('cls', '') + e['a'][0].get('t', ''):
            return NotImplemented
        b, x = (e['a'][0], e['a'][1]) if e['k'] == 'opcall' else (e['b'], e['a'][0])
        base = self.val(b, fr)
        arch = plain(path(base))
        t = strip_type(x.get('t', '')).replace('const ', '')
        if e['n'].startswith('operator<<') or e.get('op') == '<<':
            self.note('put', arch, None, self.val(x, fr), e, field=t)
        else:
            k = len([v for v in self.events if v.kind == 'get' and v.arr == arch])
            self.note('get', arch, None, None, e, field=t)
            I.assign(I.follow(I.lv(x, fr)), T.app('stored', k), e, fr)
        return base if isinstance(base, Opaque) else Opaque(arch, '')

    def concat(self, I, e, fr):
        if e['k'] != 'opcall' or 'basic_string' not in e['a'][0].get('t', ''):
            return NotImplemented
        lv = I.follow(I.lv(e['a'][0], fr))
        a, b = I.read(lv, ''), self.val(e['a'][1], fr)
        if isinstance(a, Str) and isinstance(b, Str):
            v = Str(a.s + b.s)
        else:
            v = Opaque('(%s+%s)' % tuple('"%s"' % x.s if isinstance(x, Str) else pretty(x) for x in (a, b)), 'std::string')
        I.write(lv, v)
        return Ref(lv)

    def range(self, e, fr):
        """the container behind begin(x)"""
        while e['k'] in ('cast', 'copy'):
            e = e['e']
        if e['k'] == 'ctor' and len(e.get('a', [])) == 1:
            return self.range(e['a'][0], fr)
        if e['k'] == 'mcall' and e['n'] in ('begin', 'cbegin', 'end', 'cend'):
            return e['b']
        if e['k'] == 'call' and e['n'].split('<')[0] in ('begin', 'cbegin', 'end', 'cend'):
            return e['a'][0]
        if e['k'] == 'mcall' and e['n'] == 'data':
            return e['b']
        raise AnalysisError('range of a transformation at line %s' % e.get('l'))

    def elements(self, x, fr):
        """the locations of the elements of an array or a container of known size"""
        I = self.I
        lv = I.follow(I.lv(x, fr))
        v = I.read(lv, x.get('t', ''))
        if isinstance(v, Arr):
            return [(lv[0], lv[1] + (('i', k),)) for k in range(len(v.e))]
        arr = self.arrpath(x, fr)
        n = self.size(arr).const()
        if n is None or n > UNROLL:
            return None
        et = split_targs(strip_type(x.get('t', '')))[1]
        return [self.cell(arr, T.const(k), et[0] if et else '') for k in range(int(n))]

    def transform(self, I, e, fr):
        if not e.get('q', '').startswith('std::transform') or len(e['a']) != 4:
            return NotImplemented
        try:
            src = self.elements(self.range(e['a'][0], fr), fr)
        except AnalysisError:
            return NotImplemented
        f = self.val(e['a'][3], fr)
        if src is None or not isinstance(f, Clos):
            return NotImplemented
        out = e['a'][2]
        while out['k'] in ('cast', 'copy') or (out['k'] == 'ctor' and len(out.get('a', [])) == 1):
            out = out['e'] if 'e' in out else out['a'][0]
        back = out['k'] == 'call' and out['n'].split('<')[0] == 'back_inserter'
        y = out['a'][0] if back else self.range(out, fr)
        arr = self.arrpath(y, fr)
        dst = None if back else self.elements(y, fr)
        for k, lv in enumerate(src):
            v = I.call_clos(f, [lv], fr)
            while isinstance(v, Ref):
                v = I.read(v.lv, '')
            if back:
                s = self.size(arr)
                self.note('append', arr, s, [v], e)
                I.store[('size', arr)] = s + 1
            else:
                I.assign(dst[k], v, e, fr)
        return None

    def rfor(self, s, fr):
        """containers of known size, element by element"""
        I = self.I
        x = s['range']
        base = split_targs(strip_type(x.get('t', '')))[0].replace('const ', '').strip()
        if base in ('std::vector', 'std::array') and not s['var'].get('bind'):
            try:
                el = self.elements(x, fr)
            except AnalysisError:
                el = None
            if el is not None and not self.jumps(s['b']):
                v = s['var']
                for lv in el:
                    if v['t'].rstrip().endswith('&'):
                        fr.env[v['id']] = lv
                    else:
                        w = I.read(lv, v['t'])
                        fr.env[v['id']] = I.new_root(w)
                    I.exec(s['b'], fr)
                    if I.store is None:
                        break
                return
        return super().rfor(s, fr)

    def jumps(self, b):
        if isinstance(b, dict):
            return b.get('k') in ('break', 'cont', 'ret') or any(self.jumps(x) for x in b.values())
        return isinstance(b, list) and any(self.jumps(x) for x in b)

    def declare(self, v, fr):
        super().declare(v, fr)
        lv = fr.env.get(v.get('id'))
        if lv and not lv[1] and not v.get('bind') and not v['t'].rstrip().endswith('&'):
            if self.I.store is None:
                return
            t = strip_type(v['t'])
            if t.startswith('std::tuple<ryujin::Vectors') and isinstance(self.I.store.get(lv[0]), Arr):
                self.I.store[lv[0]] = Opaque('#' + v['n'], t)
            w = self.I.store.get(lv[0])
            if isinstance(w, Arr) and w.e and all(isinstance(x, Opaque) and x.path.startswith('uninit') for x in w.e):
                self.I.store[lv[0]] = Arr([Opaque('#%s[%d]' % (v['n'], k), x.t, x.args) for k, x in enumerate(w.e)], w.t)

    def note(self, kind, arr, idx, value, e, field=None):
        while isinstance(value, Ref) and self.I.store is not None:
            value = self.I.read(value.lv, '')
        return super().note(kind, arr, idx, value, e, field)

    # -- operations seen from outside -------------------------------------------------------
    def opaque(self, I, e, fr):
        b = None
        if e['k'] == 'mcall':
            b = Opaque(self.arrpath(e['b'], fr), e.get('cls', ''))
        elif e['k'] == 'opcall':
            return NotImplemented
        a, outs = [], []
        pm = e.get('pm', '')
        for i, x in enumerate(e['a']):
            v = self.val(x, fr)
            if isinstance(v, (Struct, Arr)) or v is None:
                v = Opaque(self.arrpath(x, fr), x.get('t', ''))
            a.append(v)
            if i < len(pm) and pm[i] == 'r' and isinstance(v, Value):
                outs.append((i, I.follow(I.lv(x, fr))))
        n = e['n'].split('<')[0]
        self.note('call', n, None, [b] + a, e)
        for i, lv in outs:
            I.write(lv, T.app('result', n, i))
        t = strip_type(e.get('t', 'void'))
        if t == 'void':
            return None
        self.results += 1
        nm = 'result of %s%s' % (n, ''.join('|%s' % pretty(x) for x in a))
        if is_scalar_type(t):
            return T.app('value of ' + n, *[x if isinstance(x, Value) else pretty(x) for x in a])
        return Opaque(nm, t)

    # -- queries ----------------------------------------------------------------------------
    def calls(self, *names):
        return [e for e in self.events if e.kind == 'call' and e.arr in names]

    def at(self, e):
        return next(i for i, x in enumerate(self.events) if x is e)

    def listed(self, arr, before):
        """the objects in a list of pointers, None where it is not known"""
        r = []
        for e in self.events[:before]:
            if e.kind == 'append' and plain(e.arr) == plain(arr):
                if e.loops or e.guard != ONE or not isinstance(e.idx, Value) or e.idx.const() != len(r):
                    return None
                r.append(plain(path(e.value[0])))
            elif e.kind == 'write' and plain(e.arr) == plain(arr):
                k = e.idx.const()
                if k is None or e.loops or e.guard != ONE:
                    return None
                r += [None] * (int(k) + 1 - len(r))
                r[int(k)] = plain(path(e.value))
            elif e.kind in ('clear',) and plain(e.arr) == plain(arr):
                r = []
        return r

    def touching(self, p, lo, hi):
        """operations on an object between two events"""
        p = plain(p)
        r = []
        for e in self.events[lo + 1:hi]:
            if (e.kind == 'call' and any(plain(path(x)) == p for x in e.value if x is not None)) or \
                    (e.kind in ('write', 'fill', 'resize', 'clear', 'get') and plain(e.arr) == p):
                r.append(e)
        return r
