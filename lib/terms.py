"""Value numbers with an algebraic normal form.

A scalar value of the analysed program is a Laurent polynomial with exact
rational coefficients over interned *atoms*.  An atom is an input symbol, a
0/1 indicator of a comparison, a non-polynomial primitive (|.|, exp, log, an
uninterpreted call, a summarised loop) or a parenthesised polynomial that
occurs with a negative or fractional exponent.  Two values receive the same
value number iff their normal forms have the same algebraic hash in GF(P)
(hash collisions have probability < 2^-90); no numerical evaluation of the
program and no solver is involved.
"""
from fractions import Fraction
import hashlib

# P = 2*k*Q + 1, both prime:  exponents live in GF(Q), values in GF(P)
def _is_prime(n):
    if n < 2:
        return False
    for p in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41):
        if n % p == 0:
            return n == p
    d, s = n - 1, 0
    while d % 2 == 0:
        d //= 2
        s += 1
    for a in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41):
        x = pow(a, d, n)
        if x in (1, n - 1):
            continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    return True


Q = (1 << 89) - 1
_k = 1
while not _is_prime(2 * _k * Q + 1):
    _k += 1
P = 2 * _k * Q + 1
G = pow(3, 2 * _k, P)          # generator of the subgroup of order Q
ROOT = 720                      # common denominator of fractional exponents


def _h(s, m):
    return int.from_bytes(hashlib.sha256(s.encode()).digest(), 'big') % m


class Atom:
    __slots__ = ('kind', 'name', 'args', 'pos', 'fp', 'fq', 'rt', 'rq', 'idx', 'info')
    table = {}
    count = 0

    def __repr__(self):
        return atom_str(self)

    def __lt__(self, o):
        return self.idx < o.idx


def _mk_atom(key, kind, name, args, pos, fp=None, fq=None):
    a = Atom.table.get(key)
    if a is not None:
        if pos and not a.pos:
            a.pos = True
        return a
    a = Atom()
    a.kind, a.name, a.args, a.pos = kind, name, args, pos
    a.info = None
    a.idx = Atom.count
    Atom.count += 1
    s = repr(key)
    a.rt = 1 + _h('p' + s, P - 1)
    a.rq = 1 + _h('q' + s, Q - 1)
    if fp is None:
        if kind == 'bool':
            a.fp, a.fq = a.rt, a.rq
        else:
            a.fp = pow(a.rt, ROOT, P)
            a.fq = pow(a.rq, ROOT, Q)
    else:
        a.fp, a.fq = fp, fq
    Atom.table[key] = a
    return a


def _pow_fp(a, e):
    """hash of atom^e in both fields"""
    if e.denominator == 1:
        return pow(a.fp, int(e), P), pow(a.fq, int(e), Q)
    if a.kind == 'poly' or a.kind == 'exp':
        n = e.numerator // e.denominator
        f = e - n
        tag = '%d|%s' % (a.fp, f)
        r = 1 + _h('p' + tag, P - 1)
        rq = 1 + _h('q' + tag, Q - 1)
        return pow(a.fp, n, P) * r % P, pow(a.fq, n, Q) * rq % Q
    x = e * ROOT
    if x.denominator == 1:
        return pow(a.rt, int(x), P), pow(a.rq, int(x), Q)
    tag = '%d|%s' % (a.fp, e)
    return 1 + _h('p' + tag, P - 1), 1 + _h('q' + tag, Q - 1)


_mono_fp = {}


def mono_fp(m):
    r = _mono_fp.get(m)
    if r is None:
        p, q = 1, 1
        for a, e in m:
            x, y = _pow_fp(a, e)
            p = p * x % P
            q = q * y % Q
        r = _mono_fp[m] = (p, q)
    return r


def _frac_mod(c, m):
    return c.numerator % m * pow(c.denominator, -1, m) % m


_cfp = {}


def coef_fp(c):
    r = _cfp.get(c)
    if r is None:
        r = _cfp[c] = (_frac_mod(c, P), _frac_mod(c, Q))
    return r


def _mul_mono(m1, m2):
    """product of monomials -> (mono) ; exp atoms are merged, bools capped"""
    if not m1:
        return m2, None
    if not m2:
        return m1, None
    d = dict(m1)
    exps = None
    for a, e in m2:
        if a.kind == 'bool':
            d[a] = Fraction(1)
            continue
        if a.kind == 'exp':
            exps = True
        s = d.get(a, 0) + e
        if s == 0:
            del d[a]
        else:
            d[a] = s
    if exps:
        ex = [(a, e) for a, e in d.items() if a.kind == 'exp']
        if len(ex) > 1 or (ex and ex[0][1] != 1):
            arg = ZERO
            for a, e in ex:
                del d[a]
                arg = arg + a.args[0] * e
            rest = tuple(sorted(d.items(), key=lambda t: t[0].idx))
            return rest, arg
    return tuple(sorted(d.items(), key=lambda t: t[0].idx)), None


class Value:
    __slots__ = ('t', '_fp', '_fq', 'tag', '__weakref__')
    intern = {}

    def __init__(self, t):
        self.t = t
        self._fp = None
        self.tag = None

    def _compute(self):
        p, q = 0, 0
        for m, c in self.t.items():
            a, b = mono_fp(m)
            x, y = coef_fp(c)
            p += x * a
            q += y * b
        self._fp, self._fq = p % P, q % Q

    @property
    def fp(self):
        if self._fp is None:
            self._compute()
        return self._fp

    @property
    def fq(self):
        if self._fp is None:
            self._compute()
        return self._fq

    def __eq__(self, o):
        if isinstance(o, (int, Fraction)):
            o = const(o)
        return isinstance(o, Value) and self.fp == o.fp

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.fp)

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def const(self):
        return self.t.get((), Fraction(0)) if self.is_const() else None

    def is_zero(self):
        return self.fp == 0

    def __add__(self, o):
        o = lift(o)
        if not self.t:
            return o
        if not o.t:
            return self
        a, b = (self, o) if len(self.t) >= len(o.t) else (o, self)
        t = dict(a.t)
        for m, c in b.t.items():
            s = t.get(m, 0) + c
            if s == 0:
                del t[m]
            else:
                t[m] = s
        return norm(t)
    __radd__ = __add__

    def __neg__(self):
        return norm({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-lift(o))

    def __rsub__(self, o):
        return lift(o) - self

    def __mul__(self, o):
        o = lift(o)
        if not self.t or not o.t:
            return ZERO
        if len(self.t) * len(o.t) > MAXTERMS:
            a, b = self, o
            if not has_bool(a) and len(a.t) > 1:
                a = polyatom(a)
            if not has_bool(b) and len(b.t) > 1 and len(a.t) * len(b.t) > MAXTERMS:
                b = polyatom(b)
            self, o = a, b
        t = {}
        extra = []
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m, ex = _mul_mono(m1, m2)
                if ex is not None:
                    extra.append((m, c1 * c2, ex))
                    continue
                s = t.get(m, 0) + c1 * c2
                if s == 0:
                    t.pop(m, None)
                else:
                    t[m] = s
        r = norm(t)
        for m, c, ex in extra:
            r = r + norm({m: c}) * exp(ex)
        return r
    __rmul__ = __mul__

    def __truediv__(self, o):
        return self * inv(lift(o))

    def __rtruediv__(self, o):
        return lift(o) * inv(self)

    def __pow__(self, e):
        return power(self, lift(e))

    def __repr__(self):
        return show(self)

    def atoms(self):
        s = set()
        for m in self.t:
            for a, _ in m:
                s.add(a)
        return s

    def deep_atoms(self, seen=None):
        seen = set() if seen is None else seen
        for m in self.t:
            for a, _ in m:
                if a in seen:
                    continue
                seen.add(a)
                for x in a.args:
                    _deep(x, seen)
        return seen


def _deep(x, seen):
    if isinstance(x, Value):
        x.deep_atoms(seen)
    elif isinstance(x, (tuple, list)):
        for y in x:
            _deep(y, seen)


MAXTERMS = 6000


def norm(t):
    v = Value(t)
    if v._fp is None:
        v._compute()
    w = Value.intern.get(v._fp)
    if w is None:
        Value.intern[v._fp] = v
        return v
    if len(w.t) <= len(v.t):
        return w
    Value.intern[v._fp] = v
    return v


def lift(x):
    if isinstance(x, Value):
        return x
    if isinstance(x, bool):
        return ONE if x else ZERO
    if isinstance(x, (int, Fraction)):
        return const(x)
    if isinstance(x, float):
        return const(Fraction(x).limit_denominator(10**6))
    raise TypeError('cannot lift %r' % (x,))


def const(c):
    c = Fraction(c)
    return norm({(): c} if c else {})


ZERO = Value({})
ZERO._compute()
Value.intern[0] = ZERO
ONE = norm({(): Fraction(1)})
for _i in list(range(-8, 9)):
    const(_i)
HALF = const(Fraction(1, 2))


def atom_value(a, e=1):
    return norm({((a, Fraction(e)),): Fraction(1)})


def sym(name, pos=False):
    return atom_value(_mk_atom(('sym', name), 'sym', name, (), pos))


def app(name, *args, pos=False):
    """uninterpreted application; args: Values / strings / nested tuples"""
    return atom_value(_mk_atom(('app', name, keyof(args)), 'app', name, tuple(args), pos))


def boolsym(name):
    return atom_value(_mk_atom(('boolsym', name), 'bool', name, (), True))


def boolapp(name, *args):
    return atom_value(_mk_atom(('boolapp', name, keyof(args)), 'bool', name, tuple(args), True))


def keyof(x):
    if isinstance(x, Value):
        return x.fp
    if isinstance(x, (tuple, list)):
        return tuple(keyof(y) for y in x)
    if hasattr(x, 'key'):
        return x.key()
    return x


def has_bool(v):
    for m in v.t:
        for a, _ in m:
            if a.kind == 'bool':
                return True
    return False


def bools(v):
    s = set()
    for m in v.t:
        for a, _ in m:
            if a.kind == 'bool':
                s.add(a)
    return s


def restrict(v, a, val):
    """v with the bool atom a fixed"""
    t = {}
    ch = False
    for m, c in v.t.items():
        if any(x is a for x, _ in m):
            ch = True
            if not val:
                continue
            m = tuple(x for x in m if x[0] is not a)
        s = t.get(m, 0) + c
        if s == 0:
            t.pop(m, None)
        else:
            t[m] = s
    return norm(t) if ch else v


MAXBOOL = 7


def shannon(f, *vs):
    """apply f on values free of bool atoms"""
    bs = set()
    for v in vs:
        if isinstance(v, Value):
            bs |= bools(v)
    if not bs:
        return f(*vs)
    if len(bs) > MAXBOOL:
        return None
    a = min(bs, key=lambda x: x.idx)
    r1 = shannon(f, *[restrict(v, a, True) if isinstance(v, Value) else v for v in vs])
    r0 = shannon(f, *[restrict(v, a, False) if isinstance(v, Value) else v for v in vs])
    if r1 is None or r0 is None:
        return None
    av = atom_value(a)
    return r0 + av * (r1 - r0)


def split_content(v):
    """v = c * mono * prim  (mono: common positive monomial factor)"""
    it = iter(v.t.items())
    m0, c0 = next(it)
    common = dict(m0)
    for m, _ in it:
        d = dict(m)
        for a in list(common):
            e = d.get(a, Fraction(0))
            x = common[a]
            if e == 0 or (e > 0) != (x > 0):
                # allow negative minimum exponents to be pulled out
                common[a] = min(x, e) if (x < 0 or e < 0) else 0
            else:
                common[a] = min(x, e)
            if common[a] == 0:
                del common[a]
        for a, e in m:
            if a not in common and e < 0 and a not in dict(m0):
                common[a] = e
    common = {a: e for a, e in common.items() if a.kind not in ('bool', 'exp') and e}
    mono = tuple(sorted(common.items(), key=lambda t: t[0].idx))
    if mono:
        im = tuple((a, -e) for a, e in mono)
        t = {}
        for m, c in v.t.items():
            mm, _ = _mul_mono(m, im)
            t[mm] = t.get(mm, 0) + c
    else:
        t = dict(v.t)
    lead = min(t, key=lambda m: tuple((a.idx, e) for a, e in m))
    c = t[lead]
    t = {m: x / c for m, x in t.items()}
    return c, mono, norm(t)


def polyatom_of(prim):
    """atom for a multi-term polynomial"""
    return _mk_atom(('poly', prim.fp), 'poly', 'poly', (prim,), plain_sign(prim) == 1,
                    fp=prim.fp, fq=prim.fq)


def polyatom(v):
    c, mono, prim = split_content(v)
    if len(prim.t) == 1:
        return v
    a = polyatom_of(prim)
    m, _ = _mul_mono(mono, ((a, Fraction(1)),))
    w = Value({m: c})
    w._compute()
    return w


def inv(v):
    if v.is_zero():
        return app('inv0')
    if has_bool(v):
        r = shannon(inv, v)
        if r is not None:
            return r
        return app('inv', v)
    if len(v.t) == 1:
        (m, c), = v.t.items()
        ex = [(a, e) for a, e in m if a.kind == 'exp']
        r = norm({tuple((a, -e) for a, e in m if a.kind != 'exp'): 1 / c})
        for a, e in ex:
            r = r * exp(-a.args[0] * e)
        return r
    c, mono, prim = split_content(v)
    if len(prim.t) == 1:
        return inv(norm({mono: c}) * prim) if False else _inv_mono(c, mono, prim)
    a = polyatom_of(prim)
    m, _ = _mul_mono(tuple((x, -e) for x, e in mono), ((a, Fraction(-1)),))
    return norm({m: 1 / c})


def _inv_mono(c, mono, prim):
    (m, c2), = prim.t.items()
    mm, _ = _mul_mono(mono, m)
    return inv(norm({mm: c * c2}))


ASSUMED = []


class assuming:
    """a regime: the given values are positive (see entails)"""

    def __init__(self, *vs):
        self.vs = list(vs)

    def __enter__(self):
        self.old = list(ASSUMED)
        for v in self.vs:
            ASSUMED.append(v)
            w = primitive(v)
            if w is not v:
                ASSUMED.append(w)

    def __exit__(self, *a):
        ASSUMED[:] = self.old


def sign(v, depth=0):
    """+1 / -1 / 0 if the sign is evident or follows from the regime, else None"""
    s = plain_sign(v)
    if s is not None or has_bool(v):
        return s
    if depth < 3:
        w = expanded(v)
        if w is not v:
            return sign(w, depth + 1)
    if not ASSUMED:
        return s
    v = primitive(v)
    if entails(v, 3):
        return 1
    if entails(-v, 3):
        return -1
    return None


def primitive(v):
    """v without a positive monomial factor"""
    if len(v.t) > 1 and all(v.t):
        c, mono, prim = split_content(v)
        if mono and all(a.pos for a, e in mono):
            return prim * const(1 if c > 0 else -1)
    return v


def expanded(v, limit=24):
    """v with positive denominators and polynomial factors multiplied out (only for
    the decision of signs: the result bypasses the choice of shortest representations)"""
    if not 1 < len(v.t) <= limit or not any(a.kind == 'poly' for m in v.t for a, e in m):
        return v
    low = {}
    for m in v.t:
        for a, e in m:
            if a.kind == 'poly' and a.pos and e < 0:
                low[a] = min(low.get(a, 0), e)
    up = tuple(sorted(((a, -e) for a, e in low.items()), key=lambda y: y[0].idx))
    r = {}
    changed = bool(low)
    for m, c in v.t.items():
        m, ex = _mul_mono(m, up)
        if ex is not None:
            return v
        x = {tuple(): c}
        for a, e in m:
            if a.kind == 'poly' and e.denominator == 1 and 0 < e <= 3:
                changed = True
                f = [a.args[0].t] * int(e)
            else:
                f = [{((a, e),): Fraction(1)}]
            for g in f:
                y = {}
                for m1, c1 in x.items():
                    for m2, c2 in g.items():
                        k, ex = _mul_mono(m1, m2)
                        if ex is not None:
                            return v
                        y[k] = y.get(k, 0) + c1 * c2
                x = y
                if len(x) > 6 * limit:
                    return v
        for k, y in x.items():
            y += r.get(k, 0)
            if y:
                r[k] = y
            else:
                r.pop(k, None)
    return Value(r) if changed else v


def _divide(n, d):
    """n/d for dicts of monomials if the division is exact within few steps, else None"""

    def lead(t, order):
        return max(t, key=lambda m: tuple(dict(m).get(a, 0) for a in order))
    order = sorted({a for t in (n, d) for m in t for a, _ in m}, key=lambda a: a.idx)
    ld = lead(d, order)
    il = tuple((a, -e) for a, e in ld)
    top = 2 * len(n) + 20
    n, q = dict(n), {}
    for _ in range(top):
        if not n:
            return q
        ln = lead(n, order)
        m, ex = _mul_mono(ln, il)
        if ex is not None:
            return None
        c = n[ln] / d[ld]
        q[m] = q.get(m, 0) + c
        for k, x in d.items():
            k, ex = _mul_mono(k, m)
            if ex is not None:
                return None
            y = n.get(k, 0) - c * x
            if y:
                n[k] = y
            else:
                n.pop(k, None)
        if len(n) > top:
            return None
    return None


def reduced(v):
    """v up to positive factors: multiplied out and divided by the positive polynomials in it (for comparisons with zero)"""
    if len(v.t) < 2:
        return v
    r = _reduced.get(v.fp)
    if r is None:
        r = _reduced[v.fp] = _reduce(v)
    return r


_reduced = {}


def _reduce(v):
    cand = {a.args[0].fp: a.args[0] for m in v.t for a, e in m if a.kind == 'poly' and a.pos}
    if len(v.t) <= 60:
        # logarithms survive every change of representation
        for a in v.deep_atoms():
            if a.name == 'log' and isinstance(a.args[0], Value) and 1 < len(a.args[0].t) <= 6 and plain_sign(a.args[0]) == 1:
                x = expanded(split_content(a.args[0])[2])
                if len(x.t) == 1:
                    for y, ex in next(iter(x.t)):
                        if y.kind == 'poly' and y.pos:
                            cand[y.args[0].fp] = y.args[0]
                else:
                    cand[x.fp] = x
    if not cand and not any(a.kind == 'poly' for m in v.t for a, e in m):
        return v
    w = expanded(v, 120)
    if any(a.kind == 'poly' for m in w.t for a, e in m):
        return w
    t = w.t
    for fp in sorted(f for f, x in cand.items() if len(x.t) > 1):
        while True:
            q = _divide(t, cand[fp].t)
            if q is None:
                break
            t = q
            if len(t) < 2:
                return Value(t)
    return w if t is w.t else Value(t)


def entails(v, depth):
    """v > 0 because v minus a positive multiple of assumed values is >= 0"""
    for a in ASSUMED:
        cs = set()
        for m, c in a.t.items():
            x = v.t.get(m)
            if x is not None and x / c > 0:
                cs.add(x / c)
        for k in cs:
            r = v - a * k
            s = plain_sign(r)
            if s in (0, 1):
                return True
            if depth > 1 and s is None and entails(r, depth - 1):
                return True
    if len(v.t) == 1:
        # a product of factors of known sign
        (m, c), = v.t.items()
        s = 1 if c > 0 else -1
        for a, e in m:
            if a.pos or a.kind == 'exp' or (e.denominator == 1 and e.numerator % 2 == 0):
                continue
            w = a.args[0] if a.kind == 'poly' else atom_value(a)
            if a.kind != 'poly' and e.denominator != 1:
                return False
            if w == v or w == -v:
                return False
            if entails(w, 1):
                continue
            if entails(-w, 1) and e.denominator == 1:
                s = -s
                continue
            return False
        return s > 0
    return False


def plain_sign(v):
    if not v.t:
        return 0
    s = None
    for m, c in v.t.items():
        x = 1 if c > 0 else -1
        for a, e in m:
            if a.pos or a.kind == 'exp':
                continue
            if e.denominator == 1 and e.numerator % 2 == 0:
                continue
            return None
        if s is None:
            s = x
        elif s != x:
            return None
    return s


def nonneg(v):
    return sign(v) in (0, 1)


def power(v, e):
    if has_bool(v) or has_bool(e):
        r = shannon(power, v, e)
        if r is not None:
            return r
        return app('pow', v, e)
    ce = e.const()
    if ce is not None:
        if ce == 0:
            return ONE
        if ce == 1:
            return v
        if ce.denominator == 1:
            n = int(ce)
            if n < 0:
                return power(inv(v), const(-n))
            if n <= 12 or len(v.t) == 1:
                r = ONE
                b = v
                while n:
                    if n & 1:
                        r = r * b
                    n >>= 1
                    if n:
                        b = b * b
                return r
        return _rpow(v, ce)
    if v.is_zero() and sign(e) == 1:
        return ZERO
    return exp(e * log(v))


def _rpow(v, ce):
    """v^ce for a fraction ce; v taken as positive"""
    if v.is_zero():
        return ZERO
    c, mono, prim = split_content(v)
    if sign(v) == -1 or c < 0:
        # cannot pull a negative coefficient out
        if len(v.t) == 1:
            return app('rpow', v, str(ce))
        prim = prim * -1
        c = -c
    r = _cpow(c, ce)
    t = []
    for a, e in mono:
        x = e * ce
        if not a.pos and e.denominator == 1 and e.numerator % 2 == 0 and \
                not (x.denominator == 1 and x.numerator % 2 == 0):
            r = r * power(absval(atom_value(a)), const(x))
        else:
            t.append((a, x))
    r = r * norm({tuple(t): Fraction(1)})
    if len(prim.t) == 1:
        (m, c2), = prim.t.items()
        if m:
            for a, e in m:
                if a.kind == 'exp':
                    r = r * exp(a.args[0] * (e * ce))
                    continue
                x = e * ce
                if not a.pos and e.denominator == 1 and e.numerator % 2 == 0 and \
                        not (x.denominator == 1 and x.numerator % 2 == 0):
                    r = r * power(absval(atom_value(a)), const(x))
                else:
                    r = r * norm({((a, x),): Fraction(1)})
        return r * _cpow(c2, ce)
    a = polyatom_of(prim)
    return r * norm({((a, ce),): Fraction(1)})


def _cpow(c, e):
    if c == 1:
        return ONE
    if e.denominator == 1:
        return const(c ** int(e))
    if c < 0:
        return app('rpow', const(c), str(e))
    r = ONE
    for n, s in ((c.numerator, 1), (c.denominator, -1)):
        f = 2
        while n > 1 and f < 1000:
            k = 0
            while n % f == 0:
                n //= f
                k += 1
            if k:
                x = e * k * s
                w = x.numerator // x.denominator
                r = r * const(Fraction(f) ** w)
                if x - w:
                    r = r * norm({((_mk_atom(('num', f), 'sym', str(f), (), True), x - w),): Fraction(1)})
            f += 1
        if n > 1:
            r = r * norm({((_mk_atom(('num', n), 'sym', str(n), (), True), e * s),): Fraction(1)})
    return r


def sqrt(v):
    return power(v, HALF)


def log(v):
    if has_bool(v):
        r = shannon(log, v)
        return r if r is not None else app('log', v)
    if v == ONE:
        return ZERO
    if v.is_zero() or not v.t:
        return app('log', v)
    c, mono, prim = split_content(v)
    if c < 0:
        if len(v.t) == 1:
            return app('log', v)
        c, prim = -c, prim * -1
    r = ZERO
    if c != 1:
        r = r + app('log', const(c))
    items = list(mono)
    if len(prim.t) == 1:
        (m, _), = prim.t.items()
        items += list(m)
    else:
        r = r + app('log', prim)
    for a, e in items:
        if a.kind == 'exp':
            r = r + a.args[0] * e
        elif a.kind == 'poly':
            r = r + app('log', a.args[0]) * e
        elif a.pos or e.denominator != 1 or e.numerator % 2:
            r = r + app('log', atom_value(a)) * e
        else:
            r = r + app('log', absval(atom_value(a))) * e
    return r


def proper_fractions(v):
    """divide numerators by the polynomials in their denominators, so that
    g/(1+g) becomes 1 - 1/(1+g)"""
    for _ in range(300):
        hit = None
        for m, c in v.t.items():
            for a, e in m:
                if a.kind == 'poly' and e < 0:
                    p = a.args[0]
                    lead = _lead(p)
                    if lead is None:
                        continue
                    d = dict(m)
                    if all(d.get(x, 0) >= y for x, y in lead):
                        hit = (m, c, a, p, lead)
                        break
            if hit:
                break
        if not hit:
            return v
        m, c, a, p, lead = hit
        # m*c = q * lead * a^e ;  lead = (p - rest)/lc  ->  q*a^(e+1)/lc - q*rest*a^e/lc
        lc = p.t[lead]
        q, _x = _mul_mono(m, tuple((x, -y) for x, y in lead))
        t = dict(v.t)
        del t[m]

        def add(mm, cc):
            x = t.get(mm, 0) + cc
            if x == 0:
                t.pop(mm, None)
            else:
                t[mm] = x
        add(_mul_mono(q, ((a, Fraction(1)),))[0], c / lc)
        for m2, c2 in p.t.items():
            if m2 != lead:
                add(_mul_mono(q, m2)[0], -c / lc * c2)
        v = Value(t)
        v._compute()
    return v


def _lead(p):
    best = None
    for m in p.t:
        if not m or any(e < 0 or e.denominator != 1 for _, e in m):
            if m:
                return None
            continue
        k = (sum(e for _, e in m), [(a.rt, e) for a, e in sorted(m, key=lambda z: z[0].rt)])
        if best is None or k > best[0]:
            best = (k, m)
    return best[1] if best else None


def exp(v):
    if has_bool(v):
        r = shannon(exp, v)
        return r if r is not None else app('exp', v)
    v = proper_fractions(v)
    if v.is_zero():
        return ONE
    r = ONE
    rest = {}
    for m, c in v.t.items():
        if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == 'app' and m[0][0].name == 'log':
            r = r * power(m[0][0].args[0], const(c))
        else:
            rest[m] = c
    if not rest:
        return r
    rv = norm(rest)
    a = _mk_atom(('exp', rv.fp), 'exp', 'exp', (rv,), True,
                 fp=pow(G, rv.fq, P), fq=1 + _h('expq%d' % rv.fp, Q - 1))
    return r * norm({((a, Fraction(1)),): Fraction(1)})


# -- canonical scale for |d|, [d > 0] -----------------------------------------
_dir = {}


def _canon_dir(d):
    """(c, d') with d = c*d', c a positive or negative rational times a
    positive monomial, d' canonical"""
    c, mono, prim = split_content(d)
    pm = tuple((a, e) for a, e in mono if a.pos or (e.denominator == 1 and e.numerator % 2 == 0))
    im = tuple((a, -e) for a, e in pm)
    m = norm({im: 1 / c})
    t = {}
    for mm, x in d.t.items():
        y, ex = _mul_mono(mm, im)
        if ex is not None:
            return Fraction(1), ONE, d
        t[y] = t.get(y, 0) + x / c
    dd = norm(t)
    for k in (1, -1, 2, -2, Fraction(1, 2), Fraction(-1, 2)):
        w = _dir.get((dd * k).fp)
        if w is not None:
            return c / Fraction(k), norm({pm: Fraction(1)}), w
    _dir[dd.fp] = dd
    return c, norm({pm: Fraction(1)}), dd


_maxes = {}     # value number -> arguments of the maximum it is


def absval(v):
    r = _absval(v)
    if not has_bool(v) and len(r.t) == 1 and r != v:
        for x in (v, -v):
            _maxes.setdefault(((x + r) * HALF).fp, (x, ZERO))
    return r


def _absval(v):
    if has_bool(v):
        r = shannon(absval, v)
        return r if r is not None else app('abs', v)
    s = sign(v)
    if s is not None:
        return v if s >= 0 else -v
    if len(v.t) == 1:
        (m, c), = v.t.items()
        r = const(abs(c))
        for a, e in m:
            if a.pos or a.kind == 'exp' or (e.denominator == 1 and e.numerator % 2 == 0):
                r = r * norm({((a, e),): Fraction(1)})
            else:
                r = r * power(app('abs', atom_value(a), pos=True), const(e))
        return r
    c, mono, d = _canon_dir(v)
    return const(abs(c)) * mono * app('abs', d, pos=True)


def vmax(*vs):
    vs = [lift(v) for v in vs]
    flat = []
    for v in vs:
        if v.tag and v.tag[0] == 'max':
            flat += list(v.tag[1])
        elif v.fp in _maxes:
            flat += list(_maxes[v.fp])
        else:
            flat.append(v)
    u = {}
    for v in flat:
        u[v.fp] = v
    vs = list(u.values())
    # drop dominated entries
    keep = []
    for i, v in enumerate(vs):
        dom = False
        for j, w in enumerate(vs):
            if i == j:
                continue
            s = sign(w - v)
            if s is not None and (s == 1 or (s == 0)):
                dom = True
                break
        if not dom:
            keep.append(v)
    vs = keep or vs[:1]
    if len(vs) == 1:
        return vs[0]
    if len(vs) == 2:
        a, b = vs
        r = (a + b + absval(a - b)) * HALF
    else:
        vs.sort(key=lambda v: v.fp)
        if any(has_bool(v) for v in vs):
            r = shannon(lambda *w: vmax(*w), *vs)
            if r is not None:
                return r
        r = app('max', tuple(vs), pos=any(plain_sign(v) == 1 for v in vs))
    if r.tag is None:
        r.tag = ('max', tuple(vs))
    _maxes.setdefault(r.fp, tuple(vs))
    return r


def vmin(*vs):
    return -vmax(*[-lift(v) for v in vs])


# -- comparisons ---------------------------------------------------------------
def gt0(d):
    """indicator of d > 0"""
    d = lift(d)
    if has_bool(d):
        r = shannon(gt0, d)
        return r if r is not None else boolapp('gt0', d)
    c = d.const()
    if c is not None:
        return ONE if c > 0 else ZERO
    s = sign(d)
    if s is not None:
        return ONE if s == 1 else ZERO
    c, mono, dd = _canon_dir(reduced(d))
    if c > 0:
        return boolapp('gt0', dd)
    return ONE - boolapp('ge0', dd)


def ge0(d):
    """indicator of d >= 0"""
    return ONE - gt0(-lift(d))


def eq0(d):
    d = lift(d)
    if has_bool(d):
        r = shannon(eq0, d)
        return r if r is not None else boolapp('eq0', d)
    c = d.const()
    if c is not None:
        return ONE if c == 0 else ZERO
    s = sign(d)
    if s in (1, -1):
        return ZERO
    # max(x, 0) == 0 and the like: |x| == x is x >= 0
    c, mono, dd = _canon_dir(d)
    d = dd
    for at in sorted({a for m in d.t for a, e in m if a.kind == 'app' and a.name == 'abs' and e == 1}, key=lambda a: a.idx):
        x = at.args[0]
        q = norm({tuple(y for y in m if y[0] is not at): k for m, k in d.t.items() if (at, 1) in m})
        if any(y is at for m in q.t for y, _ in m) or sign(q) not in (1, -1):
            continue
        rest = d - q * atom_value(at)
        if rest == -q * x:
            return ge0(x)
        if rest == q * x:
            return ge0(-x)
    return boolapp('eq0', dd)


def select(c, a, b):
    """c ? a : b"""
    c = lift(c)
    k = c.const()
    if k is not None:
        return a if k != 0 else b
    if a == b:
        return a
    # c ? x : 0 with c = [x > 0]  is  max(x, 0)
    if len(c.t) <= 2:
        bs = bools(c)
        if len(bs) == 1 and len(c.atoms()) == 1:
            at = next(iter(bs))
            if at.name in ('gt0', 'ge0'):
                d = at.args[0]
                if restrict(c, at, True) == ONE:
                    u, w = a, b
                else:
                    u, w = b, a
                if not has_bool(u) and not has_bool(w):
                    diff = u - w
                    for kk in (1, -1, 2, -2, Fraction(1, 2), Fraction(-1, 2)):
                        if diff == d * kk:
                            return w + vmax(d, ZERO) * kk
    return b + c * (a - b)


def notb(a):
    return ONE - a


def andb(a, b):
    return a * b


def orb(a, b):
    return a + b - a * b


# -- derivative / substitution -------------------------------------------------
def diff(v, a):
    """derivative with respect to the atom (or single-atom value) a"""
    if isinstance(a, Value):
        (m, _), = a.t.items()
        a = m[0][0]
    memo = {}
    return _diff(v, a, memo)


def _datom(x, a, memo):
    if x is a:
        return ONE
    r = memo.get(x)
    if r is not None:
        return r
    k = x.kind
    if k == 'sym' or k == 'bool':
        r = ZERO
    elif k == 'poly':
        r = _diff(x.args[0], a, memo)
    elif k == 'exp':
        r = _diff(x.args[0], a, memo) * atom_value(x)
    elif k == 'app':
        ds = [_diff(y, a, memo) if isinstance(y, Value) else ZERO for y in x.args]
        if all(d.is_zero() for d in ds):
            r = ZERO
        elif x.name == 'log':
            r = ds[0] / x.args[0]
        elif x.name == 'abs':
            r = ds[0] * app('sgn', x.args[0])
        elif x.name == 'tan':
            r = ds[0] * (ONE + atom_value(x) * atom_value(x))
        elif x.name == 'sin':
            r = ds[0] * app('cos', x.args[0])
        elif x.name == 'cos':
            r = -ds[0] * app('sin', x.args[0])
        else:
            r = ZERO
            for i, d in enumerate(ds):
                if not d.is_zero():
                    r = r + d * app('D%d.%s' % (i, x.name), *x.args)
    memo[x] = r
    return r


def _diff(v, a, memo):
    r = ZERO
    for m, c in v.t.items():
        for i, (x, e) in enumerate(m):
            d = _datom(x, a, memo)
            if d.is_zero():
                continue
            rest = list(m)
            if e == 1:
                rest.pop(i)
            else:
                rest[i] = (x, e - 1)
            r = r + norm({tuple(rest): c * e}) * d
    return r


def subst(v, mp, memo=None):
    """replace atoms; mp: {atom or single-atom Value: Value}"""
    m2 = {}
    for k, w in mp.items():
        if isinstance(k, Value):
            (m, _), = k.t.items()
            k = m[0][0]
        m2[k] = lift(w)
    return _subst(v, m2, {})


def _satom(x, mp, memo):
    r = mp.get(x)
    if r is not None:
        return r
    r = memo.get(x)
    if r is not None:
        return r
    k = x.kind
    if not x.args:
        r = atom_value(x)
    elif k == 'poly':
        r = _subst(x.args[0], mp, memo)
    elif k == 'exp':
        r = exp(_subst(x.args[0], mp, memo))
    else:
        args = tuple(_sarg(y, mp, memo) for y in x.args)
        if keyof(args) == keyof(x.args):
            r = atom_value(x)
        elif x.name == 'abs':
            r = absval(args[0])
        elif x.name == 'log':
            r = log(args[0])
        elif x.name == 'max' and k == 'app':
            r = vmax(*args[0])
        elif x.name == 'gt0':
            r = gt0(args[0])
        elif x.name == 'ge0':
            r = ge0(args[0])
        elif x.name == 'eq0':
            r = eq0(args[0])
        elif x.name == 'rpow':
            r = power(args[0], const(Fraction(args[1])))
        elif k == 'bool':
            r = boolapp(x.name, *args)
        else:
            r = app(x.name, *args, pos=x.pos)
    memo[x] = r
    return r


def _sarg(y, mp, memo):
    if isinstance(y, Value):
        return _subst(y, mp, memo)
    if isinstance(y, tuple):
        return tuple(_sarg(z, mp, memo) for z in y)
    return y


def _subst(v, mp, memo):
    r = ZERO
    for m, c in v.t.items():
        p = const(c)
        keep = []
        for x, e in m:
            s = _satom(x, mp, memo)
            if len(s.t) == 1 and s.t.get(((x, Fraction(1)),)) == 1:
                keep.append((x, e))
            else:
                p = p * power(s, const(e))
        if keep:
            p = p * norm({tuple(keep): Fraction(1)})
        r = r + p
    return r


def rewrite(v, fn, memo=None):
    """rebuild v bottom-up; fn(atom, rebuilt args) returns the Value to use for the atom, or None to keep it"""
    memo = {} if memo is None else memo

    def arg(y):
        if isinstance(y, Value):
            return val(y)
        if isinstance(y, tuple):
            return tuple(arg(z) for z in y)
        return y

    def atom(x):
        r = memo.get(x)
        if r is not None:
            return r
        args = tuple(arg(y) for y in x.args)
        r = fn(x, args)
        if r is None:
            if not x.args or keyof(args) == keyof(x.args):
                r = atom_value(x)
            elif x.kind == 'poly':
                r = args[0]
            elif x.kind == 'exp':
                r = exp(args[0])
            else:
                r = _rebuild(x, args)
        memo[x] = r
        return r

    def val(w):
        r = ZERO
        for m, c in w.t.items():
            p = const(c)
            keep = []
            for x, e in m:
                s = atom(x)
                if len(s.t) == 1 and s.t.get(((x, Fraction(1)),)) == 1:
                    keep.append((x, e))
                else:
                    p = p * power(s, const(e))
            if keep:
                p = p * norm({tuple(keep): Fraction(1)})
            r = r + p
        return r
    return val(v)


def _rebuild(x, args):
    f = {'abs': lambda: absval(args[0]), 'log': lambda: log(args[0]), 'gt0': lambda: gt0(args[0]), 'ge0': lambda: ge0(args[0]),
         'eq0': lambda: eq0(args[0]), 'rpow': lambda: power(args[0], const(Fraction(args[1])))}.get(x.name)
    if f is not None:
        return f()
    if x.name == 'max' and x.kind == 'app':
        return vmax(*args[0])
    if x.kind == 'bool':
        return boolapp(x.name, *args)
    return app(x.name, *args, pos=x.pos)


def modulo_ties(v):
    """identify [d >= 0] with [d > 0]"""
    mp = {}
    for a in v.deep_atoms():
        if a.kind == 'bool' and a.name == 'ge0':
            mp[a] = boolapp('gt0', a.args[0])
    return _subst(v, mp, {}) if mp else v


# -- printing -------------------------------------------------------------------
def atom_str(a, depth=0):
    if a.kind in ('sym',):
        return a.name
    if a.kind == 'bool' and not a.args:
        return a.name
    if depth > 3:
        return '%s(..)' % a.name
    if a.kind == 'poly':
        return '(%s)' % show(a.args[0], depth + 1)
    if a.kind == 'bool' and a.name in ('gt0', 'ge0', 'eq0'):
        return '[%s %s 0]' % (show(a.args[0], depth + 1),
                              {'gt0': '>', 'ge0': '>=', 'eq0': '=='}[a.name])
    return '%s(%s)' % (a.name, ', '.join(show_any(x, depth + 1) for x in a.args))


def show_any(x, depth=0):
    if isinstance(x, Value):
        return show(x, depth)
    if isinstance(x, (tuple, list)):
        return '{' + ', '.join(show_any(y, depth) for y in x) + '}'
    return str(x)


def show(v, depth=0):
    if not v.t:
        return '0'
    parts = []
    for m, c in sorted(v.t.items(), key=lambda t: [(a.idx, float(e)) for a, e in t[0]])[:12]:
        f = []
        for a, e in m:
            s = atom_str(a, depth)
            if e != 1:
                s += '^%s' % (e if e.denominator == 1 else '(%s)' % e)
            f.append(s)
        if not f:
            s = str(c)
        elif c == 1:
            s = '*'.join(f)
        elif c == -1:
            s = '-' + '*'.join(f)
        else:
            s = '%s*%s' % (c, '*'.join(f))
        parts.append(s)
    r = ' + '.join(parts).replace('+ -', '- ')
    if len(v.t) > 12:
        r += ' + ...(%d terms)' % len(v.t)
    return r
