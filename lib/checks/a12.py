"""A12: the bracketing root search"""
from fractions import Fraction
from eqs import *
from checks.a09 import unit, solver, compute_fn, speed, naming, pos
from checks.a10 import TOL

TWO = T.const(2)


def step(e, fn, p1, p2, f1, f2, d1, d2, sign, exact=True):
    I = e.I
    r1, r2 = I.new_root(p1), I.new_root(p2)
    old = I.naming
    I.naming = dict(old or {})
    if exact:
        I.naming[EPS.fp] = ZERO
    try:
        e.M.run(fn, [r1, r2, f1, f2, d1, d2, sign], keep=True)
        return I.read(r1, ''), I.read(r2, '')
    finally:
        I.naming = old


def newton(R, e):
    """one step of the search: both new points are roots of the interpolating parabolas, clipped to the bracket and ordered"""
    fn = e.P.one(r'ryujin::quadratic_newton_step', lambda f: strip_type(f['params'][0]['t']).rstrip(' &') == e.num)
    p, w = S('p'), S('w', True)
    q = p + w
    f, g, d, s, n = S('f'), S('g'), S('d'), S('s', True), S('n')
    tag = e.num.split('<')[0]

    def ok(key, cond, rule, detail=''):
        R.count('root search obligations')
        R.ok('step<%s>:%s' % (tag, key), cond, fn, rule, detail)
    for sign in (ONE, -ONE):
        sg = '+' if sign == ONE else '-'
        # exact roots: derivative and discriminant are d and s^2 at one of the two points
        for side in (1, 2):
            dd = (d * d - s * s) / (4 * f)
            other = S('other')
            if side == 1:
                f1, f2, d1, d2 = f, f + w * (d + w * dd), d, other
                base = p
            else:
                f1, f2, d1, d2 = f - w * (d - w * dd), f, other, d
                base = q
            raw = base - 2 * f / (d + sign * s)
            z = raw - base
            ok('root%d%s' % (side, sg), (f + z * d + z * z * dd).is_zero(), 'the increment is a root of the interpolating parabola')
            # the other point: fixed by its own formula, named
            if side == 1:
                ddo = (d2 - (f2 - f1) / w) / w
                oraw = q - 2 * f2 / (d2 + sign * T.sqrt(T.absval(d2 * d2 - 4 * f2 * ddo)))
            else:
                ddo = ((f2 - f1) / w - d1) / w
                oraw = p - 2 * f1 / (d1 + sign * T.sqrt(T.absval(d1 * d1 - 4 * f1 * ddo)))
            a, b, c = S('a', True), S('b', True), S('c', True)
            cases = [('below', p - a, p), ('above', q + a, q)]
            for l1, v1, c1 in cases + [('inside', p + a, p + a)]:
                for l2, v2, c2 in cases + [('inside', p + b, p + b)]:
                    if l1 == l2 and l1 != 'inside':
                        v2 = v2 - b if l1 == 'below' else v2 + b
                    asm = []
                    orders = [('', [])]
                    if l1 == 'inside':
                        asm.append(w - a)
                    if l2 == 'inside':
                        asm.append(w - b)
                    if l1 == l2 == 'inside':
                        orders = [('<', [b - a]), ('>', [a - b])]
                    for ol, oasm in orders:
                        x1, x2 = S('x1'), S('x2')
                        with T.assuming(*asm, *oasm), naming(e, (raw, v1), (oraw, v2)):
                            n1, n2 = step(e, fn, p, q, f1, f2, d1, d2, sign)
                            lo, hi = T.vmin(c1, c2), T.vmax(c1, c2)
                        ok('root of side %d%s:%s %s%s' % (side, sg, l1, l2, ol), n1 == lo and n2 == hi,
                           'the new bracket is spanned by both roots, clipped to the old bracket and in order',
                           lambda: 'found [%s, %s], required [%s, %s]' % (pretty(n1)[:200], pretty(n2)[:200], pretty(lo)[:200], pretty(hi)[:200]))
        # vanishing denominators must not produce anything else than the old points
        for side in (1, 2):
            f1, f2, d1, d2 = S('f1'), S('f2'), S('d1'), S('d2')
            scale = w + EPS
            dd12 = (f2 - f1) / scale
            den = [d1 + sign * T.sqrt(T.absval(d1 * d1 - 4 * f1 * (dd12 - d1) / scale)),
                   d2 + sign * T.sqrt(T.absval(d2 * d2 - 4 * f2 * (d2 - dd12) / scale))]
            small = EPS * HALF
            with naming(e, (den[0], small), (den[1], -small)):
                n1, n2 = step(e, fn, p, q, f1, f2, d1, d2, sign, exact=False)
            ok('degenerate%s:%d' % (sg, side), n1 == p and n2 == q, 'a vanishing slope and discriminant leave the bracket as it is',
               lambda: 'found [%s, %s]' % (pretty(n1)[:300], pretty(n2)[:300]))
            # a root at an end of the bracket stays there, wherever the other root is
            f1, f2 = (ZERO, f2) if side == 1 else (f1, ZERO)
            dd12 = (f2 - f1) / w
            if side == 1:
                oraw = q - 2 * f2 / (d2 + sign * T.sqrt(T.absval(d2 * d2 - 4 * f2 * (d2 - dd12) / w)))
            else:
                oraw = p - 2 * f1 / (d1 + sign * T.sqrt(T.absval(d1 * d1 - 4 * f1 * (dd12 - d1) / w)))
            a = S('a', True)
            for lab, v, asm in (('below', p - a, []), ('inside', p + a, [w - a]), ('above', q + a, [])):
                with T.assuming(sign * d1, sign * d2, *asm), naming(e, (oraw, v)):
                    n1, n2 = step(e, fn, p, q, f1, f2, d1, d2, sign)
                got = n1 if side == 1 else n2
                ok('end%s:%d:%s' % (sg, side, lab), got == (p if side == 1 else q), 'a bracket end that is a root stays an end of the bracket',
                   lambda: 'found %s' % pretty(got)[:300])


def riemann(R, e):
    """functions of the exact Riemann solver"""
    rs = solver(e, **{'newton max iterations': ONE})
    g = GAMMA
    rho, u, p, a = S('rho', True), S('u'), S('p', True), S('a', True)
    dat = lambda s: [S('rho' + s, True), S('u' + s), S('p' + s, True), S('a' + s, True)]
    fn = lambda n: e.fn(n, 'RiemannSolver')
    run_ = lambda n, *args: e.M.run(fn(n), list(args), rs)

    def ok(key, f, cond, rule, detail=''):
        R.count('root search obligations')
        R.ok('%s:%s' % (e.tag, key), cond, fn(f), rule, detail)
    y = S('y', True)
    d = dat('')
    d[3] = T.sqrt(g * d[2] / d[0])
    for lab, x, pp, asm in (('shock', S('x', True), d[2], [S('x', True) - d[2]]), ('rarefaction', S('x', True), d[2], [d[2] - S('x', True)])):
        with T.assuming(*asm):
            fx = run_('f', vec(*d), x)
            dfx = run_('df', vec(*d), x)
            want = T.diff(fx, x)
            ok('df:' + lab, 'df', zero(dfx - want), 'the slope of the pressure function is its derivative', lambda: 'difference %s' % pretty(dfx - want)[:500])
            if lab == 'shock':
                ref = (x - d[2]) * T.sqrt(2 / (d[0] * ((g + 1) * x + (g - 1) * d[2])))
            else:
                ref = 2 * d[3] / (g - 1) * (T.power(x / d[2], (g - 1) / (2 * g)) - ONE)
            ok('f:' + lab, 'f', zero(fx - ref), 'the velocity jump across the wave is that of the %s curve' % lab, lambda: 'found %s, required %s' % (pretty(fx)[:400], pretty(ref)[:400]))
    di, dj = dat('_i'), dat('_j')
    F = {}
    x = S('x', True)
    for lab, asm in (('x above', [x - di[2], x - dj[2]]), ('x below', [di[2] - x, dj[2] - x]), ('x between', [x - di[2], dj[2] - x])):
        with T.assuming(*asm):
            ph = run_('phi', vec(*di), vec(*dj), x)
            want = run_('f', vec(*di), x) + run_('f', vec(*dj), x) + dj[1] - di[1]
            ok('phi:' + lab, 'phi', zero(ph - want), 'the function whose root is the pressure adds both jumps and the velocity difference',
               lambda: pretty(ph - want)[:400])
            dp = run_('dphi', vec(*di), vec(*dj), x)
            want = run_('df', vec(*di), x) + run_('df', vec(*dj), x)
            ok('dphi:' + lab, 'dphi', zero(dp - want), 'the slope adds the slopes of both jumps', lambda: pretty(dp - want)[:400])
    for lab, asm, pm in (('i', di[2] - dj[2], di[2]), ('j', dj[2] - di[2], dj[2])):
        with T.assuming(asm):
            got = run_('phi_of_p_max', vec(*di), vec(*dj))
            want = run_('phi', vec(*di), vec(*dj), pm)
            ok('phi of the larger pressure:' + lab, 'phi_of_p_max', zero(got - want), 'the specialised evaluation equals the general one',
               lambda: 'found %s, required %s' % (pretty(got)[:400], pretty(want)[:400]))
    p1, p2 = S('p1', True), S('p2', True)
    gap = run_('compute_gap', vec(*di), vec(*dj), p1, p2)
    lam = run_('compute_lambda', vec(*di), vec(*dj), p2)
    ok('gap', 'compute_gap', gap.e[1] == lam, 'the estimate handed out with the gap is the one at the upper end of the bracket',
       lambda: 'found %s, required %s' % (pretty(gap.e[1])[:400], pretty(lam)[:400]))
    l1 = run_('compute_lambda', vec(*di), vec(*dj), p1)
    m = lambda n, *a_: run_(n, *a_)
    want = T.vmax(T.absval(m('lambda3_plus', vec(*dj), p2) - m('lambda3_plus', vec(*dj), p1)),
                  T.absval(m('lambda1_minus', vec(*di), p1) - m('lambda1_minus', vec(*di), p2)))
    ok('width', 'compute_gap', gap.e[0] == want, 'the gap is the larger change of the two extreme speeds over the bracket',
       lambda: 'found %s, required %s' % (pretty(gap.e[0])[:400], pretty(want)[:400]))


def zero(v):
    """v is identically zero: roots of numbers in their principal form, denominators multiplied out"""
    if not isinstance(v, Value):
        return False
    if v.is_zero():
        return True
    t = {}
    for m, c in v.t.items():
        k = []
        for a, e in m:
            if a.kind == 'sym' and a.name.isdigit() and e.denominator != 1:
                w = e.numerator // e.denominator
                c = c * Fraction(int(a.name)) ** w
                e = e - w
            k.append((a, e))
        k = tuple(k)
        t[k] = t.get(k, 0) + c
    v = Value({m: c for m, c in t.items() if c})
    return not v.t or T.expanded(v, 200).is_zero()


def iterate(R, e):
    """the iteration of the wave speed estimate"""
    fn = compute_fn(e)
    g = GAMMA
    n = unit(e.dim)[0][1]
    rho = [S('rho_i', True), S('rho_j', True)]
    u = [names('u_i', e.dim), names('u_j', e.dim)]
    un = [dot(x, n) for x in u]
    p = [S('pi', True), S('pj', True)]
    a = [T.sqrt(g * p[k] / rho[k]) for k in (0, 1)]
    Ui, Uj = [e.cons(rho[k], u[k], p[k]) for k in (0, 1)]
    data = [vec(rho[k], un[k], p[k], a[k]) for k in (0, 1)]
    for its in (1, 2):
        rs = solver(e, **{'newton max iterations': T.const(its), 'newton tolerance': TOL})
        run_ = lambda m, *args: e.M.run(e.fn(m, 'RiemannSolver'), list(args), rs)
        for lab, asm0 in (('i>j', p[0] - p[1]), ('i<j', p[1] - p[0])):
            hi, lo = (0, 1) if lab == 'i>j' else (1, 0)
            with T.assuming(asm0):
                rare = run_('p_star_two_rarefaction', *data)
                shock = run_('p_star_failsafe', *data)
                phm = run_('phi_of_p_max', *data)
            y = S('y', True)
            for sg, where, star, asm in ((-1, 'two shocks', p[hi] + y, []), (1, 'mixed', p[lo] + y, [p[hi] - p[lo] - y]),
                                         (1, 'two rarefactions', y, [p[lo] - y])):
                log = []

                def hook(I, ex, fr):
                    v = [I.deref(I.eval(x, fr), 'double') for x in ex['a']]
                    k = len(log)
                    log.append(v)
                    for m in (0, 1):
                        I.assign(I.lv(ex['a'][m], fr), S('N%d%s' % (k, 'lr'[m]), True), ex, fr)
                    return ZERO
                p2 = star
                p1 = p[hi] if sg < 0 else p[lo]
                if where == 'two rarefactions':
                    p1 = p2
                ph = S('phi')
                ends = [(p1, p2)] + [(S('N%dl' % k, True), S('N%dr' % k, True)) for k in range(its)]
                with T.assuming(asm0, ph * sg, *asm), naming(e, (rare, star), (shock, star + S('z', True)), (phm, ph)):
                    lam = [run_('compute_gap', *data, l, r) for l, r in ends]
                    e.I.hooks['quadratic_newton_step'] = hook
                    try:
                        got = e.M.run(e.pfn('riemann'), [rs, Ui, Uj, S('i'), S('js'), vec(*n)])
                    finally:
                        del e.I.hooks['quadratic_newton_step']
                    want = lam[its].e[1]
                    for k in range(its - 1, -1, -1):
                        want = T.select(T.gt0(lam[k].e[0] - TOL), want, lam[k].e[1])
                    key = '%s:iterate %d:%s:%s' % (e.tag, its, lab, where)
                    R.count('root search obligations')
                    R.ok(key + ':value', zero(got - want), fn, 'the estimate is taken at the upper end of the last bracket; the search ends once the gap is below the tolerance',
                         lambda: 'found %s, required %s' % (pretty(got)[:500], pretty(want)[:500]))
                    for k, v in enumerate(log):
                        l, r = ends[k]
                        gap = T.gt0(lam[k].e[0] - TOL)
                        wants = [l, r] + [run_(m, *data, x) for m in ('phi', 'dphi') for x in (l, r)]
                        R.count('root search obligations')
                        same_ = [zero(on(x, lam, k) - on(y_, lam, k)) for x, y_ in zip(v, wants)]
                        R.ok(key + ':arguments%d' % k, len(v) in (6, 7) and all(same_) and (len(v) == 6 or v[6] == ONE), fn,
                             'each step starts from the current bracket with the values and slopes at its ends',
                             lambda: 'arguments %s differ: %s' % ([m for m, x in enumerate(same_) if not x], [pretty(x)[:150] for x in v]))
                if where != 'two rarefactions':
                    R.count('root search obligations')
                    R.ok(key + ':steps', len(log) == its, fn, 'the search takes as many steps as configured', '%d steps' % len(log))


def on(v, lam, k):
    """on the path on which every gap so far exceeds the tolerance"""
    for j in range(k + 1):
        c = T.gt0(lam[j].e[0] - TOL)
        for b in T.bools(c):
            if T.restrict(c, b, 1).const() == 1:
                v = T.restrict(v, b, 1)
            elif T.restrict(c, b, 0).const() == 1:
                v = T.restrict(v, b, 0)
    return v


def run(R):
    preload()
    R.rule('One step of the quadratic root search is executed abstractly for arbitrary brackets, values and slopes: the new ends are roots of the interpolating '
           'parabolas (checked as polynomial identities), clipped to the bracket and in order; the functions it is applied to in the exact Riemann solver are '
           'compared with the published curves and differentiated symbolically; the iteration is compared in every order of the pressures.')
    R.assume('exact arithmetic; the machine epsilon that regularises quotients is zero except where its purpose is examined')
    cases = [(d, v) for d, v in variants()]

    def one(run_, c):
        e = get(Euler, *c)
        if e.dim == 1:
            newton(run_, e)
        riemann(run_, e)
        iterate(run_, e)
    R.each(cases, one)
    R.floor('root search obligations', 200)
