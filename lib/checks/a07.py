"""A07: equations of state are thermodynamically consistent"""
from eqs import *
from interp import Func, Frame

NS = 'ryujin::EquationOfStateLibrary::'
NAMES = ('pressure', 'specific_internal_energy', 'temperature', 'speed_of_sound')


def run(R):
    P = export.programs(['probe:eos'])['probe:eos']
    R.rule('Every equation of state is configured with symbolic parameters (constructor, then the call-backs that follow parameter '
           'parsing) and summarised over symbolic density and energy; inverse, Gibbs relation, sound speed and the declared '
           'heat capacity are decided as identities of normal forms with exact differentiation.')
    g1 = S('gamma-1', True)
    rho, e, p = S('rho', True), S('e'), S('p')
    arho, ae = [next(iter(x.atoms())) for x in (rho, e)]
    rgas = S('param.gas constant R')
    # every class derived from EquationOfState in the library header set
    classes = sorted({f['cls'] for f in P.funcs.values() if f.get('cls', '').startswith(NS) and f['q'].split('::')[-1] == 'pressure'
                      and len(f['params']) == 2})
    if len(classes) < 5:
        raise AnalysisError('equations of state found: %s' % classes)
    for q in classes:
        short = q.split('::')[-1]
        if short in ('EquationOfState', 'Function'):
            continue
        M = Model(P)
        pars = [x for x in ('gamma',) if short != 'JonesWilkinsLee']
        o = M.configure(q, params={x: ONE + g1 for x in pars})
        fn = {n: P.one(re.escape(q + '::' + n), lambda f: len(f['params']) == 2) for n in NAMES}

        def ev(n, a, b):
            return M.run(fn[n], [a, b], o)

        def ok(key, f, cond, rule, detail=''):
            R.count('identities')
            R.ok('%s:%s' % (short, key), cond, f, rule, detail)
        pe = ev('pressure', rho, e)
        back = ev('specific_internal_energy', rho, pe)
        ok('energy(pressure)', fn['specific_internal_energy'], (back - e).is_zero(),
           'e(rho, p(rho, e)) = e', lambda: pretty(back)[:600])
        ep = ev('specific_internal_energy', rho, p)
        forth = ev('pressure', rho, ep)
        ok('pressure(energy)', fn['pressure'], (forth - p).is_zero(), 'p(rho, e(rho, p)) = p', lambda: pretty(forth)[:600])
        dr, de = T.diff(pe, arho), T.diff(pe, ae)
        c2 = dr + pe * T.inv(rho * rho) * de
        c = ev('speed_of_sound', rho, e)
        ok('speed of sound', fn['speed_of_sound'], (c * c - c2).is_zero(),
           'c^2 = dp/drho + p/rho^2 dp/de', lambda: 'c^2 = %s instead of %s' % (pretty(c * c)[:500], pretty(c2)[:500]))
        # (de + p dv) / T exact, v = 1/rho:  d/dv (1/T) = d/de (p/T),  d/dv = -rho^2 d/drho
        Te = ev('temperature', rho, e)
        beta = T.inv(Te)
        lhs = -rho * rho * T.diff(beta, arho)
        rhs = T.diff(pe * beta, ae)
        ok('Gibbs', fn['temperature'], (lhs - rhs).is_zero(), '(de + p d(1/rho)) / T is an exact differential',
           lambda: 'T = %s' % pretty(Te)[:500])
        if pars:
            cv = rgas * T.inv(g1)
            dT = T.diff(Te, ae)
            ok('heat capacity', fn['temperature'], (dT * cv - ONE).is_zero(),
               'dT/de = (gamma - 1) / R for the parameters in use', lambda: 'dT/de = %s' % pretty(dT)[:300])
        else:
            dT = T.diff(Te, ae)
            ok('heat capacity', fn['temperature'], (dT * S('param.c_v') - ONE).is_zero(), 'dT/de = 1 / c_v for the parameter in use',
               lambda: 'dT/de = %s' % pretty(dT)[:300])
        pm = {x.name for x in M.params}
        b = S('param.covolume b') if 'covolume b' in pm else ZERO
        pinf = S('param.reference pressure') if 'reference pressure' in pm else ZERO
        if short == 'VanDerWaals':
            pinf = T.gt0(b) * S('param.vdw a') * T.inv(b * b)
        q0 = S('param.reference specific internal energy') if 'reference specific internal energy' in pm else ZERO
        for n, want in (('interpolation_b', b), ('interpolation_pinfty', pinf), ('interpolation_q', q0)):
            f = P.one(re.escape(NS + 'EquationOfState::' + n))
            got = M.run(f, [], o)
            got = M.I.read(got.lv, 'double') if isinstance(got, Ref) else got
            ok(n, f, (got - want).is_zero(), 'the interpolation parameters follow the user parameters', lambda: pretty(got)[:300])
    # the array interface evaluates the scalar function entry by entry
    M = Model(P)
    for n in NAMES:
        fs = P.find(re.escape(NS + 'EquationOfState::' + n))
        f = [x for x in fs if len(x['params']) == 3]
        if len(f) != 1:
            raise AnalysisError('array interface of %s' % n)
        f = f[0]
        calls = []

        def ev(I, e, fr, n=n):
            if e['k'] != 'mcall' or len(e['a']) != 2:
                return NotImplemented
            return T.app('eos.' + n, *[I.deref(I.eval(x, fr), 'double') for x in e['a']])

        def transform(I, e, fr, calls=calls):
            a = e['a']
            if len(a) != 5:
                return NotImplemented
            rng = [I.eval(x, fr) for x in a[:4]]
            rng = [I.read(x.lv, '') if isinstance(x, Ref) else x for x in rng]
            fun = I.eval(a[4], fr)
            if isinstance(fun, Ref):
                fun = I.read(fun.lv, '')
            r = I.call_clos(fun, [S('x'), S('y')], fr)
            calls.append(([pretty(x) for x in rng], r, e.get('l')))
            return None
        M.I.hooks[n] = ev
        M.I.hooks['transform'] = transform
        for b in ('begin', 'end'):
            M.I.hooks[b] = (lambda b: lambda I, e, fr: Opaque('%s(%s)' % (b, path(I.eval(e['a'][0], fr), I)), '') if e.get('a') else NotImplemented)(b)
        M.I.effects.clear()
        M.run(f, [Opaque('out'), Opaque('first'), Opaque('second')], Opaque('eos'))
        R.count('identities')
        good = len(calls) == 1 and calls[0][0] == ['begin(first)', 'end(first)', 'begin(second)', 'begin(out)'] and \
            same(calls[0][1], T.app('eos.' + n, S('x'), S('y')))
        if not calls:
            good = loop_form(M, n, calls)
        R.ok('array interface:' + n, good, f, 'out[k] = f(first[k], second[k]) for every k', lambda: str(calls)[:400])
    R.floor('identities', 36)


def path(v, I):
    if isinstance(v, Ref):
        v = I.read(v.lv, '')
    return v.path if isinstance(v, Opaque) else pretty(v)


def loop_form(M, n, seen):
    """the same as a counting loop over all entries"""
    ws = [x for x in M.I.effects if x.name == '=']
    seen += [(x.base, pretty(x.args[0]), x.loops) for x in ws]
    if len(ws) != 1 or len(ws[0].loops) != 1 or ws[0].loops[0][0] != 'for' or ws[0].guard != ONE:
        return False
    _, lo, hi, step = ws[0].loops[0]
    iv = T.app('iv', 0, lo, hi, step)
    sizes = ['size(%s)' % x for x in ('first', 'second', 'out')]
    want = T.app('eos.' + n, *[M.I.symbolic_elem('double', x, iv) for x in ('first', 'second')])
    return lo.is_zero() and step == ONE and pretty(hi) in sizes and re.sub(r'@[^[]*', '', ws[0].base) == 'out[%s]' % pretty(iv) and same(ws[0].args[0], want)
