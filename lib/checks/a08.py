"""A08: scalar fluxes and their wave-speed estimate"""
from eqs import *


def run(R):
    preload()
    R.rule('Built-in fluxes are summarised and differentiated exactly; the wave-speed estimate is summarised over arbitrary pairs of '
           'states and stored flux values and compared with the documented maximum of quotients and derivatives, in both orders of the states.')
    P = export.programs(['probe:flux'])['probe:flux']
    base = 'ryujin::FluxLibrary::'
    found = sorted({f['cls'] for f in P.funcs.values() if f.get('cls', '').startswith(base) and f['q'].endswith('::gradient')})
    found = [c for c in found if not c.endswith('::Flux') and not c.endswith('::Function')]
    if len(found) < 2:
        raise AnalysisError('fluxes found: %s' % found)
    u = S('u')
    au = next(iter(u.atoms()))
    for c in found:
        M = Model(P)
        o = M.configure(c)
        fv = P.one(re.escape(c + '::value'))
        fg = P.one(re.escape(c + '::gradient'))
        want = {'Burgers': [HALF * u * u] * 3, 'KPP': [T.app('sin', u), T.app('cos', u)]}.get(c.split('::')[-1])
        for d in range(2 if c.endswith('KPP') else 3):
            v, g = [M.run(f, [u, T.const(d)], o) for f in (fv, fg)]
            R.count('flux identities')
            R.ok('%s:%d:derivative' % (c, d), (T.diff(v, au) - g).is_zero(), fg, "gradient = d value / du",
                 lambda: 'value %s, gradient %s' % (pretty(v), pretty(g)))
            if want:
                R.ok('%s:%d:value' % (c, d), (v - want[d]).is_zero(), fv, 'the flux is the named one', lambda: pretty(v))
    h2 = 2 * S('delta', True)
    z = S('z', True)
    theta = z * T.inv(S('x', True))    # 0 < theta < 1

    def configured(e, **kw):
        pars = {'use greedy wavespeed': ZERO, 'use averaged entropy': ZERO, 'random entropies': ZERO}
        pars.update(kw)
        par = e.M.configure('ryujin::ScalarConservation::RiemannSolverParameters<double>', params=pars)
        return e.M.construct(e.cls('RiemannSolver'), [e.system, par, Opaque('pv')])
    for dim, vect in variants():
        e = get(Scalar, dim, vect)
        n = names('n', dim)
        fn = e.P.one(re.escape(e.cls('RiemannSolver') + '::compute'), lambda f: len(f['params']) == 5 and
                     'state' not in f['params'][0]['t'] and f['params'][2]['t'].startswith('const precomputed') or
                     len(f['params']) == 5 and 'js' not in [p['n'] for p in f['params']])

        def draw(I, x, fr):
            if 'uniform_real_distribution' not in x.get('cls', x.get('q', '')):
                return NotImplemented
            return theta
        e.I.hooks['operator()'] = draw

        def riemann(rs, Ui, Uj, ti, tj):
            return e.with_tables({('pv', 'at(i)'): ti, ('pv', 'at(*js)'): tj},
                                 lambda: e.M.run(e.pfn('riemann'), [rs, vec(Ui), vec(Uj), S('i'), S('js'), vec(*n)]))
        fl = [lambda u, k=k: T.app('flux.f', u, T.const(k)) for k in range(dim)]
        for order, (ui, uj) in (('falling', (S('uj') + S('x', True), S('uj'))), ('rising', (S('ui'), S('ui') + S('x', True)))):
            ti = vec(*names('fi', dim), *names('dfi', dim))
            tj = vec(*names('fj', dim), *names('dfj', dim))
            fi, fj = dot(ti.e[:dim], n), dot(tj.e[:dim], n)
            di, dj = dot(ti.e[dim:], n), dot(tj.e[dim:], n)
            x = S('x', True)
            roe = T.absval(fi - fj) * T.inv(T.vmax(x, h2))
            full = T.vmax(roe, T.absval(di), T.absval(dj))

            def check(key, rs, want, rule, *asm):
                with T.assuming(*asm):
                    got = riemann(rs, ui, uj, ti, tj)
                    w = want() if callable(want) else want
                    R.count('speed identities')
                    R.ok('%s:%s:%s' % (e.tag, order, key), isinstance(got, Value) and (got - w).is_zero(), fn, rule,
                         lambda: 'found %s, required %s' % (pretty(got)[:600], pretty(w)[:600]))
            plain = configured(e)
            for reg, asm in (('far', x - h2), ('near', h2 - x)):
                check('default ' + reg, plain, lambda: T.vmax(T.absval(fi - fj) * T.inv(T.vmax(x, h2)), T.absval(di), T.absval(dj)),
                      'the estimate is the maximum of the regularised difference quotient and both derivatives', asm)
            greedy = configured(e, **{'use greedy wavespeed': ONE})
            check('greedy far', greedy, T.absval(fi - fj) * T.inv(x), 'greedy: the difference quotient for distant states', x - h2)
            check('greedy near', greedy, HALF * T.absval(di + dj), 'greedy: the central derivative for close states', h2 - x)

            def entropic(k):
                def f():
                    fk = dot([g(k) for g in fl], n)
                    ei, ej = T.absval(ui - k), T.absval(uj - k)
                    si, sj = (ONE, -ONE) if order == 'falling' else (-ONE, ONE)
                    qi, qj = si * (fi - fk), sj * (fj - fk)
                    a, b, c, d = ui + uj - 2 * k, fj - fi, ei + ej, qj - qi
                    left = T.absval(d + b) * T.inv(T.absval(c + a) + h2)
                    right = T.absval(d - b) * T.inv(T.absval(c - a) + h2)
                    return T.vmax(T.vmax(full, left), right)
                return f
            check('averaged', configured(e, **{'use averaged entropy': ONE}), entropic(HALF * (ui + uj)),
                  'the averaged entropy only raises the estimate, by the entropy quotients at the mean state')
            check('random', configured(e, **{'random entropies': ONE}), entropic(theta * ui + (ONE - theta) * uj),
                  'a random entropy only raises the estimate, by the entropy quotients at a state between both', S('x', True) - z)
    R.floor('flux identities', 5)
    R.floor('speed identities', 72)
