"""A06: boundary conditions"""
from eqs import *


def enum_values(P):
    return {n: int(v) for n, v in P.enums['ryujin::Boundary']['vals']}


def unit(v):
    """the value for a normal of unit length (stereographic parametrisation)"""
    r, t = S('par.r', True), S('par.t', True)
    sy = {n: list(S(n).t)[0][0][0] for n in ('n0', 'n1', 'n2')}
    present = {a for a in v.deep_atoms() if a.kind == 'sym' and a.name in sy}
    if not present:
        return v
    if any(a.name == 'n2' for a in present):
        k = T.inv(ONE + r * r + t * t)
        s = {sy['n0']: T.const(2) * r * k, sy['n1']: T.const(2) * t * k, sy['n2']: (r * r + t * t - ONE) * k}
    else:
        k = T.inv(ONE + t * t)
        s = {sy['n0']: T.const(2) * t * k, sy['n1']: (ONE - t * t) * k}
    return T.subst(v, s)


def one(a, b):
    """equal, using that the normal has unit length if need be"""
    if same(a, b):
        return True
    if not isinstance(a, Arr) or len(a.e) != len(b.e) or not all(isinstance(x, Value) for x in a.e):
        return False
    return all((x - y).is_zero() or unit(x - y).is_zero() for x, y in zip(a.e, b.e))


def run(R):
    preload()
    R.rule('The boundary state is summarised for every boundary kind over arbitrary interior states, prescribed states and '
           'normals; the dynamic condition is evaluated in each flow regime (supersonic/subsonic, in/outflow) and on the lines between them.')
    R.assume('the outward normal is a unit vector')
    kinds = None
    for C, name in ALL:
        for dim in (1, 2, 3):
            e = get(C, dim, False)
            kinds = kinds or enum_values(e.P)
            f = e.fn('apply_boundary_conditions')
            raw, data = e.raw(), e.raw('_d')

            def bc(kind, U, n, D):
                return e.probe('boundary', T.const(kinds[kind]), U, vec(*n), D, scalar=True)

            def ok(what, got, want, rule):
                R.count('boundary obligations')
                R.ok('%s:%s' % (e.tag, what), isinstance(got, Arr) and any(one(got, w) for w in want), f, rule,
                     lambda: first_difference(got, want[0]) if isinstance(got, Arr) else pretty(got)[:200])
            normals = [('', names('n', dim))] if dim > 1 else [('+', [ONE]), ('-', [-ONE])]
            for tag, n in normals:
                ok('dirichlet' + tag, bc('dirichlet', raw, n, data), [data], 'a Dirichlet boundary takes the prescribed state')
                ok('do_nothing' + tag, bc('do_nothing', raw, n, data), [raw], 'a do-nothing boundary keeps the state')
                ok('periodic' + tag, bc('periodic', raw, n, data), [raw], 'a periodic boundary keeps the state')
                if C is Scalar:
                    continue
                m = raw.e[1:1 + dim]
                tail = raw.e[1 + dim:]
                mn = dot(m, n)
                ok('slip' + tag, bc('slip', raw, n, data), [vec(raw.e[0], *[x - mn * y for x, y in zip(m, n)], *tail)],
                   'a slip boundary removes the normal momentum and nothing else')
                ok('no_slip' + tag, bc('no_slip', raw, n, data), [vec(raw.e[0], *[ZERO] * dim, *tail)],
                   'a no-slip boundary removes the momentum and nothing else')
                if C is ShallowWater:
                    ok('dirichlet_momentum' + tag, bc('dirichlet_momentum', raw, n, data), [vec(raw.e[0], *data.e[1:])],
                       'the depth is kept, the discharge is prescribed')
                if C not in (Euler, ShallowWater):
                    continue
                x, a = S('x', True), S('a', True)
                for what, V, ai in (('supersonic inflow', -a - x, a), ('sonic inflow', -a, a), ('subsonic inflow', -x, a), ('no flow', ZERO, a),
                                    ('subsonic outflow', x, a), ('sonic outflow', a, a), ('supersonic outflow', a + x, a)):
                    w = names('w', dim)
                    rest = dot(w[1:], n[1:])
                    u = [(V - rest) * T.inv(n[0])] + w[1:]
                    if C is Euler:
                        rho = S('rho', True)
                        p = rho * ai * ai / GAMMA
                        U = e.cons(rho, u, p)
                        rd, ud, ad = S('rho_d', True), names('ud', dim), S('a_d', True)
                        pd = rd * ad * ad / GAMMA
                        D = e.cons(rd, ud, pd)
                        prim, primd = (rho, u, p, ai), (rd, ud, pd, ad)

                        def presc(P1, P2, base):
                            """P1 gives R1, P2 gives R2, base entropy and tangential velocity"""
                            R1 = dot(P1[1], n) - 2 * P1[3] / GM1
                            R2 = dot(P2[1], n) + 2 * P2[3] / GM1
                            s = base[2] * T.power(base[0], -GAMMA)
                            bn = dot(base[1], n)
                            perp = [b - bn * k for b, k in zip(base[1], n)]
                            r = T.power(T.inv(GAMMA * s) * T.power(GM1 / 4 * (R2 - R1), T.const(2)), T.inv(GM1))
                            vn = HALF * (R1 + R2)
                            return vec(r, *[r * (vn * k + q) for k, q in zip(n, perp)],
                                       s * T.power(r, GAMMA) / GM1 + HALF * r * (vn * vn + sq(perp)))
                    else:
                        h, hd = ai * ai / G, S('a_d', True) * S('a_d', True) / G
                        U = vec(h, *[h * k for k in u])
                        ud = names('ud', dim)
                        D = vec(hd, *[hd * k for k in ud])
                        prim, primd = (h, u, None, ai), (hd, ud, None, S('a_d', True))

                        def presc(P1, P2, base):
                            R1 = dot(P1[1], n) - 2 * P1[3]
                            R2 = dot(P2[1], n) + 2 * P2[3]
                            bn = dot(base[1], n)
                            perp = [b - bn * k for b, k in zip(base[1], n)]
                            r = T.power((R2 - R1) / 4, T.const(2)) / G
                            vn = HALF * (R1 + R2)
                            return vec(r, *[r * (vn * k + q) for k, q in zip(n, perp)])
                    inflow = presc(primd, prim, primd)
                    outflow = presc(primd, prim, prim)
                    want = {'supersonic inflow': [D], 'sonic inflow': [D, inflow], 'subsonic inflow': [inflow], 'no flow': [inflow, outflow],
                            'subsonic outflow': [outflow], 'sonic outflow': [outflow, U], 'supersonic outflow': [U]}[what]
                    asm = [h - e.cut_small for h in ((prim[0], primd[0]) if C is ShallowWater else ())] + ([a - x] if 'sub' in what else [])
                    with T.assuming(*asm):
                        ok('dynamic%s:%s' % (tag, what), bc('dynamic', U, n, D), want,
                           'the incoming characteristic takes the prescribed value, the outgoing one, entropy and tangential velocity come from the upstream side')
    R.floor('boundary obligations', 100)
