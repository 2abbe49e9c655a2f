"""B01: pairwise conservation of the explicit update"""
from scheme import *


def nosource(v):
    def fn(x, args):
        if x.name.startswith('nodal_source'):
            return ZERO
        return None
    return T.rewrite(v, fn)


def one(R, cfg):
    s, u = build(cfg)
    f = s.f
    R.count('configurations')
    U = u.ref.U(I)

    def ok(what, cond, rule, detail=''):
        R.count('conservation obligations')
        R.ok('%s:%s' % (s.tag, what), cond, f, rule, detail)

    def norm(v):
        return normalise(nosource(s.n(v)), s)

    def anti(v, what, rule):
        """v + v seen from the neighbour vanishes"""
        w = normalise(swapped(v), s)
        z = v + w
        if s.eq == 'shallow_water':
            z = flatbed(z)
        z = transposed_p(z)
        ok(what, z.is_zero(), rule, lambda: 'unbalanced: ' + clip(z))

    def flatbed(z):
        # over flat bathymetry every component of the flux is symmetric (A03); the mass component always is
        def fn(x, args):
            if x.kind == 'app' and 'flux_divergence[' in x.name and T.keyof(args[1]) < T.keyof(args[0]):
                return T.app(x.name, args[1], args[0])
            return None
        return T.rewrite(z, fn)

    pver = u.version('pij_matrix', u.limit) if u.limit else None

    def transposed_p(z):
        def fn(x, args):
            t = table(x)
            if t and short(t[0]) == 'pij_matrix' and t[2] and t[1] == pver:
                return -T.app('%s@%s%s' % (t[0], t[1], t[3]), *args)
            return None
        return T.rewrite(z, fn)

    M = u.ref.off('lumped_mass_matrix', I)
    for p in u.low:
        rg = '%s..%s' % ranges(p)
        for a in writes(p, 'new'):
            for k, x in enumerate(flat(a.value)):
                rest, body, loops = split_sum(norm(x))
                anti(M * body, 'low:%s:%d' % (rg, k), 'the low-order exchange of mass between two rows is antisymmetric')
                d = rest - U[k]
                z = zero_diagonal(d)
                ok('low-diagonal:%s:%d' % (rg, k), z.is_zero(), 'a row exchanges nothing with itself', lambda: clip(z))
        for a in writes(p, 'pij_matrix'):
            if s.n(a.col) != C:
                continue
            for k, x in enumerate(flat(a.value)):
                anti(norm(x), 'p:%s:%d' % (rg, k), 'the antidiffusive flux of a pair of rows is antisymmetric')
    stored = {}
    for p in u.limit:
        rg = '%s..%s' % ranges(p)
        for a in writes(p, 'pij_matrix'):
            if s.n(a.col) != C:
                continue
            for k, x in enumerate(flat(a.value)):
                stored.setdefault((short(a.array), k), norm(x))
    for n, ps in enumerate(u.passes):
        for p in ps:
            rg = '%s..%s' % ranges(p)
            for a in writes(p, 'new'):
                for k, x in enumerate(flat(a.value)):
                    rest, body, loops = split_sum(norm(x))

                    def fn(y, args):
                        t = table(y)
                        if t and short(t[0]) == 'pij_matrix' and t[1] != pver:
                            q = stored.get(('pij_matrix', int(t[3].strip('[]'))))
                            if q is not None:
                                return q if not t[2] else swapped(q)
                        return None
                    body = T.rewrite(body, fn)
                    anti(M * body, 'limited%d:%s:%d' % (n, rg, k), 'the limited correction exchanged by two rows is antisymmetric')
                    r = next(iter(rest.atoms()), None)
                    t = table(r) if r is not None else None
                    ok('start%d:%s:%d' % (n, rg, k), t is not None and rest == T.atom_value(r) and t[0] == a.array and t[3] == '[%d]' % k and r.args[0] == I,
                       'a correction is added to the state of the same row', clip(rest))


def zero_diagonal(d):
    def fn(x, args):
        if x.kind == 'app' and x.name.startswith('this.offline_data_.cij_matrix_') and len(args) == 2 and args[1].is_zero():
            return ZERO
        if x.kind == 'app' and x.name.startswith('equilibrated_states[1]') and T.keyof(args[0]) == T.keyof(args[1]):
            return T.app(x.name.replace('[1]', '[0]', 1), *args)
        return None
    return T.rewrite(d, fn)


def run(R):
    preload()
    R.rule('The step is summarised over an arbitrary row i and neighbour j; the contribution of j to row i, weighted with the lumped mass, '
           'is added to the contribution seen from j (i and j exchanged, c_ji = -c_ij, symmetric matrices) and must vanish as a normal form.')
    R.assume('c_ij = -c_ji away from the boundary; the mass, incidence and viscosity matrices are symmetric (the latter is B02); interface fluxes cancel pairwise (A03)')
    R.each(configs(R.tier), one)
    R.floor('configurations', 6)
    R.floor('conservation obligations', 200)
