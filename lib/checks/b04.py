"""B04: the explicit update is the documented convex-limited update"""
from scheme import *
from checks.b02 import looks_full


def one(R, cfg):
    s, u = build(cfg)
    f = s.f
    ref = u.ref
    m = u.ncomp()
    R.count('configurations')

    def same(what, v, w, rule):
        R.count('update obligations')
        return R.ok('%s:%s' % (s.tag, what), v == w, f, rule, lambda: clip(v - w))

    def ok(what, cond, rule, detail=''):
        R.count('update obligations')
        return R.ok('%s:%s' % (s.tag, what), cond, f, rule, detail)

    def norm(x):
        return normalise(s.n(x), s)

    def stencil(loops, first):
        return all(l[-3:] == (str(first), 'row_length(i)', '1') or str((str(first), 'row_length(i)', '1'))[1:-1] in str(l) for l in loops) and len(loops) == 1

    sw = ref.sw
    seen = set()
    for p in u.low:
        rg = '%s..%s' % ranges(p)
        for a in writes(p, 'new'):
            seen.add('new')
            for k, x in enumerate(flat(a.value)):
                rest, body, loops = split_sum(norm(x))
                same('low:%s:%d' % (rg, k), body, norm(ref.tau * ref.minv(I) * ref.low(J, C, k)),
                     'the low-order update adds tau/m_i times interface flux and viscous flux of every neighbour')
                same('low-rest:%s:%d' % (rg, k), rest, norm(ref.tau * ref.minv(I) * ref.low(I, ZERO, k) + ref.U(I)[k] + ref.tau * ref.source(I, k)),
                     'the low-order update starts from the old state, its own flux and the nodal source')
                ok('low-stencil:%s:%d' % (rg, k), full(loops, 1), 'every neighbour enters the low-order update', str(loops))
        for a in writes(p, 'r'):
            seen.add('r')
            for k, x in enumerate(flat(a.value)):
                rest, body, loops = split_sum(norm(x))
                same('r:%s:%d' % (rg, k), body, norm(ref.r(J, C, k)), 'the high-order residual collects viscosity scaled by the indicator, weighted fluxes and sources of every neighbour')
                same('r-rest:%s:%d' % (rg, k), rest, norm(ref.r(I, ZERO, k) + ref.off('lumped_mass_matrix', I) * ref.highsource(I, k)),
                     'the high-order residual starts from the row itself')
                ok('r-stencil:%s:%d' % (rg, k), full(loops, 1), 'every neighbour enters the high-order residual', str(loops))
        for a in writes(p, 'pij_matrix'):
            col = s.n(a.col)
            if col == C:
                seen.add('p')
                for k, x in enumerate(flat(a.value)):
                    same('p:%s:%d' % (rg, k), norm(x), norm(ref.p(J, C, k)), 'the antidiffusive flux is the difference of high-order and low-order contribution of a neighbour')
    for w in ('new', 'r', 'p'):
        ok('written:' + w, w in seen, 'the low-order update stores the new state, the residual and the antidiffusive fluxes', '')
    it = cfg[3]
    ok('limit-phases', bool(u.limit) == (it > 0) and len(u.passes) == it, 'as many limiter passes as requested', '%d phases, %d passes' % (len(u.limit), len(u.passes)))
    if not it:
        return
    # second part of the antidiffusive flux, first limiter
    rl = s.n(T.app('row_length', I, pos=True))
    lam = rl - ONE
    minv = lambda x: ref.minv(x)
    lowreg = u.low[0].region
    at = lambda arr, reg, k=None: '%s@%s%s' % (arr, reg, '' if k is None else '[%d]' % k)
    names = {}
    for p in s.phases:
        for a in p.writes():
            names.setdefault(short(a.array), a.array)
    rname, pname, lname, bname = names['r'], names['pij_matrix'], names['lij_matrix'], names['bounds']
    newname = [n for n in names.values() if short(n).startswith('new_state_vector')][0]
    R_ = lambda x, k: T.app(at(rname, lowreg, k), x)
    M, Mc = ref.off('lumped_mass_matrix', I), ref.off('lumped_mass_matrix', J)
    mij, minvij = ref.off('mass_matrix', I, C), ref.off('mass_matrix_inverse', I, C)
    if s.dg:
        bij, bji = M * minvij, Mc * minvij
    else:
        bij, bji = -mij * minv(J), -mij * minv(I)
    P = [norm(ref.tau * minv(I) * lam * (T.app(at(pname, lowreg, k), I, C) + bij * R_(J, k) - bji * R_(I, k))) for k in range(m)]
    got = set()
    bounds = None
    for p in u.limit:
        rg = '%s..%s' % ranges(p)
        for a in writes(p, 'pij_matrix'):
            if s.n(a.col) != C:
                continue
            got.add('p')
            for k, x in enumerate(flat(a.value)):
                same('P:%s:%d' % (rg, k), norm(x), P[k], 'the antidiffusive flux is completed with the mass-matrix correction and scaled with tau/m_i times the number of neighbours')
        for a in writes(p, 'lij_matrix'):
            if s.n(a.col) != C:
                continue
            got.add('l')
            v = norm(a.value)
            x = single(v)
            good = x is not None and x.name == 'Limiter.limit<0>' and len(x.args) >= 3 and span(x)
            ok('l:%s' % rg, good, 'the first limiter coefficient comes from the limiter', lambda: clip(v))
            if good:
                b, st, d = x.args[:3]
                # the values of the tables at the end of the previous phases
                ok('l-state:%s' % rg, tuple(st) == tuple(T.app(at(newname, lowreg, k), I) for k in range(m)), 'the limiter starts at the low-order state of the row', lambda: clip(st))
                ok('l-flux:%s' % rg, tuple(d) == tuple(P), 'the limiter limits the completed antidiffusive flux of the entry', lambda: clip(d))
                if bounds is None:
                    bounds = tuple(b)
                ok('l-bounds:%s' % rg, tuple(b) == bounds and own_bounds(b, bname, s.dg), 'the limiter uses the bounds of the row', lambda: clip(b))
    for w in ('p', 'l'):
        ok('limit-written:' + w, w in got, 'every neighbour gets a completed flux and a limiter coefficient', '')
    limreg = u.limit[0].region if u.limit else None
    lcur, lreg, ureg = lname, limreg, lowreg
    for n, ps in enumerate(u.passes):
        last = n + 1 == it
        wrote = set()
        nxt = None
        for p in ps:
            rg = '%s..%s' % ranges(p)
            l = T.app(at(lcur, lreg), I, C)
            lt = T.app('%s@%s^T' % (lcur, lreg), I, C)
            lm = T.vmin(l, lt)
            ps_ = [T.app(at(pname, limreg, k), I, C) for k in range(m)]
            newU = []
            for a in writes(p, 'new'):
                wrote.add('new')
                for k, x in enumerate(flat(a.value)):
                    v = norm(x)
                    newU.append(v)
                    rest, body, loops = split_sum(v)
                    same('pass%d:%s:%d' % (n, rg, k), body, norm(lm * T.inv(lam) * ps_[k]),
                         'a pass adds the average of the completed fluxes scaled with the smaller of the coefficients of the entry and its transpose')
                    same('pass%d-rest:%s:%d' % (n, rg, k), rest, T.app(at(newname, ureg, k), I), 'a pass continues from the state of the previous one')
                    ok('pass%d-stencil:%s:%d' % (n, rg, k), full(loops, 1), 'every neighbour enters the limited update', str(loops))
            for a in writes(p, 'lij_matrix_next') + (writes(p, 'lij_matrix') if n else []):
                if last or s.n(a.col) != C:
                    continue
                wrote.add('l')
                nxt = a.array
                v = norm(a.value)
                lim = [x for x in v.deep_atoms() if x.name == 'Limiter.limit<0>']
                good = len(lim) == 1 and span(lim[0])
                ok('next%d:%s' % (n, rg), good and v == (ONE - lm) * T.atom_value(lim[0]), 'the next coefficient is the limited part of what is left of the flux', lambda: clip(v))
                if good:
                    b, st, d = lim[0].args[:3]
                    ok('next%d-state:%s' % (n, rg), list(st) == newU, 'the second limiter starts at the limited state', lambda: clip(st))
                    want = [norm((ONE - lm) * q) for q in ps_]
                    ok('next%d-flux:%s' % (n, rg), list(d) == want, 'the second limiter limits what is left of the flux', lambda: clip(d))
                    ok('next%d-bounds:%s' % (n, rg), stored_bounds(b, bounds, u, limreg, norm), 'both limiters use the same bounds', lambda: clip(b))
        ok('pass%d-written' % n, wrote == ({'new'} if last else {'new', 'l'}), 'a pass updates the state and, unless it is the last, the coefficients', str(wrote))
        lcur, lreg, ureg = nxt or lcur, ps[0].region, ps[0].region


def single(v):
    if len(v.t) == 1:
        (m, c), = v.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return None


def span(x):
    """limits over the full range [0, 1]"""
    r = x.args[3:]
    return not r or [q.const() if isinstance(q, Value) else q for q in r] == [0, 1]


def full(loops, first):
    if len(loops) != 1:
        return False
    t = str(next(iter(loops)))
    return re.search(r"\b%s\b'?, '?row_length\(i\)'?, '?1\b" % first, t) is not None


def own_bounds(b, bname, dg):
    if dg:
        return all(isinstance(x, Value) for x in b)
    for k, x in enumerate(b):
        y = single(x)
        if y is None or not y.name.startswith(bname + '@') or not y.name.endswith('[%d]' % k) or tuple(y.args) != (I,):
            return False
    return True


def stored_bounds(b, first, u, limreg, norm):
    """the bounds the first limiter used, or what that region stored of them for the row"""
    if first is None:
        return False
    if tuple(b) == first:
        return True
    for k, x in enumerate(b):
        y = single(x)
        t = table(y) if y is not None else None
        if t is None or t[1] != str(limreg) or tuple(y.args) != (I,):
            return False
        vals = []
        for p in u.limit:
            w = [flat(a.value) for a in p.writes(t[0])]
            vals.append([norm(v[int(t[3].strip('[]'))]) for v in w])
        if any(v != [first[k]] for v in vals):
            return False
    return True


def run(R):
    preload()
    R.rule('The normal forms of every table entry written by the step (new state, residual, antidiffusive flux, limiter coefficients) for an arbitrary row and neighbour '
           'are compared with the documented update, including the limiter passes; each table read must denote the completed value of the phase before.')
    R.assume('interface fluxes are linear in the stencil vector and symmetric in the states (A02, A03); the stored lumped mass inverse is 1/m (D04)')
    R.each(configs(R.tier), one)
    R.floor('configurations', 6)
    R.floor('update obligations', 800)
