"""E02: the time loop advances, writes and stops as configured"""
from trace import *
from memory import Loop
from checks.e01 import Part, OPAQUE, EQ, S
import export

RULES = {
    'advance': 'every cycle advances the time by the step size the integrator returns for the current state, time and final time',
    'stop': 'the loop ends exactly when the final time is reached, after everything due at that time has been written',
    'tick': 'at the first time not before a multiple of the granularity everything due is written once, under consecutive numbers',
    'kind': 'each kind of output is made at its own multiples of the tick, if enabled, for the prepared state, with its name, time and number',
    'adapt': 'the mesh is analysed and adapted before the step, if enabled',
    'error': 'the errors reported are the sums over the selected components of the norms of the difference to the analytic state at the same time',
}


class Ctx:
    def __init__(self, R, key, f):
        self.R, self.key, self.f = R, key, f

    def ok(self, key, cond, rule, detail=''):
        self.R.count('obligations')
        self.R.ok('E02:%s:%s' % (self.key, key), bool(cond), self.f, RULES[rule], detail)
        return bool(cond)


def B(n):
    return T.boolsym('tl.' + n)


def loop(R, P, eq, dim):
    m = Part(P, 'run', dim)
    C = Ctx(R, '%s:%d:run' % (eq, dim), m.f)
    tr = m.tr
    steps = [e for e in tr.calls('step')]
    if not C.ok('one step', len(steps) == 1 and len(steps[0].loops) == 1, 'advance', lambda: steps):
        return
    st = steps[0]
    L = st.loops[0]
    state = plain(path(st.value[1]))
    tm = st.value[2]
    name_t = [k for k, c in L.carried.items() if isinstance(c[1], Value) and (c[1] - tm).is_zero()]
    C.ok('current', len(name_t) == 1 and state.startswith('#') and plain(path(st.value[0])) == 'tl.time_integrator_', 'advance', lambda: (st, L))
    if len(name_t) != 1:
        return
    enf, tf = B('enforce_t_final_'), S('tl.t_final_')
    C.ok('limit', (st.value[3] - (enf * tf + (ONE - enf) * S('dblmax'))).is_zero(), 'advance', lambda: show(st.value[3]))
    _, head, end, after = L.carried[name_t[0]]
    inc = end - head
    a = list(inc.atoms())
    tau = T.app('value of step', *[x if isinstance(x, Value) else pretty(x) for x in st.value[1:]])
    C.ok('time', (inc - tau).is_zero(), 'advance', lambda: show(end))
    # the end
    C.ok('one exit', len(L.breaks) == 1 and L.cond == ONE, 'stop', lambda: L.breaks)
    if len(L.breaks) != 1:
        return
    stop = L.breaks[0]
    relax = None
    for x in stop.deep_atoms() if hasattr(stop, 'deep_atoms') else stop.atoms():
        if x.kind == 'bool' and x.name in ('gt0', 'ge0'):
            # c * head - d * t_final with 1 - 1e-9 <= c / d' <= 1
            v = x.args[0]
            ca, cb = coef(v, head), coef(v, tf)
            if ca and cb and (v - ca * head - cb * tf).is_zero():
                q = -cb / ca if ca else None
                if q is not None and q != 1:
                    relax = -ca / cb
    plainly = T.ge0(head - tf)
    loose = None
    if relax is not None:
        loose = T.ge0(head * T.const(1) - tf * T.const(1 / relax)) if relax > 0 else None
    good = (stop - plainly).is_zero() or (loose is not None and 1 <= relax <= 1 + T.Fraction(1, 10**9) and (stop - (enf * loose + (ONE - enf) * plainly)).is_zero())
    C.ok('exit', good, 'stop', lambda: (show(stop), relax))
    go = ONE - stop
    C.ok('step otherwise', (st.guard - go).is_zero(), 'stop', lambda: show(st.guard))
    # ticks
    cyc = [(k, c) for k, c in L.carried.items() if isinstance(c[1], Value) and any(isinstance(e.value[4], Value) and (e.value[4] - c[1]).is_zero() for e in tr.calls('output'))]
    if not C.ok('number', len(cyc) == 1, 'tick', lambda: (L, tr.calls('output'))):
        return
    n, (ninit, nh, ne, na) = cyc[0]
    tick = T.ge0(head - nh * S('tl.timer_granularity_'))
    C.ok('next number', (ne - nh - tick).is_zero(), 'tick', lambda: show(ne))
    outs = tr.calls('output')
    base = 'tl.base_name_'
    err = B('enable_compute_error_')
    for key, who, suffix, g, flag in (('solution', state, '-solution', tick, None), ('analytic', None, '-analytic_solution', tick * err, None)):
        o = [e for e in outs if pieces(e.value[2]) == name(base, suffix)]
        good = len(o) == 1 and o[0].loops == (L,) and (o[0].guard - g).is_zero() and (o[0].value[3] - head).is_zero() and (o[0].value[4] - nh).is_zero()
        C.ok('output:' + key, good, 'tick', lambda: outs)
        if not good:
            continue
        p = plain(path(o[0].value[1]))
        if who:
            C.ok('state:' + key, p == who and tr.at(o[0]) < tr.at(st), 'tick', lambda: o)
        else:
            fill = [e for e in tr.events if e.kind == 'call' and e.arr in ('=', 'operator=') and plain(path(e.value[0])) == p + '[0]' and tr.at(e) < tr.at(o[0])]
            ip = [e for e in tr.calls('interpolate_hyperbolic_vector') if e.loops == (L,) and (e.value[1] - head).is_zero() and tr.at(e) < tr.at(o[0])]
            size = [e for e in tr.calls('reinit_state_vector') if plain(path(e.value[1])) == p and tr.at(e) < tr.at(o[0])]
            good = p != state and len(fill) == 1 and len(ip) == 1 and len(size) == 1 and tr.at(size[0]) < tr.at(fill[0]) and \
                all((g * (ONE - e.guard)).is_zero() for e in fill + size) and 'interpolate_hyperbolic_vector|%s' % pretty(head) in (path(fill[0].value[1]) or '')
            C.ok('state:' + key, good, 'tick', lambda: (fill, ip, size))
    C.ok('nothing else written', len(outs) == 2, 'tick', lambda: outs)
    qn = B('enable_compute_quantities_')
    acc, wo = tr.calls('accumulate'), tr.calls('write_out')
    C.ok('accumulate', len(acc) == 1 and acc[0].loops == (L,) and (acc[0].guard - qn).is_zero() and plain(path(acc[0].value[1])) == state and (acc[0].value[2] - head).is_zero(), 'tick', lambda: acc)
    good = len(wo) == 1 and wo[0].loops == (L,) and plain(path(wo[0].value[1])) == state and (wo[0].value[2] - head).is_zero() and (wo[0].value[3] - nh).is_zero()
    if good:
        due = T.eq0(T.app('op%', nh, S('tl.timer_compute_quantities_multiplier_')))
        good = (wo[0].guard - tick * qn * due).is_zero() and acc and tr.at(acc[0]) < tr.at(wo[0])
    C.ok('write out', good, 'tick', lambda: wo)
    # adaptation
    ada = B('enable_mesh_adaptivity_')
    an, ad = tr.calls('analyze'), tr.calls('adapt_mesh_and_transfer_state_vector')
    counter = [c[1] for c in L.carried.values() if isinstance(c[1], Value) and an and isinstance(an[0].value[3], Value) and (c[1] - an[0].value[3]).is_zero()]
    C.ok('analyse', len(an) == 1 and an[0].loops == (L,) and (an[0].guard - go * ada).is_zero() and plain(path(an[0].value[1])) == state and (an[0].value[2] - head).is_zero() and counter, 'adapt', lambda: an)
    good = len(ad) == 1 and len(an) == 1 and tr.at(an[0]) < tr.at(ad[0]) < tr.at(st)
    if good:
        need = [x for x in ad[0].guard.atoms() if 'need_mesh_adaptation' in pretty(T.atom_value(x))]
        good = len(need) == 1 and (ad[0].guard - go * ada * T.atom_value(need[0])).is_zero()
    C.ok('adapt', good, 'adapt', lambda: ad)
    if counter:
        c = next(c for c in L.carried.values() if isinstance(c[1], Value) and (c[1] - counter[0]).is_zero())
        C.ok('cycles', (c[2] - c[1] - 1).is_zero(), 'adapt', lambda: c)
    er = tr.calls('compute_error')
    C.ok('final error', len(er) == 1 and not er[0].loops and (er[0].guard - err).is_zero() and plain(path(er[0].value[1])) == state and (er[0].value[2] - after).is_zero(), 'error', lambda: er)
    # the state is changed by nothing else
    ch = [e for e in tr.events if e.loops == (L,) and e.kind == 'call' and e.arr not in ('step', 'output', 'accumulate', 'write_out', 'analyze', 'prepare_state_vector', 'adapt_mesh_and_transfer_state_vector')
          and any((plain(path(x)) or '').startswith(state) for x in e.value if x is not None)]
    C.ok('state', not ch, 'advance', lambda: ch)


def coef(v, x):
    """coefficient of a variable in a linear form"""
    d = T.diff(v, next(iter(x.atoms())))
    return d.const()


def output(R, P, eq, dim):
    o = Part(P, 'output', dim)
    C = Ctx(R, '%s:%d:output' % (eq, dim), o.f)
    tr = o.tr
    state, nm, t, cycle = o.order[:4]

    def due(mult, flag):
        return T.eq0(T.app('op%', S(cycle), S('tl.' + mult))) * B(flag)
    full, lev = due('timer_output_full_multiplier_', 'enable_output_full_'), due('timer_output_levelsets_multiplier_', 'enable_output_levelsets_')
    either = full + lev - full * lev
    s = tr.calls('schedule_output')
    if not C.ok('one', len(s) == 1 and not s[0].loops, 'kind', lambda: s):
        return
    v = s[0].value
    C.ok('when', (s[0].guard - either).is_zero(), 'kind', lambda: show(s[0].guard))
    C.ok('what', path(v[1]) == state and plain(path(v[2])) == nm and (v[3] - S(t)).is_zero() and (v[4] - S(cycle)).is_zero() and plain(path(v[0])) == 'tl.vtu_output_', 'kind', lambda: v)
    C.ok('kinds', (s[0].guard * (T.lift(v[5]) - full)).is_zero() and (s[0].guard * (T.lift(v[6]) - lev)).is_zero(), 'kind', lambda: (show(v[5]), show(v[6])))
    p = [e for e in tr.calls('prepare_state_vector') if path(e.value[1]) == state and (e.value[2] - S(t)).is_zero()]
    q = [e for e in tr.calls('compute') if plain(path(e.value[0])) == 'tl.postprocessor_' and path(e.value[1]) == state]
    C.ok('prepared', len(p) == 1 and len(q) == 1 and tr.at(p[0]) < tr.at(q[0]) < tr.at(s[0]) and (s[0].guard * (ONE - p[0].guard * q[0].guard)).is_zero(), 'kind', lambda: (p, q))


class Error(Part):
    def __init__(self, P, dim):
        self.integrals = {}
        super().__init__(P, 'compute_error', dim, OPAQUE)


def error(R, P, eq, dim):
    integrals = {}
    codes = {n: int(x) for n, x in P.enums['dealii::VectorTools::NormType']['vals']} if 'dealii::VectorTools::NormType' in P.enums else {'L1_norm': 1, 'L2_norm': 2}

    class E(Part):
        def __init__(self):
            pass
    import checks.e01 as e01
    old = e01.Trace

    class Watched(old):
        def __init__(self, *a, **k):
            super().__init__(*a, **k)
            self.I.hooks['integrate_difference'] = self.integral

        def integral(self, I, e, fr):
            a = [path(x) if not isinstance(x, Value) else x for x in (self.val(x, fr) for x in e['a'])]
            own = [x for x in a if isinstance(x, str) and x.startswith('dealii::Vector<')]
            dst = next(x for x in own)
            self.note('call', 'integrate_difference', None, a, e)
            k = 5000 + len(integrals)
            integrals[k] = self.events[-1]
            I.store[('ver', dst)] = T.const(k)
            return None
    e01.Trace = Watched
    try:
        m = Part(P, 'compute_error', dim)
    finally:
        e01.Trace = old
    C = Ctx(R, '%s:%d:error' % (eq, dim), m.f)
    tr = m.tr
    state, t = m.order[:2]
    p = tr.calls('prepare_state_vector')
    ip = tr.calls('interpolate_hyperbolic_vector')
    C.ok('states', len(p) == 1 and path(p[0].value[1]) == state and (p[0].value[2] - S(t)).is_zero() and len(ip) == 1 and (ip[0].value[1] - S(t)).is_zero() and not ip[0].loops, 'error', lambda: (p, ip))
    ex = tr.calls('extract_component')
    src = {state + '[0]': 'error', 'result of interpolate_hyperbolic_vector|%s' % t: 'analytic'}
    got = {src.get(plain(path(e.value[0]))): e for e in ex}
    if not C.ok('components', set(got) == {'error', 'analytic'} and len(ex) == 2 and got['error'].loops == got['analytic'].loops and len(got['error'].loops) == 1, 'error', lambda: ex):
        return
    L = got['error'].loops[0]
    vec = {k: plain(path(e.value[1])) for k, e in got.items()}
    idx = {k: e.value[2] for k, e in got.items()}
    C.ok('same component', (idx['error'] - idx['analytic']).is_zero(), 'error', lambda: ex)
    # the position of the name
    ent = 'tl.error_quantities_[head(%d, element of tl.error_quantities_)]' % L.id
    names = None
    found = [e for e in tr.calls('find') if path(e.value[3]) and plain(path(e.value[3])) == ent]
    good = len(found) == 1 and pretty(idx['error']) == 'distance(%s, find(%s, %s, %s))' % (path(found[0].value[1]), path(found[0].value[1]), path(found[0].value[2]), ent)
    C.ok('position', good, 'error', lambda: (show(idx['error']), found))
    C.ok('every entry', (L.cond - T.gt0(tr.size('tl.error_quantities_') - T.app('head', L.id, 'element of tl.error_quantities_'))).is_zero() and all(b.is_zero() for b in L.breaks), 'error', lambda: L)
    # the difference
    at0 = tr.at(got['error'])
    tch = tr.touching(vec['error'], at0, len(tr.events))
    minus = [e for e in tch if e.arr in ('operator-=', '-=')]
    uses = ('linfty_norm', 'integrate_difference')
    good = len(minus) == 1 and plain(path(minus[0].value[1])) == vec['analytic'] and (minus[0].guard - got['error'].guard).is_zero()
    changes = [e.arr for e in tch if e.arr not in uses]
    good = good and set(changes[:-1]) <= {'distribute', 'update_ghost_values'} and 'distribute' in changes and changes[-1] in ('operator-=', '-=') and \
        all(tr.at(e) > tr.at(minus[0]) for e in tch if e.arr in uses) and all((got['error'].guard * (ONE - e.guard)).is_zero() for e in tch if e.arr in ('distribute', 'update_ghost_values'))
    if good:
        i = [e.arr for e in tch]
        good = i.index('distribute') < i.index('update_ghost_values') < i.index(minus[0].arr)
    C.ok('difference', good, 'error', lambda: tch)
    ach = [e for e in tr.touching(vec['analytic'], tr.at(got['analytic']), len(tr.events)) if e.arr not in uses and e not in minus]
    C.ok('analytic kept', not [e for e in ach if e.arr != 'update_ghost_values'], 'error', lambda: ach)
    # the norms
    norm = B('error_normalize_')
    kinds = {}
    for nm, (init, head, end, after) in L.carried.items():
        if not isinstance(head, Value) or nm.startswith('element of'):
            continue
        inc = end - head
        e0 = T.restrict(inc, next(iter(norm.atoms())), 0)
        e1 = T.restrict(inc, next(iter(norm.atoms())), 1)
        k = kind(tr, e0, integrals, vec['error'], codes)
        if k is None:
            continue
        a = T.inv(T.lift(1) * e1) * e0 if False else None
        d = find_norm(e1, e0)
        k1 = kind(tr, d, integrals, vec['analytic'], codes) if d is not None else None
        C.ok('sum:' + nm, init.is_zero() and k1 == k, 'error', lambda: (show(inc), k, k1))
        kinds[nm] = k
    C.ok('norms', sorted(kinds.values()) == ['L1', 'L2', 'Linf'], 'error', lambda: (kinds, L))
    # what is printed
    prev = None
    shown = 0
    for e in tr.events:
        if e.kind != 'call' or e.arr != 'operator<<':
            continue
        x = e.value[-1]
        if isinstance(x, Value):
            nm = next((a.args[1][6:] for a in x.atoms() if a.name == 'head' and str(a.args[1]).startswith('after ')), None)
            if nm in kinds:
                shown += 1
                C.ok('label:%d' % shown, prev is not None and prev.strip('" =') == kinds[nm] and (x - L.carried[nm][3]).is_zero(), 'error', lambda: (prev, kinds[nm], e))
        elif path(x):
            prev = path(x)
    C.ok('shown', shown >= 3 and shown % 3 == 0, 'error', lambda: shown)


def find_norm(e1, e0):
    """d with e1 = e0 / d"""
    q = T.expanded(e1) if False else e1
    for a in e1.atoms():
        d = T.atom_value(a)
        for c in (d, T.inv(d)):
            if not c.is_zero() and (e1 - e0 * T.inv(c)).is_zero():
                return c
    # powers
    r = e1 * T.inv(e0)
    return T.inv(r)


def kind(tr, v, integrals, vec, codes):
    """which norm of which vector"""
    r = set()
    for a in apps(v):
        if a.name == 'linfty_norm' and plain(str(a.args[0])) == vec:
            w = T.atom_value(a)
            if any((v - x).is_zero() for x in (w, T.app('max', w, 'tl.mpi_communicator_'))):
                r.add('Linf')
        if a.name in ('l1_norm', 'l2_norm'):
            base, _, ver = str(a.args[0]).rpartition('@')
            e = integrals.get(int(ver)) if ver.isdigit() else None
            if e is None or vec not in e.value or not any(isinstance(x, str) and x.endswith('.dof_handler_') for x in e.value) or \
                    not any(isinstance(x, str) and 'ZeroFunction' in x for x in e.value):
                continue
            code = [int(x.const()) for x in e.value if isinstance(x, Value) and x.const() is not None][:1]
            w = T.atom_value(a)
            if a.name == 'l1_norm' and code == [codes['L1_norm']] and (v - T.app('sum', w, 'tl.mpi_communicator_')).is_zero():
                r.add('L1')
            if a.name == 'l2_norm' and code == [codes['L2_norm']] and (v - T.sqrt(T.app('sum', w * w, 'tl.mpi_communicator_'))).is_zero():
                r.add('L2')
    return r.pop() if len(r) == 1 else None


def apps(v):
    seen, out = set(), []

    def go(v):
        for a in v.atoms():
            if a in seen:
                continue
            seen.add(a)
            out.append(a)
            for x in a.args:
                if isinstance(x, Value):
                    go(x)
    if isinstance(v, Value):
        go(v)
    return out


def check(R, item):
    tu, eq = item
    P = export.programs([tu])[tu]
    for dim in (1, 2, 3):
        loop(R, P, eq, dim)
        output(R, P, eq, dim)
        error(R, P, eq, dim)


def run(R):
    for r in RULES.values():
        R.rule(r + '.')
    eqs = EQ if R.tier == 'thorough' else EQ[:2]
    R.each([('%s:time_loop.cc' % e, e) for e in eqs], check)
    R.floor('obligations', 150)
