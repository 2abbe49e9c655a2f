"""Restarting a time step."""
import export
import terms as T
from terms import Value
from interp import pretty, AnalysisError
from terms import ZERO, ONE
from rk import Integrator, Rejected
from scheme import build, configs, clip, ranges, writes, I, C, preload
from checks.b06 import EQS

U = T.sym('U')


def unfold(x):
    v = x.get('state_vector')
    for b in reversed(list(x.bases)):
        v = T.subst(v, {next(iter(b.atoms())): x.bases[b]})
    return v


def one(R, cfg):
    eq, dim, scheme = cfg
    tag = '%s:%dd:%s' % cfg
    x = Integrator(eq, dim, scheme, 'bang_bang_control')
    f = x.f

    def ok(what, cond, rule, detail=''):
        R.count('restart obligations')
        return R.ok('%s:%s' % (tag, what), cond, f, rule, detail)
    ret = x.step()
    R.count('schemes')
    n = len(x.steps)
    final, value = unfold(x), ret
    protocol(ok, x, 'plain', 0)
    for k in range(1, n + 1):
        y = Integrator(eq, dim, scheme, 'bang_bang_control')
        try:
            r = y.step(throw_at=k)
        except Rejected:
            ok('caught:%d' % k, False, 'a rejected stage restarts the step under bang-bang control', '')
            continue
        R.count('rejected stages')
        ok('caught:%d' % k, y.handlers == 1, 'a rejected stage restarts the step under bang-bang control', '%d handlers' % y.handlers)
        sv, prep = y.at_handler
        ok('old:%d' % k, sv.get('state_vector', U) == U, 'the state at the beginning of the step is intact when the step is repeated', lambda: pretty(sv.get('state_vector'))[:200])
        second = [s for s in y.steps if s.attempt == 1]
        ok('again:%d' % k, len(second) == n and not any(s.attempt > 1 for s in y.steps), 'all stages are repeated', '%d of %d' % (len(second), n))
        ok('same:%d' % k, unfold(y) == final and r == value, 'the repeated step computes the same formula', lambda: pretty(y.get('state_vector'))[:200])
        protocol(ok, y, 'reject%d' % k, 1)
    # without recovery the rejection leaves the integrator
    z = Integrator(eq, dim, scheme, 'none')
    left = False
    try:
        z.step(throw_at=1)
    except Rejected:
        left = True
    except AnalysisError:
        left = True
    ok('none', left or z.handlers == 1 and not [s for s in z.steps if s.attempt], 'without recovery no second attempt is made', '')


def protocol(ok, x, tag, attempts):
    for s in x.steps:
        w = '%s:%d:%d' % (tag, s.attempt, s.n)
        strategy = x.vio.get(int(s.strategy.const())) if isinstance(s.strategy, Value) and s.strategy.const() is not None else pretty(s.strategy)
        ok(w + ':strategy', strategy == ('warn' if s.attempt else 'raise_exception'),
           'the first attempt rejects invariant-domain violations, the second one only warns', strategy)
        if s.kind == 'H':
            c = T.sym('this.cfl_min_') if s.attempt else T.sym('this.cfl_max_')
            ok(w + ':cfl', s.cfl == c, 'the first attempt uses the maximal CFL number, the second one the minimal CFL number', lambda: pretty(s.cfl))
            ok(w + ':prepared', s.prepared is not None and s.prepared[0] == s.value, 'the old state is prepared after its last change', '')
            for i, (p, v) in enumerate(zip(s.stageprep, s.stagevals)):
                ok(w + ':stage%d' % i, p is not None and p[0] == v, 'a stage is prepared after its last change', '')
        ok(w + ':alias', s.new not in [s.old] + s.stages, 'the new state does not overwrite a state the step reads', '%s %s' % (s.new, [s.old] + s.stages))


def run(R):
    export.programs(['%s:time_integrator.cc' % e for e in EQS])
    R.rule('Every scheme is executed abstractly with a rejection in each of its stages in turn; what the handler sees and what the second attempt computes is compared with an unrejected step.')
    en = export.programs(['euler:time_integrator.cc'])['euler:time_integrator.cc'].enums['ryujin::TimeSteppingScheme']
    names = [n for n, _ in en['vals']]
    cfgs = [(e, d, n) for e in EQS for d in (1, 2, 3) for n in names]
    if R.tier == 'quick':
        cfgs = [(e, d, n) for e, d, n in cfgs if (e, d) in (('euler', 1), ('navier_stokes', 2), ('shallow_water', 3))]
    R.each(cfgs, one)
    preload()
    R.rule('The rejection flag of the hyperbolic step is a disjunction of the limiter failures of every entry of every row, reduced over all ranks.')
    R.each(configs(R.tier), module)
    R.floor('decision obligations', 200)
    R.floor('schemes', 20)
    R.floor('rejected stages', 40)
    R.floor('restart obligations', 400)


# -- the decision taken by the hyperbolic step ------------------------------------------------------
def quantify(v, s, fail):
    """replaces boolean recurrences over 'phi or fail' / 'phi and not fail' by the quantified statement"""
    seen = []

    def ev(body, phi, x, a, b):
        return T.restrict(T.restrict(body, phi, bool(a)), x, bool(b))

    def fn(x, args):
        if x.kind != 'app' or x.name != 'recur':
            return None
        la, phi, body, init = args
        ph = next(iter(phi.atoms()))
        body = T.restrict(body, next(iter(T.eq0(ONE - T.app('row_length', I, pos=True)).atoms())), False)   # rows without neighbours have no entries
        cand = [y for y in body.atoms() if fail(y)]
        if len(cand) != 1:
            return None
        y = cand[0]
        t = [[ev(body, ph, y, a, b) for b in (0, 1)] for a in (0, 1)]
        if y.name == 'fails':           # true: some entry failed
            t = [[r[1], r[0]] for r in t]
        e = T.boolapp('fails', tuple(la), T.atom_value(y))
        seen.append(y)
        if t == [[ONE, ZERO], [ONE, ONE]]:      # phi or fail
            return ONE - (ONE - init) * (ONE - e)
        if t == [[ZERO, ZERO], [ZERO, ONE]]:    # phi and not fail
            return init * (ONE - e)
        return None
    for _ in range(6):
        w = T.rewrite(v, fn)
        if w == v:
            break
        v = w
    return v, seen


def module(R, cfg):
    s, u = build(cfg)
    f = s.f
    R.count('configurations')

    def ok(what, cond, rule, detail=''):
        R.count('decision obligations')
        return R.ok('%s:%s' % (s.tag, what), cond, f, rule, detail)
    ors = [e for e in s.marks('collective') if e.name == 'logical_or']
    throws = [e for e in s.st.events if getattr(e, 'name', '') == 'throw' and 'Restart' in str(getattr(e.args[0], 's', ''))]
    ok('throw', len(throws) == 1, 'one place rejects the step', str(len(throws)))
    if len(throws) != 1:
        return
    en = s.st.P.enums.get('ryujin::IDViolationStrategy')
    raise_ = [int(v) for n, v in en['vals'] if n == 'raise_exception'][0]
    warn = [int(v) for n, v in en['vals'] if n == 'warn'][0]
    strategy = T.sym('this.id_violation_strategy_')
    g = s.n(throws[0].guard)
    red = [x for x in g.atoms() if x.name == 'MPI.logical_or']
    if not ok('collective', len(red) == 1 and len(ors) == 1 and ors[0].guard == ONE, 'whether to reject is decided by one reduction over all ranks', clip(g)):
        return
    red = red[0]
    rest = T.restrict(g, red, True)
    ok('off', T.restrict(g, red, False).is_zero(), 'no rejection without a violation', clip(g))
    for nm, val, want in (('raise_exception', raise_, ONE), ('warn', warn, ZERO)):
        ok('strategy:' + nm, T.subst(rest, {strategy: T.const(val)}) == want, 'a violation rejects the step under raise_exception and only counts under warn', clip(rest))
    flag, seen = quantify(red.args[0], s, lambda y: y.name in ('Limiter.limit<1>', 'fails'))
    if not u.limit:
        ok('flag', flag.is_zero(), 'without limiting no violation is signalled', clip(flag))
        return
    lims = {y for y in seen if y.name == 'Limiter.limit<1>'}
    want = ONE
    for p in u.limit:
        lo, hi = p.range
        rows = [('loop', 0) + (s.n(lo), s.n(hi)), ]
        for y in sorted(lims):
            e = T.boolapp('fails', ('loop', 1, ONE, T.app('row_length', I, pos=True), ONE), T.atom_value(y))
            want = want * (ONE - T.boolapp('fails', ('loop', 0, s.n(lo), s.n(hi), ONE), e))
    ok('entries', len(lims) == 1, 'one limiter success per entry decides', str(len(lims)))
    ok('flag', flag == ONE - want, 'a violation in any entry of any row is signalled', lambda: clip(flag))
    for p in u.limit:
        for a in writes(p, 'lij_matrix'):
            if s.n(a.col) != C:
                continue
            l = [x for x in s.n(a.value).atoms() if x.name == 'Limiter.limit<0>']
            ok('same-call:%s..%s' % ranges(p), len(l) == 1 and len(lims) == 1 and l[0].args == next(iter(lims)).args,
               'the success of the first limiter pass decides', '')
