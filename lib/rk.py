"""Abstract execution of the time integrator: state vectors are formal combinations of fluxes at prepared states."""
import re
import export
import terms as T
from terms import Value, ZERO, ONE
from interp import AnalysisError, Arr, Struct, Opaque, Ref, Str, Func, pretty, strip_type, split_targs
from model import Model


class Rejected(Exception):
    pass


class Step:
    """one call of a hyperbolic or parabolic step"""
    def __init__(self, **kw):
        self.__dict__.update(kw)


class Integrator:
    CLS = 'ryujin::TimeIntegrator'

    def __init__(self, eq, dim, scheme, recovery=None, number='double'):
        tu = '%s:time_integrator.cc' % eq
        self.P = P = export.programs([tu])[tu]
        self.scheme = scheme
        en = P.enums.get('ryujin::TimeSteppingScheme')
        rec = P.enums.get('ryujin::CFLRecoveryStrategy')
        vio = P.enums.get('ryujin::IDViolationStrategy')
        if not en or not rec or not vio:
            raise AnalysisError('enumerations of the time integrator not found')
        self.en = {n: int(v) for n, v in en['vals']}
        self.rec = {n: int(v) for n, v in rec['vals']}
        self.vio = {int(v): n for n, v in vio['vals']}
        self.recovery = recovery
        self.fs = {}
        for name in ('step', 'prepare'):
            fs = P.find(r'.*TimeIntegrator<.*, %d, %s>::%s' % (dim, number, name))
            if len(fs) != 1:
                raise AnalysisError('%s: %d instantiations of TimeIntegrator::%s' % (eq, len(fs), name))
            self.fs[name] = fs[0]
        self.f = self.fs['step']

    def fresh(self):
        self.M = M = Model(self.P)
        self.I = I = M.I
        h = I.hooks
        h['prepare_state_vector'] = self.h_prepare
        h['step'] = self.h_step
        h['sadd'] = self.h_sadd
        h['swap'] = self.h_swap
        h['std::swap'] = self.h_swap
        h['equ'] = h['add'] = h['operator='] = self.h_unknown
        self.try0, I.s_try = I.s_try, self.s_try
        self.ctor0, I.construct = I.construct, self.construct
        sym0 = I.symbolic
        self.sym0 = sym0
        I.symbolic = self.symbolic
        self.sv, self.prep, self.steps, self.bases, self.log = {}, {}, [], {}, []
        self.nstep = 0
        self.attempt = 0
        self.handlers = 0

    def symbolic(self, t, path, mk=None):
        if path == 'this.time_stepping_scheme_':
            return T.const(self.en[self.scheme])
        if path == 'this.cfl_recovery_strategy_' and self.recovery:
            return T.const(self.rec[self.recovery])
        st = strip_type(t)
        if st.startswith('std::tuple<') and 'MultiComponentVector' in st and '*' not in st:
            return Opaque(path, st)
        return self.sym0(t, path, mk) if mk is not None else self.sym0(t, path)

    def construct(self, e, fr):
        t = strip_type(e['t'])
        if split_targs(t)[0] == 'std::reference_wrapper':
            return self.I.eval(e['a'][0], fr) if e['a'] else Opaque('?')
        return self.ctor0(e, fr)

    # -- locations --------------------------------------------------------------------------
    def loc(self, e, fr):
        I = self.I
        while e['k'] in ('cast', 'copy', 'ctor') and len(e.get('a', [])) == 1:
            e = e['a'][0]
        lv = I.follow(I.lv(e, fr))
        return self.locof(I.read(lv, e.get('t', '')))

    def locof(self, b):
        while isinstance(b, Ref):
            b = self.I.read(b.lv, '')
        if isinstance(b, Struct) and b.base is not None:
            b = b.base
        if not isinstance(b, Opaque):
            raise AnalysisError('state vector not resolved: %s' % pretty(b)[:100])
        # the first member of the tuple stands for the state vector
        p = re.sub(r'\.?<0>$', '', b.path)
        t = strip_type(b.t or '')
        if 'MultiComponentVector' in t and not t.startswith('std::tuple<'):
            p = re.sub(r'\[0\]$', '', p)
        return p

    def get(self, loc):
        if loc not in self.sv:
            self.sv[loc] = T.sym('U') if loc == 'state_vector' else T.app('stale', loc)
        return self.sv[loc]

    def val(self, e, fr):
        v = self.I.eval(e, fr)
        while isinstance(v, Ref):
            v = self.I.read(v.lv, '')
        return v

    def plain(self):
        if self.I.muted or not (self.I.guard == ONE) or not (self.I.outer[-1] == ONE):
            raise AnalysisError('a step of the scheme is conditional: %s' % pretty(self.I.guard)[:120])

    def fail(self, what, rule):
        self.log.append((what, rule))

    # -- operations -----------------------------------------------------------------------------
    def h_prepare(self, I, e, fr):
        if 'HyperbolicModule' not in e.get('cls', ''):
            return NotImplemented
        self.plain()
        x = self.loc(e['a'][0], fr)
        t = self.val(e['a'][1], fr)
        v = self.get(x)
        if any(a.name == 'P' for a in v.atoms()):
            b = T.sym('B%d' % (len(self.bases) + 1))
            self.bases[b] = v
            self.sv[x] = v = b
        self.prep[x] = (v, t)
        return None

    def module(self, e, fr, field):
        I = self.I
        b = e['b']
        lv = I.lv(b, fr)
        for _ in range(4):
            lv = I.follow(lv)
            v = I.read(lv, '')
            if isinstance(v, Ref):
                lv = v.lv
                continue
            break
        return I.read((lv[0], lv[1] + (('f', field),)), 'double')

    def h_step(self, I, e, fr):
        cls = e.get('cls', '')
        hyp, par = 'HyperbolicModule' in cls, 'ParabolicModule' in cls
        if not hyp and not par:
            return NotImplemented
        self.plain()
        a = e['a']
        k = 0
        old = self.loc(a[0], fr)
        t = None
        if par:
            t = self.val(a[1], fr)
            k = 1
        stages = [self.locof(x) for x in self.items(a[1 + k], fr)]
        weights = [x for x in self.items(a[2 + k], fr)]
        new = self.loc(a[3 + k], fr)
        tau = self.val(a[4 + k], fr)
        tmax = self.val(a[5 + k], fr) if len(a) > 5 + k else None
        self.nstep += 1
        s = Step(kind='H' if hyp else 'P', old=old, stages=stages, weights=weights, new=new, tau=tau, tmax=tmax, t=t, line=e.get('l'),
                 attempt=self.attempt, prepared=self.prep.get(old), value=self.get(old), n=self.nstep,
                 stageprep=[self.prep.get(x) for x in stages], stagevals=[self.get(x) for x in stages],
                 cfl=self.module(e, fr, 'cfl_') if hyp else None, strategy=self.module(e, fr, 'id_violation_strategy_'))
        self.steps.append(s)
        U = self.get(old)
        if hyp:
            w0 = ONE
            for w in weights:
                w0 = w0 - w
            given = tau
            if tau.is_zero():
                tau = s.used = T.sym('tau', True)
            F = lambda p, v: T.app('F', v, p[1]) if p else T.app('F', v, T.sym('unprepared'))
            r = U + tau * w0 * F(s.prepared, U)
            for w, p, v in zip(weights, s.stageprep, s.stagevals):
                r = r + tau * w * F(p, v)
        else:
            r = T.app('P', U, t, tau, tuple(s.stagevals), tuple(weights))
        if self.nstep == self.throw_at:
            # the new vector is garbage
            self.sv[new] = T.app('rejected', new)
            self.prep.pop(new, None)
            raise Rejected()
        self.sv[new] = r
        self.prep.pop(new, None)
        return tau if hyp else None

    def items(self, e, fr):
        v = self.val(e, fr)
        if isinstance(v, Arr):
            r = []
            for x in v.e:
                while isinstance(x, Ref):
                    x = self.I.read(x.lv, '')
                r += [y for y in x.e] if isinstance(x, Arr) else [x]
            out = []
            for x in r:
                while isinstance(x, Ref):
                    x = self.I.read(x.lv, '')
                out.append(x)
            return out
        if isinstance(v, Struct):
            return [x for x in v.f.values()]
        raise AnalysisError('list of stages not resolved: %s' % pretty(v)[:100])

    def h_sadd(self, I, e, fr):
        if e['k'] != 'mcall':
            return NotImplemented
        self.plain()
        x, y = self.loc(e['b'], fr), self.loc(e['a'][2], fr)
        s, b = self.val(e['a'][0], fr), self.val(e['a'][1], fr)
        self.sv[x] = s * self.get(x) + b * self.get(y)
        self.prep.pop(x, None)
        return None

    def h_swap(self, I, e, fr):
        if e['k'] == 'mcall':
            x, y = self.loc(e['b'], fr), self.loc(e['a'][0], fr)
        else:
            x, y = self.loc(e['a'][0], fr), self.loc(e['a'][1], fr)
        self.plain()
        a, b = self.get(x), self.get(y)
        self.sv[x], self.sv[y] = b, a
        p, q = self.prep.pop(x, None), self.prep.pop(y, None)
        if q:
            self.prep[x] = q
        if p:
            self.prep[y] = p
        return None

    def h_unknown(self, I, e, fr):
        t = (e.get('b') or {}).get('t', '') + e.get('cls', '')
        if 'StateVector' in t or 'MultiComponentVector' in t or 'LinearAlgebra::distributed' in t:
            raise AnalysisError('unknown operation %s on a state vector' % e.get('n'))
        return NotImplemented

    # -- try / catch ---------------------------------------------------------------------------------
    def s_try(self, s, fr):
        I = self.I
        saved = (I.guard, list(I.outer), list(I.loopctx), I.muted)
        store = I.store
        try:
            I.exec(s['b'], fr)
        except Rejected:
            I.guard, I.outer[:], I.loopctx[:], I.muted = saved[0], saved[1], saved[2], saved[3]
            if I.store is None:
                I.store = store
            self.handlers += 1
            self.attempt += 1
            self.at_handler = (dict(self.sv), dict(self.prep))
            hs = s.get('h') or s.get('c') or []
            if not hs:
                raise
            for h in hs:
                I.exec(h.get('b', h), fr)
                return

    # -- runs --------------------------------------------------------------------------------------------
    def step(self, throw_at=None):
        self.fresh()
        self.throw_at = throw_at
        a = [Opaque('state_vector', strip_type(self.f['params'][0]['t'])), T.sym('t'), T.sym('t_final')]
        ret = self.M.run(self.f, a, Opaque('this'))
        return ret

    def prepare(self):
        self.fresh()
        self.throw_at = None
        n = []
        self.I.hooks['resize'] = lambda I, e, fr: n.append((self.path(e['b'], fr), self.val(e['a'][0], fr)))
        self.M.run(self.fs['prepare'], [], Opaque('this'))
        return n

    def path(self, e, fr):
        lv = self.I.follow(self.I.lv(e, fr))
        v = self.I.read(lv, e.get('t', ''))
        return v.path if isinstance(v, Opaque) else (v.base.path if isinstance(v, Struct) and v.base else pretty(v))

    def efficiency(self):
        """the factor set by the last prepare()"""
        r = [x.args[0] for x in self.I.effects if x.name == '=' and str(x.base).endswith('efficiency_') and (x.guard == ONE)]
        return r[-1].const() if r and isinstance(r[-1], Value) else None
