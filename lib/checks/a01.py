"""A01: conversions between conserved, primitive and initial states"""
from eqs import *


def expect(R, key, e, fnname, got, want, rule, w=None):
    f = w or e.fn(fnname)
    R.count('identities')
    R.ok('%s:%s' % (e.tag, key), same(got, want), f, rule, lambda: first_difference(got, want))


def run(R):
    preload()
    R.rule('Each conversion is summarised as an algebraic normal form over symbolic states (all values of density, '
           'velocity, pressure and of the run-time parameters); the composition with its inverse must be the identity '
           'and the conserved state of (density, velocity, pressure) must have the textbook entries.')
    for c, name in ALL:
        for dim, v in variants():
            e = get(c, dim, v)
            pad = [ZERO] * (dim - 1)
            if c is Scalar:
                U = e.raw()
                expect(R, 'to', e, 'to_primitive_state', e.probe('to_primitive', U), U, 'the state is its own primitive state')
                expect(R, 'from', e, 'from_primitive_state', e.probe('from_primitive', U), U, 'the state is its own primitive state')
                expect(R, 'expand', e, 'expand_state', e.probe('expand', U), U, 'expansion keeps the value')
                continue
            sw = c is ShallowWater
            if sw:
                h, u, U = e.state()
                prim, ctx = vec(h, *u), T.assuming(h - e.cut_small, h - e.cut_large)
                head, tail = [h], []
            else:
                rho, u, p, U = e.state()
                prim, ctx = vec(rho, *u, p), T.assuming()
                head, tail = [rho], [p]
            with ctx:
                expect(R, 'from', e, 'from_primitive_state', e.probe('from_primitive', prim), U,
                       'primitive -> conserved: momentum = density * velocity, energy as defined by the equation')
                expect(R, 'to', e, 'to_primitive_state', e.probe('to_primitive', U), prim,
                       'conserved -> primitive inverts primitive -> conserved')
                expect(R, 'roundtrip', e, 'to_primitive_state',
                       e.probe('to_primitive', e.probe('from_primitive', prim)), prim, 'round trip is the identity')
                U1 = vec(*head, S('m1'), *(tail and [S('E1')]))
                want = vec(*head, S('m1'), *pad, *(tail and [S('E1')]))
                expect(R, 'expand1', e, 'expand_state', e.probe('expand1', U1), want,
                       'a one-dimensional state expands to density, momentum in the first direction, zeros, energy',
                       e.pfn('expand1'))
                expect(R, 'expand', e, 'expand_state', e.probe('expand', e.raw()), e.raw(),
                       'expanding a state of full dimension changes nothing', e.pfn('expand'))
                P1 = vec(*head, S('v1'), *tail)
                full = [S('v1')] + pad
                if sw:
                    W = vec(h, *[h * x for x in full])
                    W2 = U
                elif c is Euler:
                    W, W2 = e.cons(rho, full, p), e.cons(rho, u, p)
                else:
                    en = T.app('eos.specific_internal_energy', rho, p)
                    W, W2 = e.cons(rho, full, en), e.cons(rho, u, en)
                expect(R, 'initial1', e, 'from_initial_state', e.probe('initial1', P1), W,
                       'an initial state (density, velocity, pressure) of dimension one is converted to the conserved state',
                       e.pfn('initial1'))
                expect(R, 'initial', e, 'from_initial_state', e.probe('initial', prim), W2,
                       'an initial state of full dimension is converted to the conserved state', e.pfn('initial'))
            V = e.raw()
            new = names('new', dim)
            got = e.probe('galilei', V, vec(*new))
            want = vec(V.e[0], *new, *(V.e[1 + dim:]))
            expect(R, 'galilei', e, 'apply_galilei_transform', got, want,
                   'a Galilei transform replaces the momentum and keeps density and energy', e.pfn('galilei'))
            expect(R, 'galilei-arg', e, 'apply_galilei_transform', e.probe('galilei_input', V),
                   vec(*V.e[1:1 + dim]), 'the transform is applied to the momentum', e.pfn('galilei_input'))
    R.floor('identities', 150)
