"""C02: all processes make the same collective calls in the same order"""
import div
import tree

PER = ['time_loop', 'quantities', 'hyperbolic_module', 'time_integrator', 'mesh_adaptor', 'postprocessor', 'vtu_output', 'initial_values', 'parabolic_module']
COMMON = [':offline_data.cc', ':discretization.cc', ':multicomponent_vector.cc', ':equation_dispatch.cc', ':main.cc', ':sparse_matrix_simd.cc', ':simd.cc']


def units(eq, extra=()):
    return ['%s:%s.cc' % (eq, x) for x in PER] + ['%s:%s/equation_dispatch.cc' % (eq, eq)] + list(extra)


def analyse(R, us):
    D = div.Divergence(us)
    W = D.W
    R.count('functions', len(W.func))
    R.count('functions that make collective calls', len(W.sinky))
    seen = {}
    for f, w in D.results():
        name = div.short(f['q']).replace('ryujin::', '')
        bad = {}
        for line, what, cl, ck in w.found:
            bad.setdefault((line, what.split(' ')[0] if 'argument' in what else what), (what, cl, ck))
        n = {}
        for x in tree.walk(f['body']):
            s = div.sink(x)
            what = None
            if s:
                what = s
            elif x.get('k') in ('call', 'mcall', 'opcall', 'ctor') and any(t in W.sinky for t in W.targets(x)):
                what = div.short(W.func[[t for t in W.targets(x) if t in W.sinky][0]]['q']).split('::')[-1]
            elif x.get('k') == 'throw' and 'Restart' in str((x.get('e') or {}).get('t', '')):
                what = 'throw Restart'
            if not what:
                continue
            n[what] = n.get(what, 0) + 1
            R.count('collective call sites')
            b = bad.pop((x.get('l'), what), None)
            key = '%s:%s:%d' % (name, what.replace(' ', '-'), n[what])
            if b is None and key in seen:
                continue
            seen[key] = True
            R.ok(key, b is None, f, 'a collective operation is reached by all processes or by none: the conditions, loop bounds and early exits before it are the same everywhere',
                 lambda: '%s at line %s depends on the %s at line %s, whose value differs between processes' % (b[0], x.get('l'), b[2], b[1]))
        for (line, what), b in bad.items():
            R.ok('%s:%s:line' % (name, what.replace(' ', '-')), False, f, 'a collective operation is reached by all processes or by none',
                 '%s at line %s depends on the %s at line %s, whose value differs between processes' % (b[0], line, b[2], b[1]))


def run(R):
    R.rule('Forward data-flow analysis of rank-local values (process number, locally owned sizes and entries, clocks, file reads, values assigned under rank-local control) through all '
           'functions of the repository with summaries per function; reductions and broadcasts make a value uniform. A collective call, or the signal that rejects a step, under rank-local control is a violation, '
           'except where both branches make the same calls.')
    R.assume('collective operations are the reductions, broadcasts, vector norms, ghost exchanges, mesh operations and MPI calls listed in the analysis; input parameters are the same on all processes; '
             'an exception other than the one that rejects a step ends the run')
    if R.tier == 'quick':
        groups = [units('euler', COMMON)]
    else:
        groups = [units('euler', COMMON)] + [units(e) + COMMON[:3] for e in ('euler_aeos', 'scalar_conservation', 'shallow_water', 'skeleton')]
        groups.append(units('navier_stokes', ['navier_stokes:navier_stokes/parabolic_solver.cc'] + COMMON[:3]))
    import export
    export.programs(sorted({u for g in groups for u in g}))
    R.each(groups, analyse)
    R.floor('functions that make collective calls', 100)
    R.floor('collective call sites', 150)
