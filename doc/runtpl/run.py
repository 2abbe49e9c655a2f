"""Runs the built ryujin executable with a parameter file in a scratch directory."""
import os
import re
import shutil
import subprocess
import tempfile


def run(prm, np=1, threads=1, timeout=120, name='p.prm', keep=None):
    d = keep or tempfile.mkdtemp(prefix='demo.', dir='/tmp')
    try:
        with open(os.path.join(d, name), 'w') as f:
            f.write(prm)
        env = dict(os.environ, OMP_NUM_THREADS=str(threads), DEAL_II_NUM_THREADS=str(threads), OPENBLAS_NUM_THREADS='1',
                   OMPI_ALLOW_RUN_AS_ROOT='1', OMPI_ALLOW_RUN_AS_ROOT_CONFIRM='1', OMPI_MCA_mpi_yield_when_idle='1',
                   OMPI_MCA_btl='self,vader', OMPI_MCA_btl_vader_single_copy_mechanism='none', OMPI_MCA_plm_rsh_agent='sh',
                   OMPI_MCA_rmaps_base_oversubscribe='1', LC_ALL='C')
        cmd = ['/repo/_build/run/ryujin', name]
        if np > 1:
            cmd = ['mpirun', '-np', str(np)] + cmd
        r = subprocess.run(cmd, cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        out = {m.group(1): float(m.group(2)) for m in re.finditer(r'^(t|Linf|L1|L2)\s*=\s*(\S+)', r.stdout, re.M)}
        out['text'], out['rc'] = r.stdout, r.returncode
        return out
    finally:
        if keep is None:
            shutil.rmtree(d)


def base(time='0.5', equation='euler', dim=2, refine=4, boundary='dirichlet', scheme='erk 33', cfl='0.2', cflmin=None, recovery='none', extra='', ansatz=None, initial=None, eqextra='', loop=''):
    return f'''
subsection A - TimeLoop
  set basename = demo
  set enable compute error = true
  set final time = {time}
  set timer granularity = {time}
  set terminal update interval = 0
  {loop}
end
subsection B - Equation
  set dimension = {dim}
  set equation = {equation}
  {eqextra}
end
subsection C - Discretization
  set geometry = rectangular domain
  set mesh refinement = {refine}
  {'set finite element ansatz = ' + ansatz if ansatz else ''}
  subsection rectangular domain
    set boundary condition left = {boundary}
    set boundary condition right = {boundary}
    {'set boundary condition bottom = ' + boundary if dim > 1 else ''}
    {'set boundary condition top = ' + boundary if dim > 1 else ''}
    set position bottom left = {'-5, -5' if dim > 1 else '-5'}
    set position top right = {'5, 5' if dim > 1 else '5'}
  end
end
{initial or VORTEX}
subsection H - TimeIntegrator
  set cfl min = {cflmin or cfl}
  set cfl max = {cfl}
  set cfl recovery strategy = {recovery}
  set time stepping scheme = {scheme}
end
{extra}
'''


VORTEX = '''
subsection E - InitialValues
  set configuration = isentropic vortex
  set direction = 1, 1
  set position = -1, -1
  subsection isentropic vortex
    set mach number = 1
    set beta = 5
  end
end
'''


def close(a, b, tol):
    return all(abs(a[k] - b[k]) <= tol * abs(b[k]) for k in ('Linf', 'L1', 'L2'))
