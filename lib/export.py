"""Builds the exporter and exports the resolved program of translation units.

An export holds every function, class, enumeration and variable of
/repo/source that is defined or instantiated in the unit.  Results are cached
under a hash of all sources, so that a cached result is always that of the
current working tree.
"""
import fcntl
import hashlib
import os
import re
import subprocess
import sys
import tempfile
import uuid
from concurrent.futures import ThreadPoolExecutor
from interp import Program, AnalysisError

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(REPO, 'source')
EQS = ['euler', 'euler_aeos', 'navier_stokes', 'scalar_conservation', 'shallow_water', 'skeleton']
COMMON = ['discretization.cc', 'equation_dispatch.cc', 'multicomponent_vector.cc', 'offline_data.cc',
          'simd.cc', 'sparse_matrix_simd.cc', 'main.cc']
PER_EQ = ['hyperbolic_module.cc', 'initial_values.cc', 'mesh_adaptor.cc', 'parabolic_module.cc',
          'postprocessor.cc', 'quantities.cc', 'time_integrator.cc', 'time_loop.cc', 'vtu_output.cc']


class ExportError(AnalysisError):
    pass


def build_dir():
    for d in (os.environ.get('VERIF_BUILD'), os.path.join(VERIF, 'build')):
        if d:
            try:
                os.makedirs(d, exist_ok=True)
                t = os.path.join(d, '.w' + uuid.uuid4().hex)
                open(t, 'w').close()
                os.unlink(t)
                return d
            except OSError:
                pass
    d = os.path.join(tempfile.gettempdir(), 'verif-build-%d' % os.getuid())
    os.makedirs(d, exist_ok=True)
    return d


BUILD = build_dir()


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b'\0')
    return h.hexdigest()[:24]


def slurp(p):
    with open(p, 'rb') as fh:
        return fh.read()


_exporter = None


def exporter():
    global _exporter
    if _exporter:
        return _exporter
    src = os.path.join(VERIF, 'tool', 'exporter.cc')
    out = os.path.join(BUILD, 'exporter-' + sha(slurp(src)))
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(out):
            tmp = out + '.tmp'
            r = subprocess.run(['g++', '-std=c++17', '-O1', '-fno-rtti', '-w', '-I/usr/lib/llvm-18/include', src,
                                '-o', tmp, '-L/usr/lib/llvm-18/lib', '-l:libclang-cpp.so.18.1', '-l:libLLVM-18.so'],
                               capture_output=True, text=True)
            if r.returncode != 0:
                raise ExportError('cannot build the exporter: ' + r.stderr[-2000:])
            os.rename(tmp, out)
    _exporter = out
    return out


_tree = None


def tree_hash():
    global _tree
    if _tree is None:
        parts = []
        for d, dirs, files in os.walk(SRC):
            dirs.sort()
            for f in sorted(files):
                p = os.path.join(d, f)
                parts += [os.path.relpath(p, SRC), slurp(p)]
        _tree = sha(*parts)
    return _tree


def options(defs):
    """a compile_time_options.h for the given set of definitions"""
    t = slurp(os.path.join(SRC, 'compile_time_options.h.in')).decode()
    val = dict(defs)

    def cm(m):
        n = m.group(1)
        return '#define ' + n if val.get(n) else '/* #undef %s */' % n
    t = re.sub(r'#\s*cmakedefine\s+(\w+)', cm, t)
    t = re.sub(r'@(\w+)@', lambda m: str(val.get(m.group(1), '')), t)
    d = os.path.join(BUILD, 'gen-' + sha(t))
    p = os.path.join(d, 'compile_time_options.h')
    if not os.path.exists(p):
        os.makedirs(d, exist_ok=True)
        tmp = '%s.%s' % (p, uuid.uuid4().hex)
        with open(tmp, 'w') as fh:
            fh.write(t)
        os.replace(tmp, p)
    return d


DEFAULT = {'NUMBER': 'double', 'DENORMALS_ARE_ZERO': True, 'WITH_OPENMP': True}
SYS = ['openmpi', 'openmpi/openmpi']
ISYS = ['/usr/lib/x86_64-linux-gnu/openmpi/include', '/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi',
        '/usr/include/petsc', '/usr/include/trilinos', '/usr/include/hdf5/openmpi', '/usr/include/scotch',
        '/usr/include/suitesparse', '/usr/include/opencascade', '/usr/include/slepc']


def unit(tu):
    """tu -> (file, equation)

    'probe:NAME' is /verif/tu/NAME.cc; 'EQ:FILE' is a source of the build,
    compiled for equation EQ ('' for the common ones)."""
    eq, f = tu.split(':', 1)
    if eq == 'probe':
        return os.path.join(VERIF, 'tu', f + '.cc'), ''
    return os.path.join(SRC, f), eq


def export(tu, defs=None):
    f, eq = unit(tu)
    if not os.path.exists(f):
        raise ExportError('source %s of the analysis does not exist' % f)
    d = dict(DEFAULT)
    d.update(defs or {})
    ex = exporter()
    own = slurp(os.path.join(VERIF, 'tu', 'probe.h')) if tu.startswith('probe:') else b''
    out = os.path.join(BUILD, 'x-%s.jsonl' % sha(tree_hash(), slurp(f), own, os.path.basename(ex), tu, repr(sorted(d.items()))))
    if os.path.exists(out):
        try:
            os.utime(out)
        except OSError:
            pass
        return out
    cmd = [ex, SRC, f, '--', '-resource-dir', '/usr/lib/llvm-18/lib/clang/18',
           '-isystem', os.path.join(VERIF, 'tool', 'include'), '-DNDEBUG']
    if d.get('DEBUG'):
        cmd[-1] = '-DDEBUG'
    if eq:
        cmd.append('-I' + os.path.join(SRC, eq))
    cmd += ['-I' + options(d), '-I' + SRC]
    for i in ISYS:
        cmd += ['-isystem', i]
    cmd += ['-std=c++17', '-fopenmp', '-w']
    if tu.startswith('probe:'):
        m = re.match(rb'// flags: (.*)', slurp(f))
        cmd += m.group(1).decode().split() if m else []
    tmp = out + '.' + uuid.uuid4().hex
    with open(tmp, 'w') as fh:
        r = subprocess.run(cmd, stdout=fh, stderr=subprocess.PIPE, text=True)
    if r.returncode != 0:
        os.unlink(tmp)
        raise ExportError('cannot export %s: %s' % (tu, r.stderr[-3000:]))
    os.replace(tmp, out)
    return out


_progs = {}


def prune(keep=400):
    fs = [os.path.join(BUILD, f) for f in os.listdir(BUILD) if f.startswith('x-')]
    if len(fs) > keep:
        fs.sort(key=os.path.getmtime)
        for f in fs[:len(fs) - keep]:
            try:
                os.unlink(f)
            except OSError:
                pass


def programs(tus, defs=None):
    """exports the units in parallel"""
    k = repr(sorted((defs or {}).items()))
    exporter()
    tree_hash()
    need = [t for t in tus if (t, k) not in _progs]
    with ThreadPoolExecutor(8) as ex:
        outs = list(ex.map(lambda t: export(t, defs), need))
    for t, o in zip(need, outs):
        _progs[(t, k)] = Program(o)
    prune()
    return {t: _progs[(t, k)] for t in tus}


if __name__ == '__main__':
    print(exporter())
