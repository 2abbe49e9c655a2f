"""Which values may differ between processes, and which collective calls depend on them.

A forward data-flow analysis over the resolved syntax trees of the repository's
own functions.  A value is rank-local if it stems from the process number, the
locally owned part of the mesh, of an index range or of a vector, a clock, or
from anything computed under a condition on such a value; reductions and
broadcasts make it uniform again.  A collective call must not be controlled by a
rank-local condition, loop or early exit, unless all branches make the same
collective calls.
"""
import re
import export
import tree
from interp import AnalysisError, split_targs

UNIFORM = {'sum', 'max', 'min', 'min_max_avg', 'logical_or', 'logical_and', 'all_gather', 'all_reduce', 'broadcast', 'n_mpi_processes'}
COLLECTIVE_NS = {'sum', 'max', 'min', 'min_max_avg', 'logical_or', 'logical_and', 'all_gather', 'all_reduce', 'broadcast', 'gather', 'scatter', 'reduce',
                 'some_to_some', 'partial_and_total_sum', 'compute_point_to_point_communication_pattern', 'create_evenly_distributed_partitioning',
                 'compute_set_union', 'complete_index_set'}
MPI_COLLECTIVE = {'MPI_Barrier', 'MPI_Bcast', 'MPI_Allreduce', 'MPI_Reduce', 'MPI_Gather', 'MPI_Gatherv', 'MPI_Allgather', 'MPI_Allgatherv', 'MPI_Scatter', 'MPI_Scan',
                  'MPI_Exscan', 'MPI_Alltoall', 'MPI_Alltoallv', 'MPI_Comm_split', 'MPI_Comm_dup', 'MPI_File_open', 'MPI_File_close', 'MPI_Ibarrier', 'MPI_Iallreduce',
                  'MPI_Ibcast', 'MPI_Finalize'}
OWN_COLLECTIVE = {'update_ghost_values', 'update_ghost_values_start', 'update_ghost_values_finish', 'update_ghost_rows', 'update_ghost_rows_start', 'update_ghost_rows_finish'}
MEMBER_COLLECTIVE = OWN_COLLECTIVE | {'write_vtu_in_parallel', 'write_vtu_with_pvtu_record', 'execute_coarsening_and_refinement', 'refine_global', 'repartition',
                                      'prepare_coarsening_and_refinement', 'distribute_dofs', 'distribute_mg_dofs', 'renumber_dofs', 'set_ghost_indices'}
NORMS = {'l1_norm', 'l2_norm', 'linfty_norm', 'norm_sqr', 'mean_value', 'add_and_dot', 'all_zero', 'lp_norm'}
SOURCES = {'this_mpi_process', 'MPI_Comm_rank', 'locally_owned_dofs', 'locally_owned_elements', 'locally_owned_size', 'local_size', 'locally_owned_subdomain',
           'n_locally_owned_dofs', 'n_locally_owned_active_cells', 'n_active_cells', 'active_cell_iterators', 'active_cell_iterators_on_level', 'cell_iterators',
           'cell_iterators_on_level', 'mg_cell_iterators', 'mg_cell_iterators_on_level', 'begin_active', 'begin_mg', 'is_locally_owned', 'is_artificial', 'is_ghost',
           'is_locally_owned_on_level', 'local_element', 'locally_owned_range', 'ghost_indices', 'n_ghost_indices', 'import_targets', 'ghost_targets', 'import_indices',
           'wall_time', 'cpu_time', 'last_wall_time', 'last_cpu_time', 'get_memory_stats', 'gather', 'n_import_indices', 'locally_relevant_dofs',
           'extract_locally_relevant_dofs', 'extract_locally_relevant_level_dofs', 'extract_locally_active_dofs', 'locally_owned_mg_dofs', 'compute_local_range',
           'gethostname', 'getpid'}
NEVER = re.compile(r'\b(Triangulation|DoFHandler|FiniteElement|Mapping|Quadrature|ParameterHandler|MPI_Comm|ompi_communicator_t|TimerOutput|Scope)\b')
# containers whose values are local but whose shape and identity are the same everywhere
ASSIGN = {'=', '+=', '-=', '*=', '/=', '%=', '|=', '&=', '^=', '<<=', '>>='}
PASSIVE = {'push_back', 'emplace_back'}


def short(q):
    return re.sub(r'<[^<>]*(<[^<>]*(<[^<>]*>[^<>]*)*>[^<>]*)*>', '', q or '')


def distributed(cls):
    return bool(re.search(r'distributed::(Block)?Vector|MultiComponentVector|TrilinosWrappers|PETScWrappers', cls or ''))


def ranks_agree(e):
    """a container with one distributed object per element: the same length on every process"""
    t = e.get('t', '') or ''
    return bool(re.search(r'(std::(__\d::)?(vector|array|initializer_list)<|BlockVector|MGLevelObject)', t)) and bool(
        re.search(r'distributed::(Block)?Vector|SparseMatrix|Partitioner', t))


def sink(e):
    """name of the collective operation a call performs by itself"""
    k, n, q, cls = e.get('k'), e.get('n', ''), e.get('q', '') or '', e.get('cls', '') or ''
    if k in ('call', 'mcall'):
        if q.startswith('dealii::Utilities::MPI::') and n in COLLECTIVE_NS and k == 'call':
            return 'MPI::' + n
        if n in MPI_COLLECTIVE:
            return n
        if k == 'mcall':
            if n in MEMBER_COLLECTIVE:
                return n
            if n in NORMS and distributed(cls):
                return n
            if n == 'compress' and distributed(cls):
                return n
            if n in ('save', 'load', 'serialize', 'deserialize', 'prepare_for_serialization', 'interpolate', 'prepare_for_coarsening_and_refinement') and re.search(r'parallel::|SolutionTransfer', cls):
                return n
            if n == 'solve' and re.search(r'dealii::Solver', cls):
                return n
            if n in ('cell_loop', 'loop') and 'MatrixFree' in cls:
                return n
            if n == 'build' and 'MGTransfer' in cls:
                return n
        if k == 'call' and n in ('refine_and_coarsen_fixed_number', 'refine_and_coarsen_fixed_fraction', 'compute_global_error') and ('parallel' in q or n == 'compute_global_error'):
            return n
    if k == 'ctor' and 'Utilities::MPI::Partitioner' in (e.get('t', '') or '') and e.get('a') and 'shared_ptr' not in e.get('t', ''):
        if len(e['a']) > 1:
            return 'Partitioner'
    return None


class World:
    def __init__(self, units):
        ps = export.programs(units)
        self.programs = [ps[u] for u in units]
        self.func, self.over, self.unit = {}, {}, {}
        for u, P in zip(units, self.programs):
            for f in P.funcs.values():
                if f.get('body') and f['key'] not in self.func:
                    self.func[f['key']] = f
                    self.unit[f['key']] = u
                for o in f.get('ovr', []) or []:
                    self.over.setdefault(o, set()).add(f['key'])
        self.summary = {}         # key -> Summary
        self.fields = set()       # (class, field) that may be rank-local
        self.sinky = self.find_sinky()

    def targets(self, e):
        k = e.get('key')
        if not k:
            return []
        out = [k] if k in self.func else []
        if e.get('virt'):
            todo = [k]
            while todo:
                for o in self.over.get(todo.pop(), ()):
                    if o not in out:
                        todo.append(o)
                        if o in self.func:
                            out.append(o)
        return out

    def find_sinky(self):
        direct, calls = {}, {}
        for k, f in self.func.items():
            calls[k] = set()
            for x in tree.walk(f['body']):
                if sink(x):
                    direct.setdefault(k, set()).add(sink(x))
                elif x.get('key') and x.get('k') in ('call', 'mcall', 'opcall', 'ctor'):
                    calls[k].update(self.targets(x))
        sinky = {k for k in direct if self.func[k]['n'] not in OWN_COLLECTIVE}
        ch = True
        while ch:
            ch = False
            for k, c in calls.items():
                if k not in sinky and c & sinky:
                    sinky.add(k)
                    ch = True
        self.calls, self.direct = calls, direct
        return sinky


class Summary:
    def __init__(self):
        self.ret = False          # rank-local although all arguments are uniform
        self.reta = set()         # parameters that make the result rank-local
        self.out = set()          # parameters that leave rank-local
        self.outa = set()         # rank-local if some argument is
        self.need = set()         # parameters that must be uniform

    def key(self):
        return (self.ret, frozenset(self.reta), frozenset(self.out), frozenset(self.outa), frozenset(self.need))


class State:
    def __init__(self, taint=(), fields=None):
        self.taint = set(taint)
        self.fields = dict(fields or {})     # (class, field) -> bool, local override

    def copy(self):
        return State(self.taint, self.fields)

    def join(self, o, W):
        self.taint |= o.taint
        for k in set(self.fields) | set(o.fields):
            self.fields[k] = self.fields.get(k, k in W.fields) or o.fields.get(k, k in W.fields)

    def same(self, o):
        return self.taint == o.taint and self.fields == o.fields


class Walk:
    """one pass over one function"""
    def __init__(self, W, f, mask=()):
        self.W, self.f = W, f
        self.found = []
        self.lams = {}
        self.retaint = False
        self.seq = []
        self.depth = 0
        self.throws = []
        self.st = State()
        self.params = [p['id'] for p in f.get('params', [])]
        for i, p in enumerate(f.get('params', [])):
            if i in mask:
                self.st.taint.add(p['id'])
        self.cls = short(f.get('cls', ''))
        self.ctrl = []
        self.pending = set()

    def run(self):
        for i in self.f.get('inits', []) or []:
            x = i.get('e')
            if isinstance(x, dict):
                t = self.ev(x)
                n = i.get('n') or i.get('f')
                if n:
                    self.setfield((self.cls, n), t)
        self.ex(self.f['body'])
        return self

    # -- taint of storage -------------------------------------------------------------------------
    def setfield(self, k, t, strong=True):
        if strong and not self.ctrl:
            self.st.fields[k] = t
        else:
            self.st.fields[k] = t or bool(self.ctrl) or self.st.fields.get(k, k in self.W.fields)

    def getfield(self, k):
        return self.st.fields.get(k, k in self.W.fields)

    def place(self, e):
        """storage location named by an expression, or None"""
        k = e.get('k')
        if k == 'ref':
            return ('v', e['id'])
        if k == 'mem':
            b = e['b']
            if b.get('k') == 'this' or (b.get('k') in ('un', 'opcall') and (b.get('e') or (b.get('a') or [{}])[0]).get('k') == 'this'):
                return ('f', (self.cls, e['n']))
            t = short(re.sub(r'\bconst\b|[&*]', '', b.get('t', ''))).strip()
            p = self.place(b)
            if t.startswith('ryujin::'):
                return ('f', (t, e['n']))
            return p
        if k in ('cast', 'copy', 'paren'):
            return self.place(e['e']) if isinstance(e.get('e'), dict) else None
        if k == 'idx':
            return self.place(e['a'][0])
        if k == 'un' and e['op'] in ('*', '&', '++', '--'):
            return self.place(e['e'])
        if k == 'opcall' and e['op'] in ('[]', '*', '->', '()') and e.get('a'):
            return self.place(e['a'][0])
        if k == 'mcall' and e['n'] in ('begin', 'end', 'data', 'block', 'get', 'at', 'front', 'back', 'local_element', 'operator->', 'operator*'):
            return self.place(e['b'])
        if k == 'call' and e.get('n') in ('get', 'move', 'forward') and e.get('a'):
            return self.place(e['a'][0])
        if k == 'asg':
            return self.place(e['a'][0])
        return None

    def whole(self, e):
        """an expression that denotes a whole variable (strong update possible)"""
        while e.get('k') in ('cast', 'copy', 'paren') and isinstance(e.get('e'), dict):
            e = e['e']
        return e.get('k') == 'ref' or (e.get('k') == 'mem' and e['b'].get('k') == 'this')

    def assign(self, lhs, t, weak=False):
        p = self.place(lhs)
        if p is None:
            return
        if NEVER.search(lhs.get('t', '') or ''):
            return
        t = t or bool(self.ctrl)
        strong = self.whole(lhs) and not weak and not self.ctrl
        if p[0] == 'v':
            if t:
                self.st.taint.add(p[1])
            elif strong:
                self.st.taint.discard(p[1])
        else:
            self.setfield(p[1], t, strong)

    # -- expressions ----------------------------------------------------------------------------------
    def ev(self, e):
        if not isinstance(e, dict):
            return False
        k = e.get('k')
        if k == 'ref':
            return e.get('id') in self.st.taint and not NEVER.search(e.get('t', '') or '')
        if k == 'this' or k in ('int', 'flt', 'bool', 'str', 'num', 'null'):
            return False
        if k == 'mem':
            p = self.place(e)
            t = self.ev(e['b'])
            if p and p[0] == 'f':
                return self.getfield(p[1]) and not NEVER.search(e.get('t', '') or '')
            return t
        if k == 'lambda':
            return False
        if k == 'asg':
            t = self.ev(e['a'][1])
            if e['op'] not in ('', '='):
                t = self.ev(e['a'][0]) or t
                self.assign(e['a'][0], t, weak=False)
                return t
            self.lv(e['a'][0])
            self.assign(e['a'][0], t)
            return t
        if k == 'un':
            t = self.ev(e['e'])
            if e['op'] in ('++', '--'):
                self.assign(e['e'], t)
            return t
        if k == 'bin' and e.get('op') in ('&&', '||'):
            a = self.ev(e['a'][0])
            self.under(a, e, lambda: self.ev(e['a'][1]))
            return a or self.last
        if k == 'cond':
            c = self.ev(e['a'][0])
            s0 = self.st.copy()
            self.under(c, e, lambda: self.ev(e['a'][1]))
            a, s1 = self.last, self.st
            self.st = s0
            self.under(c, e, lambda: self.ev(e['a'][2]))
            b = self.last
            self.st.join(s1, self.W)
            return c or a or b
        if k in ('call', 'mcall', 'opcall', 'ctor'):
            return self.call(e)
        if k == 'throw':
            if isinstance(e.get('e'), dict):
                self.ev(e['e'])
            if 'Restart' in str((e.get('e') or {}).get('t', '')) and self.ctrl:
                self.violation(e, 'throw Restart')
            return False
        r = False
        for c in tree.children(e):
            r = self.ev(c) or r
        return r

    def lv(self, e):
        for c in tree.children(e):
            self.ev(c)

    def under(self, t, e, fn):
        if t:
            self.ctrl.append(e)
        self.last = fn()
        if t:
            self.ctrl.pop()

    def violation(self, e, what):
        c = self.ctrl[-1]
        self.found.append((e.get('l'), what, c.get('l'), c.get('k')))

    def lambda_of(self, e):
        while isinstance(e, dict) and e.get('k') in ('cast', 'copy', 'ctor', 'paren'):
            e = e['a'][0] if e['k'] == 'ctor' and len(e.get('a', [])) == 1 else e.get('e') if e['k'] != 'ctor' else None
        if not isinstance(e, dict):
            return None
        if e.get('k') == 'lambda':
            return e
        if e.get('k') == 'ref':
            return self.lams.get(e.get('id'))
        return None

    def enter_lambda(self, lam, args, key=None):
        bodies = [(lam.get('body'), lam.get('params'))]
        if lam.get('generic'):
            bodies = [(i['body'], i['params']) for i in lam['inst'] if key is None or i['key'] == key] or [(i['body'], i['params']) for i in lam['inst']]
        ret = False
        self.depth += 1
        if self.depth > 12:
            self.depth -= 1
            return True
        for b, ps in bodies:
            for p, t in zip(ps or [], list(args) + [False] * len(ps or [])):
                l = t if isinstance(t, dict) else None
                if l is not None:
                    self.lams[p['id']] = l
                elif t:
                    self.st.taint.add(p['id'])
                else:
                    self.st.taint.discard(p['id'])
            old, self.retaint = self.retaint, False
            pend, self.pending = self.pending, set()
            ctrl0 = len(self.ctrl)
            self.ex(b)
            del self.ctrl[ctrl0:]
            ret = ret or self.retaint
            self.retaint, self.pending = old, pend
        self.depth -= 1
        return ret

    def call(self, e):
        W = self.W
        k, n, a = e['k'], e.get('n', ''), e.get('a', [])
        q, cls = e.get('q', '') or '', e.get('cls', '') or ''
        if k == 'opcall':
            op = e['op']
            if op in ASSIGN and len(a) == 2:
                t = self.ev(a[1])
                if op != '=':
                    t = self.ev(a[0]) or t
                else:
                    self.lv(a[0])
                tg = W.targets(e)
                self.assign(a[0], t, weak=op != '=' or bool(tg))
                return t
            if op == '()':
                lam = self.lambda_of(a[0])
                if lam is not None:
                    args = [self.lambda_of(x) or self.ev(x) for x in a[1:]]
                    return self.enter_lambda(lam, args, e.get('key'))
            if op in ('++', '--'):
                t = self.ev(a[0])
                self.assign(a[0], t, weak=True)
                return t
        lams = [(i, self.lambda_of(x)) for i, x in enumerate(a)]
        ts = [False if l is not None else self.ev(x) for x, (i, l) in zip(a, lams)]
        b = self.ev(e['b']) if isinstance(e.get('b'), dict) else False
        s = sink(e)
        if s:
            self.seq.append(s)
            if self.ctrl:
                self.violation(e, s)
        targets = [] if s and n in OWN_COLLECTIVE else W.targets(e)
        # lambdas handed to somebody else run where they are handed over
        for i, l in lams:
            if l is not None:
                local = not targets and not s and not re.search(r'function<|SynchronizationDispatch|connect|call_back|find_if|accumulate|remove_if|sort', q + cls + e.get('t', ''))
                if local or (s and n in ('cell_loop', 'loop')):
                    self.ctrl.append(e)
                    keep, self.found = self.found, []
                    self.enter_lambda(l, [True] * 8)
                    self.found = keep
                    self.ctrl.pop()
                else:
                    self.enter_lambda(l, [])
        if s:
            if n == 'MPI_Bcast' and a:
                self.assign_ptr(a[0], False)
            if n in ('MPI_Allreduce',) and len(a) > 1:
                self.assign_ptr(a[1], False)
            return n == 'gather' or n in ('MPI_Gather', 'MPI_Scan', 'MPI_Reduce', 'scatter', 'some_to_some')
        if targets:
            ret = False
            off = 1 if k == 'opcall' and e.get('cls') and len(a) > 0 else 0
            at = ts[off:]
            for t in targets:
                f = W.func[t]
                S = W.summary.get(t)
                if t in W.sinky:
                    self.seq.append(f['q'].split('::')[-1])
                    if self.ctrl:
                        self.violation(e, short(f['q']).split('::')[-1])
                if S is None:
                    continue
                ret = ret or S.ret or any(at[i] for i in S.reta if i < len(at))
                for i in S.need:
                    if i < len(at) and at[i] and not self.ctrl:
                        self.found.append((e.get('l'), '%s (argument %d decides about a collective operation)' % (short(f['q']).split('::')[-1], i + 1), e.get('l'), 'arg'))
                for i in S.out | (S.outa if any(at) else set()):
                    if i + off < len(a):
                        self.assign(a[i + off], True, weak=True)
            return ret
        # outside of the repository
        if n in SOURCES:
            if n == 'MPI_Comm_rank' and len(a) > 1:
                self.assign_ptr(a[1], True)
            return True
        if n in ('size', 'n_blocks', 'get_mpi_communicator', 'get_communicator', 'n_dofs', 'n_global_active_cells', 'n_levels', 'n_global_levels', 'has_value', 'empty') \
                and (distributed(cls) or NEVER.search(cls) or 'Triangulation' in cls or 'DoFHandler' in cls):
            return False
        if k == 'mcall' and n == 'store' and 'atomic' in cls:
            self.assign(e['b'], ts[0] if ts else False)
            return False
        if k == 'mcall' and not e.get('const') and (any(ts) or self.ctrl):
            self.assign(e['b'], True, weak=True)
        for x, m in zip(a[1 if k == 'opcall' and len(e.get('pm', '')) == len(a) - 1 else 0:], e.get('pm', '')):
            if m in 'r' and (any(ts) or b or self.ctrl) and not (x.get('t', '') or '').startswith('const '):
                self.assign(x, True, weak=True)
            if m == 'p' and (any(ts) or b or self.ctrl):
                self.assign_ptr(x, True)
        if NEVER.search(e.get('t', '') or '') and not re.search(r'iterator|Iterator', e.get('t', '') or ''):
            return False
        return b or any(ts)

    def assign_ptr(self, x, t):
        while isinstance(x, dict) and x.get('k') in ('cast', 'copy', 'paren'):
            x = x.get('e')
        if isinstance(x, dict) and x.get('k') == 'un' and x.get('op') == '&':
            self.assign(x['e'], t)

    # -- statements -----------------------------------------------------------------------------------
    def ex(self, s):
        if not s:
            return
        k = s.get('k')
        if k == 'block':
            n0 = len(self.ctrl)
            for x in s['s']:
                before = set(self.pending)
                self.ex(x)
                if self.pending - before:
                    self.ctrl.append(x)
            del self.ctrl[n0:]
        elif k == 'decl':
            for v in s['v']:
                i = v.get('init')
                l = self.lambda_of(i) if i else None
                if l is not None:
                    self.lams[v['id']] = l
                    continue
                t = self.ev(i) if i else False
                t = (t or (bool(self.ctrl) and False)) and not NEVER.search(v.get('t', '') or '')
                for x in [v['id']] + [b['id'] for b in v.get('bind', []) or []]:
                    (self.st.taint.add if t else self.st.taint.discard)(x)
        elif k == 'if':
            if s.get('init'):
                self.ex(s['init'])
            t = False
            if s.get('var'):
                self.ex({'k': 'decl', 'v': [s['var']]})
                t = s['var']['id'] in self.st.taint
            if s.get('c'):
                t = self.ev(s['c']) or t
            if s.get('cx'):
                c = s['c']
                while c.get('k') in ('cast', 'paren', 'copy'):
                    c = c['e']
                if c.get('k') in ('num', 'bool') and str(c.get('v')) in '01':
                    self.ex(s.get('th') if str(c['v']) == '1' else s.get('el'))
                    return
                t = False
            self.branch(t, s, [s.get('th'), s.get('el')])
        elif k == 'switch':
            t = self.ev(s['c'])
            p0 = set(self.pending)
            self.branch(t, s, [s.get('b'), None])
            self.pending = {p for p in self.pending if p != 'brk'} | (p0 & {'brk'})
        elif k in ('case', 'default'):
            self.ex(s.get('b'))
        elif k in ('for', 'while', 'do', 'rfor'):
            self.loop(s)
        elif k == 'ret':
            t = self.ev(s['e']) if s.get('e') else False
            if t or (self.ctrl and s.get('e')):
                self.retaint = True
            if self.ctrl:
                self.pending.add('ret')
        elif k == 'break':
            if self.ctrl:
                self.pending.add('brk')
        elif k == 'cont':
            if self.ctrl:
                self.pending.add('cont')
        elif k == 'null':
            pass
        elif k == 'omp':
            self.ex(s.get('b'))
        elif k == 'try':
            s0 = self.st.copy()
            self.ex(s.get('b'))
            for h in s.get('h', []) or []:
                s1 = self.st
                self.st = s0.copy()
                self.st.join(s1, self.W)
                self.ex(h.get('b'))
                self.st.join(s1, self.W)
        else:
            self.ev(s)

    def branch(self, t, s, parts):
        s0 = self.st.copy()
        f0, q0 = self.found, self.seq
        res = []
        for p in parts:
            self.st, self.found, self.seq = s0.copy(), [], []
            if t:
                self.ctrl.append(s)
            self.ex(p)
            if t:
                self.ctrl.pop()
            res.append((self.st, self.found, self.seq))
        self.st = res[0][0]
        self.st.join(res[1][0], self.W)
        self.found, self.seq = f0, q0
        if t and res[0][2] == res[1][2] and len(self.ctrl) == 0 and res[0][2]:
            pass          # both branches make the same collective calls
        else:
            self.found = self.found + res[0][1] + res[1][1]
        self.seq = self.seq + res[0][2] + res[1][2]

    def loop(self, s):
        k = s['k']
        if k == 'for':
            self.ex(s.get('init'))
        if k == 'rfor':
            t0 = self.ev(s['range']) and not ranks_agree(s['range'])
        force = False
        for it in range(6):
            s0, f0, q0 = self.st.copy(), list(self.found), list(self.seq)
            t = force
            if k == 'rfor':
                t = t or t0
                v = s['var']
                for x in [v['id']] + [b['id'] for b in v.get('bind', []) or []]:
                    (self.st.taint.add if t0 else self.st.taint.discard)(x)
            elif k != 'do' and s.get('c'):
                t = self.ev(s['c']) or t
            if t:
                self.ctrl.append(s)
            p0 = self.pending
            self.pending = set()
            self.ex(s.get('b'))
            if k == 'for' and s.get('inc'):
                self.ev(s['inc'])
            if t:
                self.ctrl.pop()
            if k == 'do' and self.ev(s['c']):
                force = True
            mine = self.pending & {'brk', 'cont'}
            self.pending = p0 | (self.pending - {'brk', 'cont'})
            if 'brk' in mine or 'ret' in self.pending - p0:
                force = True
            self.st.join(s0, self.W)
            if self.st.same(s0) and (not force or t):
                break
            self.found, self.seq = f0, q0


class Divergence:
    def __init__(self, units):
        self.W = W = World(units)
        order = self.order()
        for rnd in range(8):
            ch = False
            for k in order:
                f = W.func[k]
                S = Summary()
                w = Walk(W, f).run()
                S.ret = w.retaint
                S.out = {i for i, p in enumerate(w.params) if p in w.st.taint}
                for key, t in w.st.fields.items():
                    if t and key not in W.fields:
                        W.fields.add(key)
                        ch = True
                n = len(w.params)
                if n:
                    x = Walk(W, f, range(n)).run()
                    S.reta = {i for i in range(n) if n == 1 or Walk(W, f, [i]).run().retaint} if x.retaint and not S.ret else set()
                    if x.retaint and not S.ret and not S.reta:
                        S.reta = set(range(n))
                    S.outa = {i for i, p in enumerate(f['params']) if p['id'] in x.st.taint and p.get('t', '').rstrip().endswith('&') and not p['t'].startswith('const ')}
                    S.out = {i for i in S.out if f['params'][i].get('t', '').rstrip().endswith('&')}
                    if k in W.sinky and len(x.found) > len(w.found):
                        for i in range(n):
                            if len(Walk(W, f, [i]).run().found) > len(w.found):
                                S.need.add(i)
                if k not in W.summary or W.summary[k].key() != S.key():
                    W.summary[k] = S
                    ch = True
            if not ch:
                break
        else:
            raise AnalysisError('rank-local values: no fixpoint')
        self.rounds = rnd + 1

    def order(self):
        W, seen, out = self.W, set(), []

        def visit(k):
            st = [(k, iter(sorted(W.calls.get(k, ()))))]
            seen.add(k)
            while st:
                x, it = st[-1]
                for y in it:
                    if y not in seen:
                        seen.add(y)
                        st.append((y, iter(sorted(W.calls.get(y, ())))))
                        break
                else:
                    out.append(x)
                    st.pop()
        for k in sorted(W.func):
            if k not in seen:
                visit(k)
        return out

    def results(self):
        W = self.W
        for k in sorted(W.func):
            if k in W.sinky or any(x.get('k') == 'throw' and 'Restart' in str((x.get('e') or {}).get('t', '')) for x in tree.walk(W.func[k]['body'])):
                w = Walk(W, W.func[k]).run()
                yield W.func[k], w
