"""Abstract execution of the preparation of a state vector."""
from scheme import *
from interp import Clos

CACHE2 = {}


class Prepare:
    def __init__(self, eq, dim, number='double', vector=None):
        self.eq, self.dim = eq, dim
        self.st = st = Stepper('%s:hyperbolic_module.cc' % eq, eq, dim)
        if vector is not None:
            st.fix('this.hyperbolic_system_.selected_equation_of_state_.prefer_vector_interface_', T.const(int(vector)))
        fs = st.P.find(r'.*HyperbolicModule.*, %d, %s>::prepare_state_vector' % (dim, number))
        if len(fs) != 1:
            raise AnalysisError('%s dim %d: %d instantiations of prepare_state_vector' % (eq, dim, len(fs)))
        self.f = fs[0]
        h = st.I.hooks
        h['initial_state'] = st.kernel
        kernel = h['apply_boundary_conditions']
        self.dirichlet = []          # what the callback handed to the boundary conditions would return

        def boundary(I, e, fr):
            for x in e['a']:
                c = st.val(x, fr)
                if isinstance(c, Clos):
                    self.dirichlet.append(I.call_clos(c, [], fr))
            return kernel(I, e, fr)
        h['apply_boundary_conditions'] = boundary
        st.run(self.f)
        self.tag = '%s:%dd:prepare' % (eq, dim) + ('' if vector is None else ':vector%d' % vector)
        self.phases = [e.phase for e in st.events if isinstance(e, Mark) and e.kind == 'phase']
        self.memo = {}
        self.n = Scheme.n.__get__(self)
        self.fn = Scheme.fn.__get__(self)

    def marks(self, *kinds):
        return [e for e in self.st.events if isinstance(e, Mark) and e.kind in kinds]


def prepares(eq, dim):
    return [Prepare(eq, dim, vector=v) for v in ((False, True) if eq == 'euler_aeos' else (None,))]
