// Instantiates the public interface of one equation module (namespace SYS)
// so that every member function is available, with resolved types, to the
// analyses.  The probe functions only call the documented interface.
namespace probe
{
  using namespace ryujin;

  template <int dim, typename Number>
  struct Probe {
    using View = SYS::HyperbolicSystemView<dim, Number>;
    using View1 = SYS::HyperbolicSystemView<1, Number>;
    using state_type = typename View::state_type;
    using Vec = dealii::Tensor<1, dim, Number>;
    using PV = typename View::PrecomputedVector;
    using IV = typename View::InitialPrecomputedVector;

    static state_type expand1(const View &view,
                              const typename View1::state_type &U)
    {
      return view.expand_state(U);
    }

    static state_type expand(const View &view, const state_type &U)
    {
      return view.expand_state(U);
    }

    static state_type
    galilei(const View &view, const state_type &U, const Vec &M)
    {
      return view.apply_galilei_transform(U,
                                          [&](const Vec &) { return M; });
    }

    static Vec galilei_input(const View &view, const state_type &U)
    {
      Vec result;
      view.apply_galilei_transform(U, [&](const Vec &m) {
        result = m;
        return m;
      });
      return result;
    }

    static state_type to_primitive(const View &view, const state_type &U)
    {
      return view.to_primitive_state(U);
    }

    static state_type from_primitive(const View &view, const state_type &U)
    {
      return view.from_primitive_state(U);
    }

#ifdef HAVE_INITIAL
    static state_type initial1(const View &view,
                               const typename View1::state_type &U)
    {
      return view.from_initial_state(U);
    }

    static state_type initial(const View &view, const state_type &U)
    {
      return view.from_initial_state(U);
    }
#endif

    /* the flux between the degrees of freedom i and j=*js */
    static state_type interface(const View &view,
                                const PV &pv,
                                const IV &iv,
                                const unsigned int i,
                                const unsigned int *js,
                                const state_type &U_i,
                                const state_type &U_j,
                                const Vec &c_ij)
    {
      const auto flux_i = view.flux_contribution(pv, iv, i, U_i);
      const auto flux_j = view.flux_contribution(pv, iv, js, U_j);
      return view.flux_divergence(flux_i, flux_j, c_ij);
    }

    static state_type interface_high(const View &view,
                                     const PV &pv,
                                     const IV &iv,
                                     const unsigned int i,
                                     const unsigned int *js,
                                     const state_type &U_i,
                                     const state_type &U_j,
                                     const Vec &c_ij)
    {
      const auto flux_i = view.flux_contribution(pv, iv, i, U_i);
      const auto flux_j = view.flux_contribution(pv, iv, js, U_j);
      if constexpr (View::have_high_order_flux)
        return view.high_order_flux_divergence(flux_i, flux_j, c_ij);
      else
        return view.flux_divergence(flux_i, flux_j, c_ij);
    }

#ifdef HAVE_SOURCE
    static state_type source_i(const View &view,
                               const PV &pv,
                               const unsigned int i,
                               const state_type &U,
                               const typename View::ScalarNumber tau)
    {
      return view.nodal_source(pv, i, U, tau);
    }

    static state_type source_j(const View &view,
                               const PV &pv,
                               const unsigned int *js,
                               const state_type &U,
                               const typename View::ScalarNumber tau)
    {
      return view.nodal_source(pv, js, U, tau);
    }
#endif

#ifdef HAVE_STAR
    /* U_ij, U_ji and the affine shift of a pair of degrees of freedom */
    static std::array<state_type, 2> star(const View &view,
                                          const PV &pv,
                                          const IV &iv,
                                          const unsigned int i,
                                          const unsigned int *js,
                                          const state_type &U_i,
                                          const state_type &U_j)
    {
      const auto flux_i = view.flux_contribution(pv, iv, i, U_i);
      const auto flux_j = view.flux_contribution(pv, iv, js, U_j);
      return view.equilibrated_states(flux_i, flux_j);
    }

    static state_type shift(const View &view,
                            const PV &pv,
                            const IV &iv,
                            const unsigned int i,
                            const unsigned int *js,
                            const state_type &U_i,
                            const state_type &U_j,
                            const Vec &c_ij,
                            const Number &d_ij)
    {
      const auto flux_i = view.flux_contribution(pv, iv, i, U_i);
      const auto flux_j = view.flux_contribution(pv, iv, js, U_j);
      return view.affine_shift(flux_i, flux_j, c_ij, d_ij);
    }
#endif

    struct Check {
      void operator()(const unsigned int) const {}
    };

    static void precompute(const View &view,
                           unsigned int cycle,
                           const SparsityPatternSIMD<Lanes<Number>::n> &sparsity,
                           typename View::StateVector &state_vector,
                           unsigned int left,
                           unsigned int right)
    {
      view.precomputation_loop(
          cycle, Check(), sparsity, state_vector, left, right);
    }

#ifdef HAVE_RIEMANN
    static Number riemann(const SYS::RiemannSolver<dim, Number> &solver,
                          const state_type &U_i,
                          const state_type &U_j,
                          const unsigned int i,
                          const unsigned int *js,
                          const Vec &n_ij)
    {
      return solver.compute(U_i, U_j, i, js, n_ij);
    }
#endif

#ifdef HAVE_INDICATOR
    /* one indicator evaluation over a stencil of three */
    static Number indicator(SYS::Indicator<dim, Number> &indicator,
                            const unsigned int i,
                            const unsigned int *js0,
                            const unsigned int *js1,
                            const unsigned int *js2,
                            const state_type &U_i,
                            const state_type &U_1,
                            const state_type &U_2,
                            const Vec &c_0,
                            const Vec &c_1,
                            const Vec &c_2,
                            const Number hd_i)
    {
      indicator.reset(i, U_i);
      indicator.accumulate(js0, U_i, c_0);
      indicator.accumulate(js1, U_1, c_1);
      indicator.accumulate(js2, U_2, c_2);
      return indicator.alpha(hd_i);
    }
#endif
  };

  /* only ever used with a scalar number type */
  template <int dim>
  struct ScalarProbe {
    using Number = double;
    using View = SYS::HyperbolicSystemView<dim, Number>;
    using state_type = typename View::state_type;
    using Vec = dealii::Tensor<1, dim, Number>;

    static state_type boundary(const View &view,
                               const dealii::types::boundary_id id,
                               const state_type &U,
                               const Vec &normal,
                               const state_type &U_dirichlet)
    {
      return view.apply_boundary_conditions(
          id, U, normal, [&]() { return U_dirichlet; });
    }
  };
  template struct ScalarProbe<1>;
  template struct ScalarProbe<2>;
  template struct ScalarProbe<3>;
} // namespace probe

template class ryujin::SYS::IndicatorParameters<double>;
template class ryujin::SYS::LimiterParameters<double>;
template class ryujin::SYS::RiemannSolverParameters<double>;

#define INST(dim, Number)                                                      \
  template class ryujin::SYS::HyperbolicSystemView<dim, Number>;               \
  template class ryujin::SYS::Indicator<dim, Number>;                          \
  template class ryujin::SYS::Limiter<dim, Number>;                            \
  template class ryujin::SYS::RiemannSolver<dim, Number>;                      \
  template struct probe::Probe<dim, Number>;

INST(1, double)
INST(2, double)
INST(3, double)
INST(1, dealii::VectorizedArray<double>)
INST(2, dealii::VectorizedArray<double>)
INST(3, dealii::VectorizedArray<double>)
