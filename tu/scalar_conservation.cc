#include <compile_time_options.h>
#include <scalar_conservation/hyperbolic_system.h>
#include <scalar_conservation/indicator.h>
#include <scalar_conservation/limiter.template.h>
#include <scalar_conservation/riemann_solver.template.h>
#include <sparse_matrix_simd.h>
#include <type_traits>
namespace probe
{
  template <typename Number>
  struct Lanes {
    static constexpr int n = dealii::VectorizedArray<double>::size();
  };
} // namespace probe
#define SYS ScalarConservation
#define HAVE_RIEMANN
#define HAVE_INDICATOR
#include "probe.h"
