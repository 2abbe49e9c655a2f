#include <compile_time_options.h>
#include <euler_aeos/hyperbolic_system.h>
#include <euler_aeos/indicator.h>
#include <euler_aeos/limiter.template.h>
#include <euler_aeos/riemann_solver.template.h>
#include <sparse_matrix_simd.h>
#include <type_traits>
namespace probe
{
  template <typename Number>
  struct Lanes {
    static constexpr int n = dealii::VectorizedArray<double>::size();
  };
} // namespace probe
#define SYS EulerAEOS
#define HAVE_INITIAL
#define HAVE_RIEMANN
#define HAVE_INDICATOR
#include "probe.h"
