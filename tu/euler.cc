#include <compile_time_options.h>
#include <euler/hyperbolic_system.h>
#include <euler/indicator.h>
#include <euler/limiter.template.h>
#include <euler/riemann_solver.template.h>
#include <sparse_matrix_simd.h>
#include <type_traits>
namespace probe
{
  template <typename Number>
  struct Lanes {
    static constexpr int n = dealii::VectorizedArray<double>::size();
  };
} // namespace probe
#define SYS Euler
#define HAVE_INITIAL
#define HAVE_RIEMANN
#define HAVE_INDICATOR
#include "probe.h"
