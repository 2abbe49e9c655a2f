#include <compile_time_options.h>
#include <shallow_water/hyperbolic_system.h>
#include <shallow_water/indicator.h>
#include <shallow_water/limiter.template.h>
#include <shallow_water/riemann_solver.template.h>
#include <sparse_matrix_simd.h>
#include <type_traits>
namespace probe
{
  template <typename Number>
  struct Lanes {
    static constexpr int n = dealii::VectorizedArray<double>::size();
  };
} // namespace probe
#define SYS ShallowWater
#define HAVE_INITIAL
#define HAVE_SOURCE
#define HAVE_STAR
#define HAVE_RIEMANN
#define HAVE_INDICATOR
#include "probe.h"
