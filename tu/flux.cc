#include <compile_time_options.h>
#include <scalar_conservation/flux_burgers.h>
#include <scalar_conservation/flux_function.h>
#include <scalar_conservation/flux_kpp.h>
namespace probe
{
  using F = ryujin::FluxLibrary::Flux;
  double value(const F &f, double u, unsigned int d) { return f.value(u, d); }
} // namespace probe
