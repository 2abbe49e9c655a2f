#include <compile_time_options.h>
#include <euler_aeos/equation_of_state_function.h>
#include <euler_aeos/equation_of_state_jones_wilkins_lee.h>
#include <euler_aeos/equation_of_state_noble_abel_stiffened_gas.h>
#include <euler_aeos/equation_of_state_polytropic_gas.h>
#include <euler_aeos/equation_of_state_van_der_waals.h>
namespace probe
{
  using E = ryujin::EquationOfStateLibrary::EquationOfState;
  double pressure(const E &e, double r, double x) { return e.pressure(r, x); }
} // namespace probe
