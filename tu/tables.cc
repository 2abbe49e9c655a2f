/* the conversion tables of the enumerations as functions */
#include <patterns_conversion.h>
#undef DECLARE_ENUM
#define DECLARE_ENUM(type, s)                                                  \
  namespace probe                                                              \
  {                                                                            \
    inline std::vector<std::tuple<type, std::string>> table(type)              \
    {                                                                          \
      return {s};                                                              \
    }                                                                          \
  }                                                                            \
  static_assert(true, "")
#include <discretization.h>
#include <mesh_adaptor.h>
#include <time_integrator.h>
