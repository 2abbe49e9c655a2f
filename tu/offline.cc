// flags: -mavx -mno-avx512f
/* numbering and assembly for a width the library of this machine is not built for: only ever analysed, never linked */
#define dealii_numbers_h
#include <deal.II/base/config.h>
#undef dealii_numbers_h
#undef DEAL_II_VECTORIZATION_WIDTH_IN_BITS
#define DEAL_II_VECTORIZATION_WIDTH_IN_BITS 256
#include <deal.II/base/numbers.h>
#include <compile_time_options.h>
#include <offline_data.template.h>

template class ryujin::OfflineData<2, double>;
