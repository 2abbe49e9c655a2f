// flags: -mavx -mno-avx512f
/* the SIMD matrix for lanes the library of this machine is not built for: only ever analysed, never linked */
#include <deal.II/base/config.h>
#undef DEAL_II_VECTORIZATION_WIDTH_IN_BITS
#define DEAL_II_VECTORIZATION_WIDTH_IN_BITS 256
#include <compile_time_options.h>
#include <sparse_matrix_simd.template.h>
#include <multicomponent_vector.h>
#include <array>

#define INST(n, W)                                                             \
  template class ryujin::SparseMatrixSIMD<double, n, W>;                       \
  namespace probe                                                              \
  {                                                                            \
    template <>                                                                \
    struct Matrix<n, W> {                                                      \
      using M = ryujin::SparseMatrixSIMD<double, n, W>;                        \
      using V = dealii::VectorizedArray<double, W>;                            \
      using T = dealii::Tensor<1, n, double>;                                  \
      using TV = dealii::Tensor<1, n, V>;                                      \
      static auto get(const M &m, unsigned int i, unsigned int p) { return m.template get_entry<double>(i, p); } \
      static T get_t(const M &m, unsigned int i, unsigned int p) { return m.template get_tensor<double>(i, p); } \
      static TV get_v(const M &m, unsigned int i, unsigned int p) { return m.template get_tensor<V>(i, p); } \
      static auto get_ve(const M &m, unsigned int i, unsigned int p) { return m.template get_entry<V>(i, p); } \
      static auto tr(const M &m, unsigned int i, unsigned int p) { return m.template get_transposed_entry<double>(i, p); } \
      static T tr_t(const M &m, unsigned int i, unsigned int p) { return m.template get_transposed_tensor<double>(i, p); } \
      static auto tr_v(const M &m, unsigned int i, unsigned int p) { return m.template get_transposed_entry<V>(i, p); } \
      static void put_t(M &m, const T &x, unsigned int i, unsigned int p, bool s) { m.write_entry(x, i, p, s); } \
      static void put_v(M &m, const TV &x, unsigned int i, unsigned int p, bool s) { m.write_entry(x, i, p, s); } \
    };                                                                         \
  }

namespace probe
{
  template <int n, int W>
  struct Matrix;

  struct Source {
    double operator()(unsigned int i, unsigned int j) const;
    double el(unsigned int i, unsigned int j) const;
  };

  template <int W>
  void read_one(ryujin::SparseMatrixSIMD<double, 1, W> &m, const Source &s, bool l) { m.read_in(s, l); }
  template <int n, int W>
  void read_many(ryujin::SparseMatrixSIMD<double, n, W> &m, const std::array<Source, n> &s, bool l) { m.read_in(s, l); }
  template <int W>
  void put_one(ryujin::SparseMatrixSIMD<double, 1, W> &m, double x, unsigned int i, unsigned int p) { m.write_entry(x, i, p); }
  template <int W>
  void put_one_v(ryujin::SparseMatrixSIMD<double, 1, W> &m, dealii::VectorizedArray<double, W> x, unsigned int i, unsigned int p, bool s) { m.write_entry(x, i, p, s); }
} // namespace probe

template class ryujin::SparsityPatternSIMD<1>;
template class ryujin::SparsityPatternSIMD<4>;
INST(1, 1)
INST(2, 1)
INST(3, 1)
INST(1, 4)
INST(2, 4)
INST(3, 4)
#define ONE(W)                                                                 \
  template void probe::read_one<W>(ryujin::SparseMatrixSIMD<double, 1, W> &, const Source &, bool); \
  template void probe::put_one<W>(ryujin::SparseMatrixSIMD<double, 1, W> &, double, unsigned int, unsigned int); \
  template void probe::put_one_v<W>(ryujin::SparseMatrixSIMD<double, 1, W> &, dealii::VectorizedArray<double, W>, unsigned int, unsigned int, bool); \
  template void probe::read_many<2, W>(ryujin::SparseMatrixSIMD<double, 2, W> &, const std::array<Source, 2> &, bool); \
  template void probe::read_many<3, W>(ryujin::SparseMatrixSIMD<double, 3, W> &, const std::array<Source, 3> &, bool);
ONE(1)
ONE(4)
