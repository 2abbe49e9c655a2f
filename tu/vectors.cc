// flags: -mavx -mno-avx512f
/* vectors, entries and lanes for widths the library of this machine is not built for: only ever analysed, never linked */
#include <deal.II/base/config.h>
#undef DEAL_II_VECTORIZATION_WIDTH_IN_BITS
#define DEAL_II_VECTORIZATION_WIDTH_IN_BITS 256
#include <compile_time_options.h>
#include <multicomponent_vector.h>
#include <simd.h>
#include <local_index_handling.h>
#include <array>

namespace probe
{
  template <int n, int W>
  struct Vec {
    using M = ryujin::Vectors::MultiComponentVector<double, n, W>;
    using V = dealii::VectorizedArray<double, W>;
    using T = dealii::Tensor<1, n, double>;
    using TV = dealii::Tensor<1, n, V>;
    using S = dealii::LinearAlgebra::distributed::Vector<double>;
    static T get(const M &m, unsigned int i) { return m.template get_tensor<double>(i); }
    static T get_js(const M &m, const unsigned int *js) { return m.template get_tensor<double>(js); }
    static void put(M &m, const T &x, unsigned int i) { m.template write_tensor<double>(x, i); }
    static void add(M &m, const T &x, unsigned int i) { m.template add_tensor<double>(x, i); }
    static TV get_v(const M &m, unsigned int i) { return m.template get_tensor<V>(i); }
    static TV get_js_v(const M &m, const unsigned int *js) { return m.template get_tensor<V>(js); }
    static void put_v(M &m, const TV &x, unsigned int i) { m.template write_tensor<V>(x, i); }
    static void add_v(M &m, const TV &x, unsigned int i) { m.template add_tensor<V>(x, i); }
    static void extract(const M &m, S &s, unsigned int c) { m.extract_component(s, c); }
    static void insert(M &m, const S &s, unsigned int c) { m.insert_component(s, c); }
    static void reinit(M &m, const std::shared_ptr<const dealii::Utilities::MPI::Partitioner> &p) { m.reinit_with_scalar_partitioner(p); }
  };

  template <int W>
  struct Entry {
    using V = dealii::VectorizedArray<double, W>;
    using F = dealii::VectorizedArray<float, W>;
    using S = dealii::LinearAlgebra::distributed::Vector<double>;
    static double get(const S &s, unsigned int i) { return ryujin::get_entry<double>(s, i); }
    static V get_v(const S &s, unsigned int i) { return ryujin::get_entry<V>(s, i); }
    static double get_js(const S &s, const unsigned int *js) { return ryujin::get_entry<double>(s, js); }
    static V get_js_v(const S &s, const unsigned int *js) { return ryujin::get_entry<V>(s, js); }
    static void put(S &s, double x, unsigned int i) { ryujin::write_entry<double>(s, x, i); }
    static void put_v(S &s, V x, unsigned int i) { ryujin::write_entry<V>(s, x, i); }
    static double aget(const std::vector<double> &s, unsigned int i) { return ryujin::get_entry<double>(s, i); }
    static V aget_v(const std::vector<double> &s, unsigned int i) { return ryujin::get_entry<V>(s, i); }
    static double aget_f(const std::vector<float> &s, unsigned int i) { return ryujin::get_entry<double>(s, i); }
    static V aget_fv(const std::vector<float> &s, unsigned int i) { return ryujin::get_entry<V>(s, i); }
    static double aget_js(const std::vector<double> &s, const unsigned int *js) { return ryujin::get_entry<double>(s, js); }
    static void aput(std::vector<double> &s, double x, unsigned int i) { ryujin::write_entry<double>(s, x, i); }
    static void aput_v(std::vector<double> &s, V x, unsigned int i) { ryujin::write_entry<V>(s, x, i); }
    static void aput_f(std::vector<float> &s, double x, unsigned int i) { ryujin::write_entry<double>(s, x, i); }
    static void aput_fv(std::vector<float> &s, V x, unsigned int i) { ryujin::write_entry<V>(s, x, i); }
    static auto ser(const dealii::Tensor<1, 3, V> &x, unsigned int k) { return ryujin::serialize_tensor(x, k); }
    static auto ser2(const dealii::Tensor<2, 2, V> &x, unsigned int k) { return ryujin::serialize_tensor(x, k); }
    static void asg(dealii::Tensor<1, 3, V> &x, const dealii::Tensor<1, 3, double> &y, unsigned int k) { ryujin::assign_serial_tensor(x, y, k); }
    static void asg2(dealii::Tensor<2, 2, V> &x, const dealii::Tensor<2, 2, double> &y, unsigned int k) { ryujin::assign_serial_tensor(x, y, k); }
  };

  template <int dim>
  struct Number {
    using D = dealii::DoFHandler<dim>;
    static unsigned int exported(D &d, MPI_Comm c, unsigned int n, std::size_t g) { return ryujin::DoFRenumbering::export_indices_first(d, c, n, g); }
    static unsigned int strides(D &d, const dealii::DynamicSparsityPattern &s, unsigned int n, std::size_t g) { return ryujin::DoFRenumbering::inconsistent_strides_last(d, s, n, g); }
    static unsigned int internal(D &d, const dealii::DynamicSparsityPattern &s, std::size_t g) { return ryujin::DoFRenumbering::internal_range(d, s, g); }
    static void constraints(const dealii::Utilities::MPI::Partitioner &p, dealii::AffineConstraints<double> &a) { ryujin::transform_to_local_range(p, a); }
    static void vector(const dealii::Utilities::MPI::Partitioner &p, std::vector<unsigned int> &a) { ryujin::transform_to_local_range(p, a); }
  };
} // namespace probe

#define V_(n, W) template struct probe::Vec<n, W>;
#define VS(W) V_(1, W) V_(2, W) V_(3, W) V_(5, W)
VS(1)
VS(4)
template struct probe::Entry<1>;
template struct probe::Entry<4>;
template struct probe::Number<2>;
