// Force-included before every source of the extension (symbolic execution of csrc with a symbolic number type).
// The real torch, CUDA, cuTENSOR and cuSOLVER headers are read first; afterwards `double` and `float` in the repository's
// sources name number types that are ordinary numbers on concrete runs and terms of the symbolic domain otherwise.
#pragma once
#include <bits/stdc++.h>
#include <torch/extension.h>
#include <ATen/cuda/CUDAContext.h>
#include <c10/cuda/CUDAGuard.h>
#include <cuda_runtime.h>
#include <cutensor.h>
#include <cusolverDn.h>
#include <c10/util/complex.h>

namespace acetn_sym {

struct num {          // id == 0: the number v; otherwise a term kept by the symbolic engine
  double v; int64_t id;
};
num binary(const char* op, num a, num b);
bool compare(const char* op, num a, num b);
num unary(const char* op, num a);
num item(const at::Tensor& t);
at::Tensor tensor_op(const char* op, const at::Tensor& t, num a, bool left);
num from_python(pybind11::handle h);
pybind11::object to_python(num a);
double concrete(num a);
bool exhausted();

template <typename B> struct Sym {
  num n;
  constexpr Sym() : n{0., 0} {}
  constexpr Sym(num x) : n(x) {}
  template <typename A, std::enable_if_t<std::is_arithmetic_v<A>, int> = 0>
  constexpr Sym(A a) : n{static_cast<double>(a), 0} {}
  template <typename O, std::enable_if_t<!std::is_same_v<O, B>, int> = 0>
  Sym(const Sym<O>& o) : n(o.n) { if (!n.id) n.v = static_cast<B>(n.v); }
  operator double() const { return concrete(n); }
  template <typename A, std::enable_if_t<std::is_arithmetic_v<A> && !std::is_same_v<A, double>, int> = 0>
  explicit operator A() const { return static_cast<A>(concrete(n)); }
  operator c10::Scalar() const { return c10::Scalar(concrete(n)); }
  Sym operator-() const { return Sym(unary("neg", n)); }
  Sym operator+() const { return *this; }
  Sym& operator+=(Sym o) { n = binary("add", n, o.n); return *this; }
  Sym& operator-=(Sym o) { n = binary("sub", n, o.n); return *this; }
  Sym& operator*=(Sym o) { n = binary("mul", n, o.n); return *this; }
  Sym& operator/=(Sym o) { n = binary("div", n, o.n); return *this; }
};

template <typename T> struct is_sym : std::false_type {};
template <typename B> struct is_sym<Sym<B>> : std::true_type {};
template <typename T> constexpr bool numeric = is_sym<T>::value || std::is_arithmetic_v<T>;
template <typename L, typename R> constexpr bool mixed = (is_sym<L>::value || is_sym<R>::value) && numeric<L> && numeric<R>;
template <typename T> inline num lift(const T& x) { if constexpr (is_sym<T>::value) return x.n; else return num{static_cast<double>(x), 0}; }
template <typename L, typename R> struct wider { using type = L; };
template <typename R> struct wider<Sym<float>, R> { using type = std::conditional_t<std::is_same_v<R, Sym<double>> || std::is_same_v<R, double>, Sym<double>, Sym<float>>; };
template <typename A, typename B> struct wider<A, Sym<B>> { using type = std::conditional_t<is_sym<A>::value, typename wider<Sym<B>, std::conditional_t<is_sym<A>::value, int, A>>::type, typename wider<Sym<B>, A>::type>; };
template <> struct wider<Sym<float>, Sym<float>> { using type = Sym<float>; };
template <> struct wider<Sym<float>, Sym<double>> { using type = Sym<double>; };
template <> struct wider<Sym<double>, Sym<float>> { using type = Sym<double>; };
template <> struct wider<Sym<double>, Sym<double>> { using type = Sym<double>; };

#define ACETN_AR(OP, NAME) \
  template <typename L, typename R, std::enable_if_t<mixed<L, R>, int> = 0> \
  typename wider<L, R>::type operator OP(const L& a, const R& b) { return typename wider<L, R>::type(binary(NAME, lift(a), lift(b))); }
ACETN_AR(+, "add") ACETN_AR(-, "sub") ACETN_AR(*, "mul") ACETN_AR(/, "div")
#undef ACETN_AR
#define ACETN_CMP(OP, NAME) \
  template <typename L, typename R, std::enable_if_t<mixed<L, R>, int> = 0> \
  bool operator OP(const L& a, const R& b) { return compare(NAME, lift(a), lift(b)); }
ACETN_CMP(<, "lt") ACETN_CMP(<=, "le") ACETN_CMP(>, "gt") ACETN_CMP(>=, "ge") ACETN_CMP(==, "eq") ACETN_CMP(!=, "ne")
#undef ACETN_CMP
#define ACETN_T(OP, NAME) \
  template <typename B> at::Tensor operator OP(const at::Tensor& t, const Sym<B>& a) { return tensor_op(NAME, t, a.n, false); } \
  template <typename B> at::Tensor operator OP(const Sym<B>& a, const at::Tensor& t) { return tensor_op(NAME, t, a.n, true); }
ACETN_T(+, "add") ACETN_T(-, "sub") ACETN_T(*, "mul") ACETN_T(/, "div")
#undef ACETN_T
template <typename B> at::Tensor& operator+=(at::Tensor& t, const Sym<B>& a) { t.add_(tensor_op("mul", at::ones_like(t), a.n, false)); return t; }
template <typename B> at::Tensor& operator-=(at::Tensor& t, const Sym<B>& a) { t.sub_(tensor_op("mul", at::ones_like(t), a.n, false)); return t; }
template <typename B> at::Tensor& operator*=(at::Tensor& t, const Sym<B>& a) { t.copy_(tensor_op("mul", t, a.n, false)); return t; }
template <typename B> at::Tensor& operator/=(at::Tensor& t, const Sym<B>& a) { t.copy_(tensor_op("div", t, a.n, false)); return t; }

template <typename B> std::ostream& operator<<(std::ostream& o, const Sym<B>& a) { return o << (a.n.id ? std::nan("") : a.n.v); }

template <typename B> Sym<B> abs(const Sym<B>& a) { return Sym<B>(unary("abs", a.n)); }
template <typename B> Sym<B> fabs(const Sym<B>& a) { return Sym<B>(unary("abs", a.n)); }
template <typename B> Sym<B> sqrt(const Sym<B>& a) { return Sym<B>(unary("sqrt", a.n)); }
template <typename L, typename R, std::enable_if_t<mixed<L, R>, int> = 0>
typename wider<L, R>::type max(const L& a, const R& b) { using W = typename wider<L, R>::type; return a < b ? W(b) : W(a); }
template <typename L, typename R, std::enable_if_t<mixed<L, R>, int> = 0>
typename wider<L, R>::type min(const L& a, const R& b) { using W = typename wider<L, R>::type; return b < a ? W(b) : W(a); }

using symdouble = Sym<double>;
using symfloat = Sym<float>;
inline cudaStream_t current_stream(int = -1) { return nullptr; }
}  // namespace acetn_sym

namespace std {
using acetn_sym::abs;
using acetn_sym::fabs;
using acetn_sym::sqrt;
template <typename B> bool isnan(const acetn_sym::Sym<B>& a) { return !a.n.id && std::isnan(a.n.v); }
template <typename B> bool isfinite(const acetn_sym::Sym<B>& a) { return a.n.id || std::isfinite(a.n.v); }
template <typename B> bool isinf(const acetn_sym::Sym<B>& a) { return !a.n.id && std::isinf(a.n.v); }
template <typename B> struct numeric_limits<acetn_sym::Sym<B>> : numeric_limits<B> {};
}  // namespace std

namespace c10 {
// constants only (the factors of a contraction); symbolic values never pass through complex numbers in the sources
#define ACETN_CPLX(S) \
template <> struct complex<S> { \
  using value_type = S; \
  S real_, imag_; \
  constexpr complex() : real_(0.), imag_(0.) {} \
  constexpr complex(S re, S im = S(0.)) : real_(re), imag_(im) {} \
  template <typename A, std::enable_if_t<std::is_arithmetic_v<A>, int> = 0> constexpr complex(A a) : real_(a), imag_(0.) {} \
  constexpr S real() const { return real_; } \
  constexpr S imag() const { return imag_; } \
};
ACETN_CPLX(acetn_sym::symdouble)
ACETN_CPLX(acetn_sym::symfloat)
#undef ACETN_CPLX
}  // namespace c10

namespace at {
template <> inline acetn_sym::symdouble Tensor::item<acetn_sym::symdouble>() const { return acetn_sym::item(*this); }
template <> inline acetn_sym::symfloat Tensor::item<acetn_sym::symfloat>() const { return acetn_sym::item(*this); }
#define ACETN_PTR(S) \
template <> inline S* TensorBase::data_ptr<S>() const { return reinterpret_cast<S*>(this->data_ptr()); } \
template <> inline S* TensorBase::mutable_data_ptr<S>() const { return reinterpret_cast<S*>(this->data_ptr()); }
ACETN_PTR(acetn_sym::symdouble) ACETN_PTR(acetn_sym::symfloat)
ACETN_PTR(c10::complex<acetn_sym::symdouble>) ACETN_PTR(c10::complex<acetn_sym::symfloat>)
#undef ACETN_PTR
namespace cuda { using acetn_sym::current_stream; }
inline TensorOptions acetn_device(ScalarType t) {
  if (acetn_sym::exhausted()) throw std::runtime_error("CUDA out of memory");
  return TensorOptions().device(kCPU).dtype(t);
}
}  // namespace at

namespace c10 { namespace cuda { using acetn_sym::current_stream; } }

namespace pybind11 { namespace detail {
template <typename B> struct type_caster<acetn_sym::Sym<B>> {
  PYBIND11_TYPE_CASTER(acetn_sym::Sym<B>, const_name("float"));
  bool load(handle h, bool) { value = acetn_sym::Sym<B>(acetn_sym::from_python(h)); return true; }
  static handle cast(const acetn_sym::Sym<B>& a, return_value_policy, handle) { return acetn_sym::to_python(a.n).release(); }
};
}}  // namespace pybind11::detail

// cuSOLVER routines for the substituted number types (the complex and the remaining ones come with the library's headers)
#define ACETN_SOLVER(S, P, REAL) \
inline cusolverStatus_t cusolverDn##P##potrf_bufferSize(cusolverDnHandle_t h, cublasFillMode_t u, int n, S* A, int lda, int* l) \
  { return cusolverDn##P##potrf_bufferSize(h, u, n, reinterpret_cast<REAL*>(A), lda, l); } \
inline cusolverStatus_t cusolverDn##P##potrf(cusolverDnHandle_t h, cublasFillMode_t u, int n, S* A, int lda, S* w, int l, int* i) \
  { return cusolverDn##P##potrf(h, u, n, reinterpret_cast<REAL*>(A), lda, reinterpret_cast<REAL*>(w), l, i); } \
inline cusolverStatus_t cusolverDn##P##potrs(cusolverDnHandle_t h, cublasFillMode_t u, int n, int r, const S* A, int lda, S* B, int ldb, int* i) \
  { return cusolverDn##P##potrs(h, u, n, r, reinterpret_cast<const REAL*>(A), lda, reinterpret_cast<REAL*>(B), ldb, i); }
ACETN_SOLVER(acetn_sym::symdouble, D, double)
ACETN_SOLVER(acetn_sym::symfloat, S, float)
#undef ACETN_SOLVER

using acetn_sym::symdouble;
using acetn_sym::symfloat;

#ifndef ACETN_SHIM_IMPL
#define ACETN_CASE(E, T, ...) case at::ScalarType::E: { using scalar_t [[maybe_unused]] = T; return __VA_ARGS__(); }
#define ACETN_DISPATCH(TYPE, NAME, CASES) [&] { switch (TYPE) { CASES default: \
    throw std::runtime_error(std::string(NAME) + " not implemented for this type"); } }()
#undef AT_DISPATCH_FLOATING_AND_COMPLEX_TYPES
#define AT_DISPATCH_FLOATING_AND_COMPLEX_TYPES(TYPE, NAME, ...) ACETN_DISPATCH(TYPE, NAME, \
    ACETN_CASE(Double, symdouble, __VA_ARGS__) ACETN_CASE(Float, symfloat, __VA_ARGS__) \
    ACETN_CASE(ComplexDouble, c10::complex<symdouble>, __VA_ARGS__) ACETN_CASE(ComplexFloat, c10::complex<symfloat>, __VA_ARGS__))
#undef AT_DISPATCH_FLOATING_TYPES
#define AT_DISPATCH_FLOATING_TYPES(TYPE, NAME, ...) ACETN_DISPATCH(TYPE, NAME, \
    ACETN_CASE(Double, symdouble, __VA_ARGS__) ACETN_CASE(Float, symfloat, __VA_ARGS__))
#undef AT_DISPATCH_COMPLEX_TYPES
#define AT_DISPATCH_COMPLEX_TYPES(TYPE, NAME, ...) ACETN_DISPATCH(TYPE, NAME, \
    ACETN_CASE(ComplexDouble, c10::complex<symdouble>, __VA_ARGS__) ACETN_CASE(ComplexFloat, c10::complex<symfloat>, __VA_ARGS__))
#define getCurrentCUDAStream current_stream
#define CUDA(TYPE) acetn_device(TYPE)          // memory is allocated on the host
#define kCUDA kCPU
#define double symdouble
#define float symfloat
#endif
