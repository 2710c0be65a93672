// Stand-ins for the GPU libraries: every call is handed, with its descriptors, to symtn.cutensor (python), which performs it
// on symbolic values or on plain numbers. Nothing here knows about the repository.
#define ACETN_SHIM_IMPL
#include "shim.h"
#include <torch/csrc/autograd/python_variable.h>

namespace py = pybind11;
namespace {
py::object mod() { return py::module_::import("symtn.cutensor"); }
}

namespace acetn_sym {
py::object to_python(num a) { return a.id ? mod().attr("term")(a.id) : py::object(py::float_(a.v)); }
num from_python(py::handle h) {
  if (PyFloat_Check(h.ptr()) || PyLong_Check(h.ptr())) return num{PyFloat_AsDouble(h.ptr()), 0};
  py::tuple r = mod().attr("intern")(py::reinterpret_borrow<py::object>(h));
  return num{r[0].cast<double>(), r[1].cast<int64_t>()};
}
double concrete(num a) {
  if (a.id) { py::float_ f = mod().attr("concrete")(to_python(a)); return static_cast<double>(f); }
  return a.v;
}
num binary(const char* op, num a, num b) {
  if (!a.id && !b.id) {
    switch (op[0]) {
      case 'a': return {a.v + b.v, 0};
      case 's': return {a.v - b.v, 0};
      case 'm': return {a.v * b.v, 0};
      default: return {a.v / b.v, 0};
    }
  }
  return from_python(mod().attr("binary")(op, to_python(a), to_python(b)));
}
bool compare(const char* op, num a, num b) {
  if (!a.id && !b.id) {
    std::string o(op);
    return o == "lt" ? a.v < b.v : o == "le" ? a.v <= b.v : o == "gt" ? a.v > b.v : o == "ge" ? a.v >= b.v : o == "eq" ? a.v == b.v : a.v != b.v;
  }
  return mod().attr("compare")(op, to_python(a), to_python(b)).cast<bool>();
}
num unary(const char* op, num a) {
  if (!a.id) return {op[0] == 'n' ? -a.v : op[0] == 's' ? std::sqrt(a.v) : std::abs(a.v), 0};
  return from_python(mod().attr("unary")(op, to_python(a)));
}
bool exhausted() { return mod().attr("exhausted")().cast<bool>(); }
num item(const at::Tensor& t) { return from_python(mod().attr("item")(t)); }
at::Tensor tensor_op(const char* op, const at::Tensor& t, num a, bool left) {
  return mod().attr("tensor_op")(op, t, to_python(a), left).cast<at::Tensor>();
}
}  // namespace acetn_sym

// ---- cuTENSOR -----------------------------------------------------------------------------------------------------------
namespace {
struct Desc { std::vector<int64_t> extent, stride; int type; };
struct Oper { Desc t[4]; std::vector<int> mode[4]; int op[3]; uintptr_t compute; };
struct Plan { Oper o; uint64_t limit; };
const char DT_[4] = {0, 1, 2, 3};
py::list ints(const std::vector<int64_t>& v) { py::list l; for (auto x : v) l.append(x); return l; }
py::list ints(const std::vector<int>& v) { py::list l; for (auto x : v) l.append(x); return l; }
char comp[8];
}

extern "C" {
const cutensorComputeDescriptor_t CUTENSOR_COMPUTE_DESC_16F = reinterpret_cast<cutensorComputeDescriptor_t>(comp + 1);
const cutensorComputeDescriptor_t CUTENSOR_COMPUTE_DESC_16BF = reinterpret_cast<cutensorComputeDescriptor_t>(comp + 2);
const cutensorComputeDescriptor_t CUTENSOR_COMPUTE_DESC_TF32 = reinterpret_cast<cutensorComputeDescriptor_t>(comp + 3);
const cutensorComputeDescriptor_t CUTENSOR_COMPUTE_DESC_3XTF32 = reinterpret_cast<cutensorComputeDescriptor_t>(comp + 4);
const cutensorComputeDescriptor_t CUTENSOR_COMPUTE_DESC_32F = reinterpret_cast<cutensorComputeDescriptor_t>(comp + 5);
const cutensorComputeDescriptor_t CUTENSOR_COMPUTE_DESC_64F = reinterpret_cast<cutensorComputeDescriptor_t>(comp + 6);

cutensorStatus_t cutensorCreate(cutensorHandle_t* h) { *h = reinterpret_cast<cutensorHandle_t>(comp); return CUTENSOR_STATUS_SUCCESS; }
cutensorStatus_t cutensorDestroy(cutensorHandle_t) { return CUTENSOR_STATUS_SUCCESS; }
const char* cutensorGetErrorString(const cutensorStatus_t) { return "cutensor"; }

cutensorStatus_t cutensorCreateTensorDescriptor(const cutensorHandle_t, cutensorTensorDescriptor_t* d, const uint32_t n,
    const int64_t extent[], const int64_t stride[], cutensorDataType_t type, uint32_t) {
  auto* x = new Desc;
  x->type = static_cast<int>(type);
  for (uint32_t i = 0; i < n; ++i) x->extent.push_back(extent[i]);
  if (stride) for (uint32_t i = 0; i < n; ++i) x->stride.push_back(stride[i]);
  else { int64_t s = 1; for (uint32_t i = 0; i < n; ++i) { x->stride.push_back(s); s *= extent[i]; } }      // column-major
  *d = reinterpret_cast<cutensorTensorDescriptor_t>(x);
  return CUTENSOR_STATUS_SUCCESS;
}
cutensorStatus_t cutensorDestroyTensorDescriptor(cutensorTensorDescriptor_t d) { delete reinterpret_cast<Desc*>(d); return CUTENSOR_STATUS_SUCCESS; }

cutensorStatus_t cutensorCreateContraction(const cutensorHandle_t, cutensorOperationDescriptor_t* o,
    const cutensorTensorDescriptor_t a, const int32_t ma[], cutensorOperator_t oa,
    const cutensorTensorDescriptor_t b, const int32_t mb[], cutensorOperator_t ob,
    const cutensorTensorDescriptor_t c, const int32_t mc[], cutensorOperator_t oc,
    const cutensorTensorDescriptor_t d, const int32_t md[], const cutensorComputeDescriptor_t compute) {
  auto* x = new Oper;
  const Desc* ds[4] = {reinterpret_cast<Desc*>(a), reinterpret_cast<Desc*>(b), reinterpret_cast<Desc*>(c), reinterpret_cast<Desc*>(d)};
  const int32_t* ms[4] = {ma, mb, mc, md};
  for (int i = 0; i < 4; ++i) {
    x->t[i] = *ds[i];
    x->mode[i] = std::vector<int>(ms[i], ms[i] + ds[i]->extent.size());
  }
  x->op[0] = oa; x->op[1] = ob; x->op[2] = oc;
  x->compute = reinterpret_cast<uintptr_t>(compute) - reinterpret_cast<uintptr_t>(comp);
  *o = reinterpret_cast<cutensorOperationDescriptor_t>(x);
  return CUTENSOR_STATUS_SUCCESS;
}
cutensorStatus_t cutensorDestroyOperationDescriptor(cutensorOperationDescriptor_t o) { delete reinterpret_cast<Oper*>(o); return CUTENSOR_STATUS_SUCCESS; }
cutensorStatus_t cutensorCreatePlanPreference(const cutensorHandle_t, cutensorPlanPreference_t* p, cutensorAlgo_t, cutensorJitMode_t) {
  *p = reinterpret_cast<cutensorPlanPreference_t>(comp + 7); return CUTENSOR_STATUS_SUCCESS; }
cutensorStatus_t cutensorDestroyPlanPreference(cutensorPlanPreference_t) { return CUTENSOR_STATUS_SUCCESS; }
cutensorStatus_t cutensorPlanPreferenceSetAttribute(const cutensorHandle_t, cutensorPlanPreference_t, cutensorPlanPreferenceAttribute_t, const void*, size_t) { return CUTENSOR_STATUS_SUCCESS; }
cutensorStatus_t cutensorEstimateWorkspaceSize(const cutensorHandle_t, const cutensorOperationDescriptor_t, const cutensorPlanPreference_t,
    const cutensorWorksizePreference_t pref, uint64_t* size) {
  *size = mod().attr("workspace")(static_cast<int>(pref)).cast<uint64_t>(); return CUTENSOR_STATUS_SUCCESS; }
cutensorStatus_t cutensorCreatePlan(const cutensorHandle_t, cutensorPlan_t* p, const cutensorOperationDescriptor_t o,
    const cutensorPlanPreference_t, uint64_t limit) {
  *p = reinterpret_cast<cutensorPlan_t>(new Plan{*reinterpret_cast<Oper*>(o), limit}); return CUTENSOR_STATUS_SUCCESS; }
cutensorStatus_t cutensorDestroyPlan(cutensorPlan_t p) { delete reinterpret_cast<Plan*>(p); return CUTENSOR_STATUS_SUCCESS; }
cutensorStatus_t cutensorPlanGetAttribute(const cutensorHandle_t, const cutensorPlan_t p, cutensorPlanAttribute_t a, void* buf, size_t n) {
  if (a == CUTENSOR_PLAN_REQUIRED_WORKSPACE && n == sizeof(uint64_t)) *static_cast<uint64_t*>(buf) = reinterpret_cast<Plan*>(p)->limit;
  return CUTENSOR_STATUS_SUCCESS; }

static py::object factor(const void* p, int type) {
  // the substituted number types are 16 (real) and 32 bytes (complex) wide
  auto* x = static_cast<const acetn_sym::num*>(p);
  bool c = type == CUTENSOR_C_32F || type == CUTENSOR_C_64F;
  if (!c) return acetn_sym::to_python(x[0]);
  py::object im = acetn_sym::to_python(x[1]);
  if (py::isinstance<py::float_>(im) && im.cast<double>() == 0.) return acetn_sym::to_python(x[0]);
  return acetn_sym::to_python(x[0]) + im * py::cast(std::complex<double>(0., 1.));
}
cutensorStatus_t cutensorContract(const cutensorHandle_t, const cutensorPlan_t p, const void* alpha, const void* A, const void* B,
    const void* beta, const void* C, void* D, void* workspace, uint64_t wsize, cudaStream_t) {
  const Plan& q = *reinterpret_cast<Plan*>(p);
  py::list ts;
  const void* ptr[4] = {A, B, C, D};
  for (int i = 0; i < 4; ++i)
    ts.append(py::make_tuple(reinterpret_cast<uintptr_t>(ptr[i]), ints(q.o.t[i].extent), ints(q.o.t[i].stride), ints(q.o.mode[i]),
                             q.o.t[i].type, i < 3 ? q.o.op[i] : static_cast<int>(CUTENSOR_OP_IDENTITY)));
  mod().attr("contract")(ts, factor(alpha, q.o.t[0].type), factor(beta, q.o.t[0].type), static_cast<int>(q.o.compute),
                         reinterpret_cast<uintptr_t>(workspace), wsize, q.limit);
  return CUTENSOR_STATUS_SUCCESS;
}

// ---- cuSOLVER -----------------------------------------------------------------------------------------------------------
cusolverStatus_t cusolverDnCreate(cusolverDnHandle_t* h) { *h = reinterpret_cast<cusolverDnHandle_t>(comp); return CUSOLVER_STATUS_SUCCESS; }
cusolverStatus_t cusolverDnDestroy(cusolverDnHandle_t) { return CUSOLVER_STATUS_SUCCESS; }
cusolverStatus_t cusolverDnSetStream(cusolverDnHandle_t, cudaStream_t) { return CUSOLVER_STATUS_SUCCESS; }
#define SOLVER(P, T, CODE) \
cusolverStatus_t cusolverDn##P##potrf_bufferSize(cusolverDnHandle_t, cublasFillMode_t, int, T*, int, int* l) { *l = 8; return CUSOLVER_STATUS_SUCCESS; } \
cusolverStatus_t cusolverDn##P##potrf(cusolverDnHandle_t, cublasFillMode_t u, int n, T* A, int lda, T* w, int l, int* info) { \
  mod().attr("potrf")(CODE, u == CUBLAS_FILL_MODE_UPPER, n, reinterpret_cast<uintptr_t>(A), lda, reinterpret_cast<uintptr_t>(w), l, reinterpret_cast<uintptr_t>(info)); \
  return CUSOLVER_STATUS_SUCCESS; } \
cusolverStatus_t cusolverDn##P##potrs(cusolverDnHandle_t, cublasFillMode_t u, int n, int r, const T* A, int lda, T* B, int ldb, int* info) { \
  mod().attr("potrs")(CODE, u == CUBLAS_FILL_MODE_UPPER, n, r, reinterpret_cast<uintptr_t>(A), lda, reinterpret_cast<uintptr_t>(B), ldb, reinterpret_cast<uintptr_t>(info)); \
  return CUSOLVER_STATUS_SUCCESS; }
SOLVER(S, float, "f4") SOLVER(D, double, "f8") SOLVER(C, cuComplex, "c8") SOLVER(Z, cuDoubleComplex, "c16")
}
