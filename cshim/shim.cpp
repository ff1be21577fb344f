// CPU stand-ins for the parts of cuTENSOR, cuSOLVER and CUDA which csrc uses. They execute the descriptors exactly as the
// documentation of the libraries says, and refuse what the libraries refuse.
#include <cutensor.h>
#include <cusolverDn.h>
#include <cuda_runtime.h>
#include <c10/cuda/CUDAStream.h>
#include <complex>
#include <cmath>
#include <cstring>
#include <map>
#include <set>
#include <type_traits>
#include <vector>

struct cutensorHandle { int dummy; };
struct cutensorComputeDescriptor { int bits; };
struct cutensorTensorDescriptor { std::vector<int64_t> extent, stride; cutensorDataType_t type; };
struct cutensorOperationDescriptor {
  cutensorTensorDescriptor t[4];
  std::vector<int32_t> mode[4];
  cutensorOperator_t op[3];
  cutensorComputeDescriptor_t compute;
};
struct cutensorPlanPreference { int dummy; };
struct cutensorPlan { cutensorOperationDescriptor d; };

static cutensorComputeDescriptor desc32{32}, desc64{64};
static long live = 0;

extern "C" {
const cutensorComputeDescriptor_t CUTENSOR_COMPUTE_DESC_32F = &desc32;
const cutensorComputeDescriptor_t CUTENSOR_COMPUTE_DESC_64F = &desc64;
long verif_live_objects() { return live; }

const char* cutensorGetErrorString(const cutensorStatus_t s) { return s == CUTENSOR_STATUS_SUCCESS ? "success" : s == CUTENSOR_STATUS_INVALID_VALUE ? "invalid value" : s == CUTENSOR_STATUS_NOT_SUPPORTED ? "not supported" : "error"; }
cutensorStatus_t cutensorCreate(cutensorHandle_t* h) { *h = new cutensorHandle{0}; return CUTENSOR_STATUS_SUCCESS; }
cutensorStatus_t cutensorDestroy(cutensorHandle_t h) { delete h; return CUTENSOR_STATUS_SUCCESS; }

cutensorStatus_t cutensorCreateTensorDescriptor(const cutensorHandle_t h, cutensorTensorDescriptor_t* d, const uint32_t n, const int64_t extent[], const int64_t stride[], cutensorDataType_t type, uint32_t align) {
  if (!h || align == 0 || (align & (align - 1))) return CUTENSOR_STATUS_INVALID_VALUE;
  auto* r = new cutensorTensorDescriptor;
  r->type = type;
  int64_t s = 1;
  for (uint32_t i = 0; i < n; i++) {
    if (extent[i] <= 0) { delete r; return CUTENSOR_STATUS_INVALID_VALUE; }
    r->extent.push_back(extent[i]);
  }
  r->stride.resize(n);
  for (uint32_t i = 0; i < n; i++) { r->stride[i] = stride ? stride[i] : s; s *= extent[i]; }
  *d = r; live++;
  return CUTENSOR_STATUS_SUCCESS;
}
cutensorStatus_t cutensorDestroyTensorDescriptor(cutensorTensorDescriptor_t d) { delete d; live--; return CUTENSOR_STATUS_SUCCESS; }

cutensorStatus_t cutensorCreateContraction(const cutensorHandle_t h, cutensorOperationDescriptor_t* d,
    const cutensorTensorDescriptor_t A, const int32_t mA[], cutensorOperator_t oA,
    const cutensorTensorDescriptor_t B, const int32_t mB[], cutensorOperator_t oB,
    const cutensorTensorDescriptor_t C, const int32_t mC[], cutensorOperator_t oC,
    const cutensorTensorDescriptor_t D, const int32_t mD[], const cutensorComputeDescriptor_t compute) {
  if (!h || !A || !B || !C || !D || !compute) return CUTENSOR_STATUS_INVALID_VALUE;
  auto* r = new cutensorOperationDescriptor;
  const cutensorTensorDescriptor_t t[4] = {A, B, C, D};
  const int32_t* m[4] = {mA, mB, mC, mD};
  std::map<int32_t, int64_t> ext;
  cutensorStatus_t bad = CUTENSOR_STATUS_SUCCESS;
  for (int i = 0; i < 4; i++) {
    r->t[i] = *t[i];
    r->mode[i].assign(m[i], m[i] + t[i]->extent.size());
    std::set<int32_t> seen;
    for (size_t k = 0; k < t[i]->extent.size(); k++) {
      if (!seen.insert(m[i][k]).second) bad = CUTENSOR_STATUS_NOT_SUPPORTED;      // a mode at most once per tensor
      auto it = ext.find(m[i][k]);
      if (it == ext.end()) { if (i >= 2) bad = CUTENSOR_STATUS_INVALID_VALUE; ext[m[i][k]] = t[i]->extent[k]; }
      else if (it->second != t[i]->extent[k]) bad = CUTENSOR_STATUS_INVALID_VALUE;
    }
    if (t[i]->type != A->type) bad = CUTENSOR_STATUS_NOT_SUPPORTED;
  }
  bool cplx = A->type == CUTENSOR_C_32F || A->type == CUTENSOR_C_64F, dbl = A->type == CUTENSOR_R_64F || A->type == CUTENSOR_C_64F;
  if (!cplx && (oA == CUTENSOR_OP_CONJ || oB == CUTENSOR_OP_CONJ)) bad = CUTENSOR_STATUS_NOT_SUPPORTED;
  for (auto o : {oA, oB, oC}) if (o != CUTENSOR_OP_IDENTITY && o != CUTENSOR_OP_CONJ) bad = CUTENSOR_STATUS_NOT_SUPPORTED;
  if (!dbl && compute == &desc64) bad = CUTENSOR_STATUS_NOT_SUPPORTED;
  if (bad != CUTENSOR_STATUS_SUCCESS) { delete r; return bad; }
  r->op[0] = oA; r->op[1] = oB; r->op[2] = oC; r->compute = compute;
  *d = r; live++;
  return CUTENSOR_STATUS_SUCCESS;
}
cutensorStatus_t cutensorDestroyOperationDescriptor(cutensorOperationDescriptor_t d) { delete d; live--; return CUTENSOR_STATUS_SUCCESS; }
cutensorStatus_t cutensorCreatePlanPreference(const cutensorHandle_t, cutensorPlanPreference_t* p, cutensorAlgo_t, cutensorJitMode_t) { *p = new cutensorPlanPreference{0}; live++; return CUTENSOR_STATUS_SUCCESS; }
cutensorStatus_t cutensorDestroyPlanPreference(cutensorPlanPreference_t p) { delete p; live--; return CUTENSOR_STATUS_SUCCESS; }
cutensorStatus_t cutensorEstimateWorkspaceSize(const cutensorHandle_t, const cutensorOperationDescriptor_t, const cutensorPlanPreference_t, const cutensorWorksizePreference_t, uint64_t* s) { *s = 0; return CUTENSOR_STATUS_SUCCESS; }
cutensorStatus_t cutensorCreatePlan(const cutensorHandle_t, cutensorPlan_t* p, const cutensorOperationDescriptor_t d, const cutensorPlanPreference_t, uint64_t) { *p = new cutensorPlan{*d}; live++; return CUTENSOR_STATUS_SUCCESS; }
cutensorStatus_t cutensorDestroyPlan(cutensorPlan_t p) { delete p; live--; return CUTENSOR_STATUS_SUCCESS; }
cutensorStatus_t cutensorPlanGetAttribute(const cutensorHandle_t, const cutensorPlan_t, cutensorPlanAttribute_t a, void* buf, size_t n) {
  if (a != CUTENSOR_PLAN_REQUIRED_WORKSPACE || n != 8) return CUTENSOR_STATUS_INVALID_VALUE;
  std::memset(buf, 0, n);
  return CUTENSOR_STATUS_SUCCESS;
}
}

template <class T> T cj(T x) { if constexpr (std::is_floating_point_v<T>) return x; else return std::conj(x); }
template <class T> struct Real { using type = T; };
template <class T> struct Real<std::complex<T>> { using type = T; };

// Sums in the precision of the compute descriptor.
template <class T, class Acc> static void run(const cutensorOperationDescriptor& d, T alpha, const T* A, const T* B, T beta, const T* C, T* D) {
  std::vector<int32_t> modes = d.mode[3];
  size_t nout = modes.size();
  std::map<int32_t, int64_t> ext;
  for (int i = 0; i < 2; i++) for (size_t k = 0; k < d.mode[i].size(); k++) {
    if (std::find(modes.begin(), modes.end(), d.mode[i][k]) == modes.end()) modes.push_back(d.mode[i][k]);
    ext[d.mode[i][k]] = d.t[i].extent[k];
  }
  size_t n = modes.size();
  std::vector<int64_t> e(n), s[4];
  for (int i = 0; i < 4; i++) s[i].assign(n, 0);
  for (size_t k = 0; k < n; k++) {
    e[k] = ext[modes[k]];
    for (int i = 0; i < 4; i++) for (size_t j = 0; j < d.mode[i].size(); j++) if (d.mode[i][j] == modes[k]) s[i][k] = d.t[i].stride[j];
  }
  int64_t no = 1, nc = 1;
  for (size_t k = 0; k < n; k++) (k < nout ? no : nc) *= e[k];
  std::vector<T> res(no);
  std::vector<int64_t> idx(n, 0);
  for (int64_t o = 0; o < no; o++) {
    int64_t r = o;
    for (size_t k = nout; k-- > 0;) { idx[k] = r % e[k]; r /= e[k]; }
    Acc sum = 0;
    for (int64_t c = 0; c < nc; c++) {
      r = c;
      for (size_t k = n; k-- > nout;) { idx[k] = r % e[k]; r /= e[k]; }
      int64_t a = 0, b = 0;
      for (size_t k = 0; k < n; k++) { a += idx[k] * s[0][k]; b += idx[k] * s[1][k]; }
      T x = A[a], y = B[b];
      if (d.op[0] == CUTENSOR_OP_CONJ) x = cj(x);
      if (d.op[1] == CUTENSOR_OP_CONJ) y = cj(y);
      sum += Acc(x) * Acc(y);
    }
    res[o] = alpha * T(sum);
  }
  for (int64_t o = 0; o < no; o++) {
    int64_t r = o, c = 0, q = 0;
    for (size_t k = nout; k-- > 0;) { int64_t i = r % e[k]; r /= e[k]; c += i * s[2][k]; q += i * s[3][k]; }
    T v = res[o];
    if (beta != T(0)) v += beta * (d.op[2] == CUTENSOR_OP_CONJ ? cj(C[c]) : C[c]);
    D[q] = v;
  }
}

extern "C" cutensorStatus_t cutensorContract(const cutensorHandle_t h, const cutensorPlan_t p, const void* alpha, const void* A, const void* B, const void* beta, const void* C, void* D, void*, uint64_t, cudaStream_t) {
  if (!h || !p || !A || !B || !D) return CUTENSOR_STATUS_INVALID_VALUE;
  bool low = p->d.compute == &desc32;
#define RUN(T, L) do { const T al = *static_cast<const T*>(alpha), be = *static_cast<const T*>(beta); \
    if (low) run<T, L>(p->d, al, static_cast<const T*>(A), static_cast<const T*>(B), be, static_cast<const T*>(C), static_cast<T*>(D)); \
    else run<T, T>(p->d, al, static_cast<const T*>(A), static_cast<const T*>(B), be, static_cast<const T*>(C), static_cast<T*>(D)); } while (0)
  switch (p->d.t[0].type) {
    case CUTENSOR_R_32F: RUN(float, float); break;
    case CUTENSOR_R_64F: RUN(double, float); break;
    case CUTENSOR_C_32F: RUN(std::complex<float>, std::complex<float>); break;
    case CUTENSOR_C_64F: RUN(std::complex<double>, std::complex<float>); break;
    default: return CUTENSOR_STATUS_NOT_SUPPORTED;
  }
  return CUTENSOR_STATUS_SUCCESS;
}

// ---------------------------------------------------------------- cuSOLVER

template <class T> static cusolverStatus_t potrf(cublasFillMode_t uplo, int n, T* A, int lda, int lwork, int* info) {
  using R = typename Real<T>::type;
  if (n < 0 || lda < n || lwork < n) return CUSOLVER_STATUS_INVALID_VALUE;
  bool up = uplo == CUBLAS_FILL_MODE_UPPER;
  auto at = [&](int i, int j) -> T& { return up ? A[j + (size_t)i * lda] : A[i + (size_t)j * lda]; };   // upper: U = L^H stored transposed
  auto get = [&](int i, int j) { return up ? cj(at(i, j)) : at(i, j); };
  auto set = [&](int i, int j, T v) { at(i, j) = up ? cj(v) : v; };
  *info = 0;
  for (int j = 0; j < n; j++) {
    R d = std::real(get(j, j));
    for (int k = 0; k < j; k++) d -= std::norm(get(j, k));
    if (!(d > 0)) { *info = j + 1; return CUSOLVER_STATUS_SUCCESS; }
    R l = std::sqrt(d);
    set(j, j, T(l));
    for (int i = j + 1; i < n; i++) {
      T s = get(i, j);
      for (int k = 0; k < j; k++) s -= get(i, k) * cj(get(j, k));
      set(i, j, s / l);
    }
  }
  return CUSOLVER_STATUS_SUCCESS;
}

template <class T> static cusolverStatus_t potrs(cublasFillMode_t uplo, int n, int nrhs, const T* A, int lda, T* B, int ldb, int* info) {
  if (n < 0 || lda < n || ldb < n) return CUSOLVER_STATUS_INVALID_VALUE;
  bool up = uplo == CUBLAS_FILL_MODE_UPPER;
  auto get = [&](int i, int j) { return up ? cj(A[j + (size_t)i * lda]) : A[i + (size_t)j * lda]; };
  *info = 0;
  for (int c = 0; c < nrhs; c++) {
    T* b = B + (size_t)c * ldb;
    for (int i = 0; i < n; i++) {
      T s = b[i];
      for (int k = 0; k < i; k++) s -= get(i, k) * b[k];
      b[i] = s / get(i, i);
    }
    for (int i = n; i-- > 0;) {
      T s = b[i];
      for (int k = i + 1; k < n; k++) s -= cj(get(k, i)) * b[k];
      b[i] = s / cj(get(i, i));
    }
  }
  return CUSOLVER_STATUS_SUCCESS;
}

extern "C" {
cusolverStatus_t cusolverDnCreate(cusolverDnHandle_t* h) { *h = reinterpret_cast<cusolverDnHandle_t>(new int(0)); return CUSOLVER_STATUS_SUCCESS; }
cusolverStatus_t cusolverDnDestroy(cusolverDnHandle_t h) { delete reinterpret_cast<int*>(h); return CUSOLVER_STATUS_SUCCESS; }
cusolverStatus_t cusolverDnSetStream(cusolverDnHandle_t, cudaStream_t) { return CUSOLVER_STATUS_SUCCESS; }
#define SOLVER(X, CT, T) \
  cusolverStatus_t cusolverDn##X##potrf_bufferSize(cusolverDnHandle_t, cublasFillMode_t, int n, CT*, int, int* l) { *l = 2 * n + 1; return CUSOLVER_STATUS_SUCCESS; } \
  cusolverStatus_t cusolverDn##X##potrf(cusolverDnHandle_t, cublasFillMode_t u, int n, CT* A, int lda, CT*, int lw, int* info) { return potrf<T>(u, n, reinterpret_cast<T*>(A), lda, lw, info); } \
  cusolverStatus_t cusolverDn##X##potrs(cusolverDnHandle_t, cublasFillMode_t u, int n, int m, const CT* A, int lda, CT* B, int ldb, int* info) { return potrs<T>(u, n, m, reinterpret_cast<const T*>(A), lda, reinterpret_cast<T*>(B), ldb, info); }
SOLVER(S, float, float)
SOLVER(D, double, double)
SOLVER(C, cuComplex, std::complex<float>)
SOLVER(Z, cuDoubleComplex, std::complex<double>)
}

// ---------------------------------------------------------------- CUDA streams

namespace c10::cuda {
CUDAStream getCurrentCUDAStream(DeviceIndex) {
  return CUDAStream(CUDAStream::UNCHECKED, c10::Stream(c10::Stream::UNSAFE, c10::Device(c10::DeviceType::CUDA, 0), 0));
}
cudaStream_t CUDAStream::stream() const { return nullptr; }
}
