// What stands in for MATLAB: arrays of exact size on the heap, errors that unwind, a count of locks.
#pragma once
#include "mex.h"
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <set>
#include <string>
#include <vector>

struct mxArray {
  mxClassID cls; bool cplx;
  std::vector<mwSize> dims;
  void *data;
};
namespace mexstub {
struct Error { std::string msg; };
struct State { std::set<mxArray *> made; std::set<void *> strings; long locks = 0; };
inline State &st() { static State s; return s; }
inline size_t width(mxClassID c) {
  switch (c) {
  case mxLOGICAL_CLASS: case mxINT8_CLASS: case mxUINT8_CLASS: return 1;
  case mxCHAR_CLASS: case mxINT16_CLASS: case mxUINT16_CLASS: return 2;
  case mxSINGLE_CLASS: case mxINT32_CLASS: case mxUINT32_CLASS: return 4;
  default: return 8;
  }
}
inline size_t numel(mxArray const *a) { size_t n = 1; for (mwSize d : a->dims) n *= d; return n; }
inline mxArray *make(mxClassID c, std::vector<mwSize> dims, bool cplx = false) {
  mxArray *a = new mxArray{c, cplx, dims, nullptr};
  size_t n = numel(a) * width(c);
  if (n) a->data = std::calloc(1, n);      // empty arrays have no data, as in MATLAB
  st().made.insert(a);
  return a;
}
inline void destroy(mxArray *a) { if (!a) return; st().made.erase(a); std::free(a->data); delete a; }
template <class T> mxArray *scalar(mxClassID c, T v) { mxArray *a = make(c, {1, 1}); std::memcpy(a->data, &v, sizeof v); return a; }
inline mxArray *text(std::string const &s) {
  mxArray *a = make(mxCHAR_CLASS, {mwSize(s.empty() ? 0 : 1), s.size()});
  for (size_t i = 0; i < s.size(); ++i) static_cast<uint16_t *>(a->data)[i] = uint16_t((unsigned char)(s[i]));
  return a;
}
inline mxArray *doubles(mwSize m, mwSize n, std::vector<double> const &v) {
  mxArray *a = make(mxDOUBLE_CLASS, {m, n});
  for (size_t i = 0; i < m * n && i < v.size(); ++i) static_cast<double *>(a->data)[i] = v[i];
  return a;
}
inline double value(mxArray const *a, size_t i) {
  switch (a->cls) {
  case mxLOGICAL_CLASS: case mxUINT8_CLASS: return static_cast<uint8_t *>(a->data)[i];
  case mxINT8_CLASS: return static_cast<int8_t *>(a->data)[i];
  case mxINT16_CLASS: return static_cast<int16_t *>(a->data)[i];
  case mxCHAR_CLASS: case mxUINT16_CLASS: return static_cast<uint16_t *>(a->data)[i];
  case mxINT32_CLASS: return static_cast<int32_t *>(a->data)[i];
  case mxUINT32_CLASS: return static_cast<uint32_t *>(a->data)[i];
  case mxINT64_CLASS: return double(static_cast<int64_t *>(a->data)[i]);
  case mxUINT64_CLASS: return double(static_cast<uint64_t *>(a->data)[i]);
  case mxSINGLE_CLASS: return static_cast<float *>(a->data)[i];
  default: return static_cast<double *>(a->data)[i];
  }
}
typedef void (*Fun)(int, mxArray **, int, mxArray const **);
struct Result { bool error = false; std::string msg; std::vector<mxArray *> out; };
// One call from MATLAB: what it made and did not return is collected afterwards, as is all of it after an error.
inline Result call(Fun f, int nlhs, std::vector<mxArray const *> const &in) {
  Result r;
  std::set<mxArray *> before = st().made;
  mxArray const **prhs = static_cast<mxArray const **>(std::malloc(in.size() ? in.size() * sizeof(mxArray *) : 1));
  if (!in.empty()) std::memcpy(static_cast<void *>(prhs), static_cast<void const *>(in.data()), in.size() * sizeof(mxArray *));
  size_t nout = size_t(nlhs > 1 ? nlhs : 1);                 // the first output may always be set
  mxArray **plhs = static_cast<mxArray **>(std::calloc(nout, sizeof(mxArray *)));
  try { f(nlhs, plhs, int(in.size()), prhs); }
  catch (Error const &e) { r.error = true; r.msg = e.msg; }
  if (!r.error) for (size_t i = 0; i < nout; ++i) if (plhs[i]) r.out.push_back(plhs[i]);
  std::free(static_cast<void *>(prhs)); std::free(static_cast<void *>(plhs));
  std::vector<mxArray *> drop;
  for (mxArray *a : st().made) {
    bool keep = before.count(a) > 0;
    for (mxArray *o : r.out) keep = keep || o == a;
    if (!keep) drop.push_back(a);
  }
  for (mxArray *a : drop) destroy(a);
  for (void *s : st().strings) std::free(s);
  st().strings.clear();
  return r;
}
} // namespace mexstub

extern "C" {
mwSize mxGetNumberOfDimensions(mxArray const *a) { return a->dims.size(); }
mwSize const *mxGetDimensions(mxArray const *a) { return a->dims.data(); }
std::size_t mxGetNumberOfElements(mxArray const *a) { return mexstub::numel(a); }
std::size_t mxGetM(mxArray const *a) { return a->dims[0]; }
std::size_t mxGetN(mxArray const *a) { return a->dims[0] ? mexstub::numel(a) / a->dims[0] : a->dims[1]; }
mxClassID mxGetClassID(mxArray const *a) { return a->cls; }
char const *mxGetClassName(mxArray const *a) {
  static char const *n[] = {"unknown", "cell", "struct", "logical", "char", "void", "double", "single", "int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64"};
  return n[a->cls];
}
double mxGetScalar(mxArray const *a) { return mexstub::numel(a) ? mexstub::value(a, 0) : 0.0; }
double *mxGetPr(mxArray const *a) { return static_cast<double *>(a->data); }
void *mxGetData(mxArray const *a) { return a->data; }
bool mxIsChar(mxArray const *a) { return a->cls == mxCHAR_CLASS; }
bool mxIsDouble(mxArray const *a) { return a->cls == mxDOUBLE_CLASS; }
bool mxIsNumeric(mxArray const *a) { return a->cls >= mxDOUBLE_CLASS; }
bool mxIsEmpty(mxArray const *a) { return mexstub::numel(a) == 0; }
bool mxIsComplex(mxArray const *a) { return a->cplx; }
bool mxIsScalar(mxArray const *a) { return a->dims.size() == 2 && mexstub::numel(a) == 1; }
bool mxIsLogical(mxArray const *a) { return a->cls == mxLOGICAL_CLASS; }
bool mxIsLogicalScalar(mxArray const *a) { return mxIsLogical(a) && mexstub::numel(a) == 1; }
bool mxIsLogicalScalarTrue(mxArray const *a) { return mxIsLogicalScalar(a) && mexstub::value(a, 0) != 0; }
bool mxIsClass(mxArray const *a, char const *name) { return !std::strcmp(mxGetClassName(a), name); }
char *mxArrayToString(mxArray const *a) {
  if (!mxIsChar(a)) return nullptr;
  size_t n = mexstub::numel(a);
  char *s = static_cast<char *>(std::malloc(n + 1));
  for (size_t i = 0; i < n; ++i) s[i] = char(static_cast<uint16_t *>(a->data)[i]);
  s[n] = 0;
  mexstub::st().strings.insert(s);
  return s;
}
void mxFree(void *p) { if (mexstub::st().strings.erase(p)) std::free(p); }
mxArray *mxCreateNumericMatrix(mwSize m, mwSize n, mxClassID c, mxComplexity f) { return mexstub::make(c, {m, n}, f == mxCOMPLEX); }
mxArray *mxCreateDoubleMatrix(mwSize m, mwSize n, mxComplexity f) { return mexstub::make(mxDOUBLE_CLASS, {m, n}, f == mxCOMPLEX); }
mxArray *mxCreateDoubleScalar(double v) { return mexstub::scalar(mxDOUBLE_CLASS, v); }
mxArray *mxCreateLogicalScalar(bool v) { return mexstub::scalar(mxLOGICAL_CLASS, uint8_t(v)); }
mxArray *mxCreateString(char const *s) { return mexstub::text(s); }
void mxDestroyArray(mxArray *a) { mexstub::destroy(a); }
void mexErrMsgTxt(char const *msg) { throw mexstub::Error{msg}; }
void mexWarnMsgTxt(char const *) {}
int mexPrintf(char const *, ...) { return 0; }
void mexLock(void) { ++mexstub::st().locks; }
void mexUnlock(void) { --mexstub::st().locks; }
}
