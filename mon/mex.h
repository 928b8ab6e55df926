// Stand-in for MATLAB's mex.h: the part of the interface the bindings use, backed by mon/mexstub.hh.
#pragma once
#include <cstddef>
#include <cstdint>

typedef std::size_t mwSize;
enum mxClassID {
  mxUNKNOWN_CLASS, mxCELL_CLASS, mxSTRUCT_CLASS, mxLOGICAL_CLASS, mxCHAR_CLASS, mxVOID_CLASS, mxDOUBLE_CLASS, mxSINGLE_CLASS,
  mxINT8_CLASS, mxUINT8_CLASS, mxINT16_CLASS, mxUINT16_CLASS, mxINT32_CLASS, mxUINT32_CLASS, mxINT64_CLASS, mxUINT64_CLASS
};
enum mxComplexity { mxREAL, mxCOMPLEX };
struct mxArray;
typedef struct mxArray mxArray;

extern "C" {
mwSize mxGetNumberOfDimensions(mxArray const *a);
mwSize const *mxGetDimensions(mxArray const *a);
std::size_t mxGetNumberOfElements(mxArray const *a);
std::size_t mxGetM(mxArray const *a);
std::size_t mxGetN(mxArray const *a);
mxClassID mxGetClassID(mxArray const *a);
char const *mxGetClassName(mxArray const *a);
double mxGetScalar(mxArray const *a);
double *mxGetPr(mxArray const *a);
void *mxGetData(mxArray const *a);
bool mxIsChar(mxArray const *a);
bool mxIsDouble(mxArray const *a);
bool mxIsNumeric(mxArray const *a);
bool mxIsEmpty(mxArray const *a);
bool mxIsComplex(mxArray const *a);
bool mxIsScalar(mxArray const *a);
bool mxIsLogical(mxArray const *a);
bool mxIsLogicalScalar(mxArray const *a);
bool mxIsLogicalScalarTrue(mxArray const *a);
bool mxIsClass(mxArray const *a, char const *name);
char *mxArrayToString(mxArray const *a);
void mxFree(void *p);
mxArray *mxCreateNumericMatrix(mwSize m, mwSize n, mxClassID c, mxComplexity f);
mxArray *mxCreateDoubleMatrix(mwSize m, mwSize n, mxComplexity f);
mxArray *mxCreateDoubleScalar(double v);
mxArray *mxCreateLogicalScalar(bool v);
mxArray *mxCreateString(char const *s);
void mxDestroyArray(mxArray *a);
[[noreturn]] void mexErrMsgTxt(char const *msg);
void mexWarnMsgTxt(char const *msg);
int mexPrintf(char const *fmt, ...);
void mexLock(void);
void mexUnlock(void);
}
