/* a stand-in for MATLAB's mex.h: the interface qpSWIFT's gateway may use, implemented by mexrt.hpp */
#ifndef MOCK_MEX_H
#define MOCK_MEX_H
#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#include <math.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef struct mxArray_tag mxArray;
typedef size_t mwSize;
typedef size_t mwIndex;
typedef ptrdiff_t mwSignedIndex;
typedef char mxChar;
typedef bool mxLogical;
typedef double mxDouble;
typedef enum { mxUNKNOWN_CLASS, mxCELL_CLASS, mxSTRUCT_CLASS, mxLOGICAL_CLASS, mxCHAR_CLASS, mxVOID_CLASS, mxDOUBLE_CLASS, mxSINGLE_CLASS, mxINT8_CLASS, mxUINT8_CLASS, mxINT16_CLASS, mxUINT16_CLASS, mxINT32_CLASS, mxUINT32_CLASS, mxINT64_CLASS, mxUINT64_CLASS, mxFUNCTION_CLASS } mxClassID;
typedef enum { mxREAL, mxCOMPLEX } mxComplexity;
void mexFunction(int, mxArray **, int, const mxArray **);
const mwSize *mxGetDimensions(const mxArray *);
mwSize mxGetNumberOfDimensions(const mxArray *);
size_t mxGetM(const mxArray *);
size_t mxGetN(const mxArray *);
size_t mxGetNumberOfElements(const mxArray *);
size_t mxGetElementSize(const mxArray *);
mxClassID mxGetClassID(const mxArray *);
const char *mxGetClassName(const mxArray *);
bool mxIsClass(const mxArray *, const char *);
bool mxIsDouble(const mxArray *); bool mxIsSingle(const mxArray *); bool mxIsSparse(const mxArray *); bool mxIsComplex(const mxArray *); bool mxIsNumeric(const mxArray *);
bool mxIsStruct(const mxArray *); bool mxIsCell(const mxArray *); bool mxIsChar(const mxArray *); bool mxIsLogical(const mxArray *); bool mxIsEmpty(const mxArray *); bool mxIsScalar(const mxArray *);
bool mxIsInt32(const mxArray *); bool mxIsInt64(const mxArray *); bool mxIsFunctionHandle(const mxArray *);
bool mxIsNaN(double); bool mxIsInf(double); bool mxIsFinite(double);
double mxGetNaN(void); double mxGetInf(void); double mxGetEps(void);
double *mxGetPr(const mxArray *); double *mxGetPi(const mxArray *); void *mxGetData(const mxArray *); mxDouble *mxGetDoubles(const mxArray *); double mxGetScalar(const mxArray *);
mwIndex *mxGetIr(const mxArray *); mwIndex *mxGetJc(const mxArray *); mwSize mxGetNzmax(const mxArray *);
mxArray *mxGetField(const mxArray *, mwIndex, const char *);
mxArray *mxGetFieldByNumber(const mxArray *, mwIndex, int);
int mxGetFieldNumber(const mxArray *, const char *);
int mxGetNumberOfFields(const mxArray *);
const char *mxGetFieldNameByNumber(const mxArray *, int);
void mxSetField(mxArray *, mwIndex, const char *, mxArray *);
void mxSetFieldByNumber(mxArray *, mwIndex, int, mxArray *);
int mxAddField(mxArray *, const char *);
mxArray *mxCreateNumericMatrix(mwSize, mwSize, mxClassID, mxComplexity);
mxArray *mxCreateUninitNumericMatrix(size_t, size_t, mxClassID, mxComplexity);
mxArray *mxCreateNumericArray(mwSize, const mwSize *, mxClassID, mxComplexity);
mxArray *mxCreateDoubleMatrix(mwSize, mwSize, mxComplexity);
mxArray *mxCreateDoubleScalar(double);
mxArray *mxCreateStructMatrix(mwSize, mwSize, int, const char **);
mxArray *mxCreateStructArray(mwSize, const mwSize *, int, const char **);
mxArray *mxCreateString(const char *);
mxArray *mxCreateSparse(mwSize, mwSize, mwSize, mxComplexity);
mxArray *mxDuplicateArray(const mxArray *);
void mxSetPr(mxArray *, double *); void mxSetM(mxArray *, mwSize); void mxSetN(mxArray *, mwSize);
void mxDestroyArray(mxArray *);
void *mxMalloc(size_t); void *mxCalloc(size_t, size_t); void *mxRealloc(void *, size_t); void mxFree(void *);
void mexMakeMemoryPersistent(void *); void mexMakeArrayPersistent(mxArray *);
void mexLock(void); void mexUnlock(void); int mexAtExit(void (*)(void));
int mexPrintf(const char *, ...);
void mexErrMsgTxt(const char *) __attribute__((noreturn));
void mexErrMsgIdAndTxt(const char *, const char *, ...) __attribute__((noreturn));
void mexWarnMsgTxt(const char *);
void mexWarnMsgIdAndTxt(const char *, const char *, ...);
void mxAssertFail(const char *, int);
#define mxAssert(x, s) ((x) ? (void)0 : mxAssertFail(__FILE__, __LINE__))
#define mxAssertS(x, s) mxAssert(x, s)
#ifdef __cplusplus
}
#endif
#endif
