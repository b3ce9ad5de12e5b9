// the runtime behind the stand-in mex.h: arrays in exactly sized heap blocks, tracked allocations, errors that unwind to the caller
#pragma once
#include <csetjmp>
#include <cstdarg>
#include <map>
#include <set>
#include <string>
#include <vector>
#include "mex.h"
struct mxArray_tag {
  mxClassID cls = mxDOUBLE_CLASS; bool cplx = false, sparse = false; std::vector<size_t> dims{0, 0};
  char* data = nullptr; size_t bytes = 0; mwIndex *ir = nullptr, *jc = nullptr; size_t nzmax = 0;
  std::vector<std::string> names; std::vector<mxArray*> vals;    // fields, element-major
  size_t count() const { size_t c = 1; for (size_t d : dims) c *= d; return c; }
};
namespace mexrt {
static jmp_buf jb; static bool armed = false, errored = false; static std::string err, printed; static std::vector<std::string> faults;
static std::set<mxArray*> made; static std::map<void*, size_t> blocks; static std::vector<void*> defer;
static size_t nalloc = 0, nwarn = 0; static int locked = 0;
static size_t esz(mxClassID c) { switch (c) { case mxDOUBLE_CLASS: case mxINT64_CLASS: case mxUINT64_CLASS: return 8; case mxSINGLE_CLASS: case mxINT32_CLASS: case mxUINT32_CLASS: return 4; case mxINT16_CLASS: case mxUINT16_CLASS: case mxCHAR_CLASS: return 2; case mxCELL_CLASS: case mxSTRUCT_CLASS: return 8; default: return 1; } }
static void fault(const std::string& s) { faults.push_back(s); }
static std::set<mxArray*> all;    // every array that exists; made: those the caller of mxCreate... still owns
static void del(mxArray* a) { all.erase(a); made.erase(a); free(a->data); free(a->ir); free(a->jc); delete a; }
static void drop(mxArray* a) { if (!a || !all.count(a)) return; std::vector<mxArray*> v = a->vals; del(a); for (auto* c : v) drop(c); }
static mxArray* reg(mxArray* a) { all.insert(a); made.insert(a); return a; }
static mxArray* num(std::vector<size_t> d, mxClassID c, bool cplx) { auto* a = new mxArray; a->cls = c; a->cplx = cplx; a->dims = d; a->bytes = a->count() * esz(c); if (a->bytes) a->data = (char*)calloc(1, a->bytes); return reg(a); }
static mxArray* strct(std::vector<size_t> d, int n, const char** nm) { auto* a = new mxArray; a->cls = mxSTRUCT_CLASS; a->dims = d; for (int i = 0; i < n; i++) a->names.push_back(nm[i]); a->vals.assign(a->count() * n, nullptr); return reg(a); }
static void clear() { while (!all.empty()) del(*all.begin()); }
static void own(mxArray* a) { made.erase(a); for (auto* v : a->vals) if (v) own(v); }
static void reset() { err.clear(); printed.clear(); faults.clear(); errored = false; nwarn = 0; }
static void sweep() { for (auto& b : blocks) free(b.first); blocks.clear(); std::set<mxArray*> m = made; for (auto* a : m) drop(a); made.clear(); }    // MATLAB's automatic release
// runs the gateway; false when it raised an error
static bool call(int nlhs, mxArray** plhs, int nrhs, const mxArray** prhs) { reset(); armed = true; if (setjmp(jb) == 0) mexFunction(nlhs, plhs, nrhs, prhs); armed = false; return !errored; }
}
extern "C" {
using namespace mexrt;
const mwSize* mxGetDimensions(const mxArray* a) { return a->dims.data(); }
mwSize mxGetNumberOfDimensions(const mxArray* a) { return a->dims.size(); }
size_t mxGetM(const mxArray* a) { return a->dims[0]; }
size_t mxGetN(const mxArray* a) { size_t c = 1; for (size_t i = 1; i < a->dims.size(); i++) c *= a->dims[i]; return c; }
size_t mxGetNumberOfElements(const mxArray* a) { return a->count(); }
size_t mxGetElementSize(const mxArray* a) { return esz(a->cls); }
mxClassID mxGetClassID(const mxArray* a) { return a->cls; }
static const char* CN[] = {"unknown", "cell", "struct", "logical", "char", "void", "double", "single", "int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "function_handle"};
const char* mxGetClassName(const mxArray* a) { return CN[a->cls]; }
bool mxIsClass(const mxArray* a, const char* s) { return !strcmp(CN[a->cls], s); }
bool mxIsDouble(const mxArray* a) { return a->cls == mxDOUBLE_CLASS; }
bool mxIsSingle(const mxArray* a) { return a->cls == mxSINGLE_CLASS; }
bool mxIsInt32(const mxArray* a) { return a->cls == mxINT32_CLASS; }
bool mxIsInt64(const mxArray* a) { return a->cls == mxINT64_CLASS; }
bool mxIsSparse(const mxArray* a) { return a->sparse; }
bool mxIsComplex(const mxArray* a) { return a->cplx; }
bool mxIsNumeric(const mxArray* a) { return a->cls >= mxDOUBLE_CLASS && a->cls <= mxUINT64_CLASS; }
bool mxIsStruct(const mxArray* a) { return a->cls == mxSTRUCT_CLASS; }
bool mxIsCell(const mxArray* a) { return a->cls == mxCELL_CLASS; }
bool mxIsChar(const mxArray* a) { return a->cls == mxCHAR_CLASS; }
bool mxIsLogical(const mxArray* a) { return a->cls == mxLOGICAL_CLASS; }
bool mxIsFunctionHandle(const mxArray* a) { return a->cls == mxFUNCTION_CLASS; }
bool mxIsEmpty(const mxArray* a) { return a->count() == 0; }
bool mxIsScalar(const mxArray* a) { return a->count() == 1; }
bool mxIsNaN(double v) { return v != v; }
bool mxIsInf(double v) { return v == INFINITY || v == -INFINITY; }
bool mxIsFinite(double v) { return v - v == 0; }
double mxGetNaN(void) { return NAN; }
double mxGetInf(void) { return INFINITY; }
double mxGetEps(void) { return 2.220446049250313e-16; }
double* mxGetPr(const mxArray* a) { return a->cls == mxDOUBLE_CLASS ? (double*)a->data : nullptr; }
double* mxGetPi(const mxArray*) { return nullptr; }
void* mxGetData(const mxArray* a) { return a->data; }
mxDouble* mxGetDoubles(const mxArray* a) { return a->cls == mxDOUBLE_CLASS && !a->cplx ? (double*)a->data : nullptr; }
double mxGetScalar(const mxArray* a) {
  if (!a->data) { mexErrMsgTxt("mxGetScalar: empty or not numeric"); }
  switch (a->cls) { case mxDOUBLE_CLASS: return *(double*)a->data; case mxSINGLE_CLASS: return *(float*)a->data; case mxINT32_CLASS: return *(int32_t*)a->data; case mxUINT32_CLASS: return *(uint32_t*)a->data; case mxINT64_CLASS: return (double)*(int64_t*)a->data;
    case mxUINT64_CLASS: return (double)*(uint64_t*)a->data; case mxINT16_CLASS: return *(int16_t*)a->data; case mxUINT16_CLASS: case mxCHAR_CLASS: return *(uint16_t*)a->data; case mxINT8_CLASS: return *(int8_t*)a->data; case mxUINT8_CLASS: case mxLOGICAL_CLASS: return *(uint8_t*)a->data; default: return 0; }
}
mwIndex* mxGetIr(const mxArray* a) { return a->sparse ? a->ir : nullptr; }
mwIndex* mxGetJc(const mxArray* a) { return a->sparse ? a->jc : nullptr; }
mwSize mxGetNzmax(const mxArray* a) { return a->nzmax; }
int mxGetFieldNumber(const mxArray* a, const char* s) { if (a->cls != mxSTRUCT_CLASS) return -1; for (size_t i = 0; i < a->names.size(); i++) if (a->names[i] == s) return (int)i; return -1; }
mxArray* mxGetFieldByNumber(const mxArray* a, mwIndex i, int f) { if (a->cls != mxSTRUCT_CLASS || f < 0 || f >= (int)a->names.size() || i >= a->count()) return nullptr; return a->vals[i * a->names.size() + f]; }
mxArray* mxGetField(const mxArray* a, mwIndex i, const char* s) { return a->cls == mxSTRUCT_CLASS ? mxGetFieldByNumber(a, i, mxGetFieldNumber(a, s)) : nullptr; }
int mxGetNumberOfFields(const mxArray* a) { return (int)a->names.size(); }
const char* mxGetFieldNameByNumber(const mxArray* a, int f) { return f >= 0 && f < (int)a->names.size() ? a->names[f].c_str() : nullptr; }
void mxSetFieldByNumber(mxArray* a, mwIndex i, int f, mxArray* v) {
  if (a->cls != mxSTRUCT_CLASS || f < 0 || f >= (int)a->names.size() || i >= a->count()) { fault("a field that does not exist was set"); return; }
  auto*& s = a->vals[i * a->names.size() + f];
  if (s && s != v) fault("a field was overwritten without releasing its old value (" + a->names[f] + ")");
  s = v; made.erase(v);
}
void mxSetField(mxArray* a, mwIndex i, const char* s, mxArray* v) { mxSetFieldByNumber(a, i, mxGetFieldNumber(a, s), v); }
int mxAddField(mxArray* a, const char* s) { int k = mxGetFieldNumber(a, s); if (k >= 0) return k; size_t w = a->names.size(), c = a->count(); std::vector<mxArray*> nv(c * (w + 1), nullptr); for (size_t i = 0; i < c; i++) for (size_t f = 0; f < w; f++) nv[i * (w + 1) + f] = a->vals[i * w + f]; a->names.push_back(s); a->vals = nv; return (int)w; }
mxArray* mxCreateNumericMatrix(mwSize m, mwSize n, mxClassID c, mxComplexity x) { return num({m, n}, c, x == mxCOMPLEX); }
mxArray* mxCreateUninitNumericMatrix(size_t m, size_t n, mxClassID c, mxComplexity x) { return num({m, n}, c, x == mxCOMPLEX); }
mxArray* mxCreateNumericArray(mwSize k, const mwSize* d, mxClassID c, mxComplexity x) { return num(std::vector<size_t>(d, d + k), c, x == mxCOMPLEX); }
mxArray* mxCreateDoubleMatrix(mwSize m, mwSize n, mxComplexity x) { return num({m, n}, mxDOUBLE_CLASS, x == mxCOMPLEX); }
mxArray* mxCreateDoubleScalar(double v) { auto* a = num({1, 1}, mxDOUBLE_CLASS, false); *(double*)a->data = v; return a; }
mxArray* mxCreateStructArray(mwSize k, const mwSize* d, int n, const char** f) { return strct(std::vector<size_t>(d, d + k), n, f); }
mxArray* mxCreateStructMatrix(mwSize r, mwSize c, int n, const char** f) { return strct({r, c}, n, f); }
mxArray* mxCreateString(const char* s) { auto* a = num({1, strlen(s)}, mxCHAR_CLASS, false); for (size_t i = 0; s[i]; i++) ((uint16_t*)a->data)[i] = (unsigned char)s[i]; return a; }
mxArray* mxCreateSparse(mwSize m, mwSize n, mwSize nz, mxComplexity x) { auto* a = new mxArray; a->cplx = x == mxCOMPLEX; a->sparse = true; a->dims = {m, n}; if (!nz) nz = 1; a->nzmax = nz; a->bytes = nz * 8; a->data = (char*)calloc(nz, 8); a->ir = (mwIndex*)calloc(nz, 8); a->jc = (mwIndex*)calloc(n + 1, 8); return reg(a); }
mxArray* mxDuplicateArray(const mxArray* o) { auto* a = new mxArray(*o); reg(a); if (o->data) { a->data = (char*)malloc(o->bytes); memcpy(a->data, o->data, o->bytes); } if (o->ir) { a->ir = (mwIndex*)malloc(o->nzmax * 8); memcpy(a->ir, o->ir, o->nzmax * 8); a->jc = (mwIndex*)malloc((o->dims[1] + 1) * 8); memcpy(a->jc, o->jc, (o->dims[1] + 1) * 8); } for (auto& v : a->vals) if (v) { v = mxDuplicateArray(v); made.erase(v); } return a; }
void mxSetPr(mxArray* a, double* p) { if (!blocks.count(p)) fault("mxSetPr with memory not from mxMalloc"); blocks.erase(p); free(a->data); a->data = (char*)p; }
void mxSetM(mxArray* a, mwSize m) { a->dims[0] = m; }
void mxSetN(mxArray* a, mwSize n) { a->dims[1] = n; }
void mxDestroyArray(mxArray* a) { if (!a) return; if (!made.count(a)) { fault("an array that the gateway does not own was destroyed"); return; } drop(a); }
void* mxMalloc(size_t n) { void* p = malloc(n ? n : 1); blocks[p] = n; nalloc++; return p; }
void* mxCalloc(size_t n, size_t m) { void* p = calloc(n * m ? n * m : 1, 1); blocks[p] = n * m; nalloc++; return p; }
void mxFree(void* p) { if (!p) return; auto it = blocks.find(p); if (it == blocks.end()) { fault("mxFree of memory that is not an outstanding mxMalloc block"); return; } blocks.erase(it); free(p); }
void* mxRealloc(void* p, size_t n) { if (!p) return mxMalloc(n); if (!blocks.count(p)) { fault("mxRealloc of foreign memory"); return mxMalloc(n); } blocks.erase(p); void* q = realloc(p, n ? n : 1); blocks[q] = n; return q; }
void mexMakeMemoryPersistent(void* p) { blocks.erase(p); fault("memory made persistent"); }
void mexMakeArrayPersistent(mxArray*) { fault("array made persistent"); }
void mexLock(void) { locked++; }
void mexUnlock(void) { locked--; }
int mexAtExit(void (*)(void)) { return 0; }
int mexPrintf(const char* f, ...) { char b[20000]; va_list ap; va_start(ap, f); int k = vsnprintf(b, sizeof b, f, ap); va_end(ap); printed += b; return k; }
[[noreturn]] static void raise_(const char* s) { err = s; errored = true; if (!armed) abort(); longjmp(jb, 1); }
void mexErrMsgTxt(const char* s) { raise_(s); }
void mexErrMsgIdAndTxt(const char*, const char* f, ...) { char b[2000]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); raise_(b); }
void mexWarnMsgTxt(const char*) { nwarn++; }
void mexWarnMsgIdAndTxt(const char*, const char*, ...) { nwarn++; }
void mxAssertFail(const char* f, int l) { fprintf(stderr, "Assertion failed at %s:%d\n", f, l); abort(); }
}
