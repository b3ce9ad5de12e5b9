// C31: the Simulink blocks under a stand-in simulation engine, against the C library for the same signals
#include "gen2.hpp"
#include "mex/mexrt.hpp"
#include "simulink/simstruc.h"
#include <dlfcn.h>
extern "C" { extern MockBlock mock_qpSWIFT_sfunc, mock_qpSWIFT_sfunc_e; void mexFunction(int, mxArray**, int, const mxArray**) {} }
static decltype(&QP_SETUP_dense) ref_setup; static decltype(&QP_SOLVE) ref_solve; static decltype(&QP_CLEANUP_dense) ref_cleanup;
static long solves; static double t_setup, t_solve;
extern "C" qp_int __real_QP_SOLVE(QP*);
extern "C" qp_int __wrap_QP_SOLVE(QP* q) { solves++; qp_int f = __real_QP_SOLVE(q); t_setup = q->stats->tsetup; t_solve = q->stats->tsolve; return f; }
static std::vector<std::string> bads; static void bad(const std::string& s) { bads.push_back(s); }
struct Port { int width = 0; std::vector<int> dims; int feed = 0, contig = 0, type = SS_DOUBLE, cplx = 0; double* mem = nullptr; size_t cells = 0; std::vector<const double*> ptr; bool dyn() const { return width == DYNAMICALLY_SIZED; } };
struct SimStruct_tag { int cont = -1, disc = -1, params = -1, times = -1; double st = NAN, off = NAN; std::vector<Port> in, out; const char* error = nullptr; int rwork = 0, iwork = 0, pwork = 0; bool running = false; };
static Port* port(std::vector<Port>& v, int i, const char* w) { static Port none; if (i < 0 || i >= (int)v.size()) { bad(std::string(w) + ": no such port"); none = Port(); return &none; } return &v[i]; }
static int dimset(std::vector<Port>& v, int i, std::vector<int> d, const char* w) { Port* p = port(v, i, w); int k = 1; for (int x : d) { if (x == DYNAMICALLY_SIZED) k = DYNAMICALLY_SIZED; else if (k != DYNAMICALLY_SIZED) k *= x; } p->width = k; p->dims = d; return 1; }
extern "C" {
int ssSetNumContStates(SimStruct* S, int n) { S->cont = n; return 1; } int ssSetNumDiscStates(SimStruct* S, int n) { S->disc = n; return 1; } int ssSetNumSFcnParams(SimStruct* S, int n) { S->params = n; return 1; } int ssGetNumSFcnParams(SimStruct* S) { return S->params; } int ssGetSFcnParamsCount(SimStruct*) { return 0; }
int ssSetNumInputPorts(SimStruct* S, int n) { S->in.assign(n, Port()); return 1; } int ssSetNumOutputPorts(SimStruct* S, int n) { S->out.assign(n, Port()); return 1; } int ssGetNumInputPorts(SimStruct* S) { return (int)S->in.size(); } int ssGetNumOutputPorts(SimStruct* S) { return (int)S->out.size(); }
int ssSetInputPortVectorDimension(SimStruct* S, int i, int w) { return dimset(S->in, i, {w}, "input dimension"); } int ssSetInputPortWidth(SimStruct* S, int i, int w) { return dimset(S->in, i, {w}, "input width"); } int ssSetInputPortMatrixDimensions(SimStruct* S, int i, int a, int b) { return dimset(S->in, i, {a, b}, "input dimensions"); }
int ssSetInputPortDimensionInfo(SimStruct* S, int i, const DimsInfo_T* d) { return dimset(S->in, i, std::vector<int>(d->dims, d->dims + d->numDims), "input dimension info"); }
int ssSetOutputPortVectorDimension(SimStruct* S, int i, int w) { return dimset(S->out, i, {w}, "output dimension"); } int ssSetOutputPortWidth(SimStruct* S, int i, int w) { return dimset(S->out, i, {w}, "output width"); } int ssSetOutputPortMatrixDimensions(SimStruct* S, int i, int a, int b) { return dimset(S->out, i, {a, b}, "output dimensions"); }
int ssSetOutputPortDimensionInfo(SimStruct* S, int i, const DimsInfo_T* d) { return dimset(S->out, i, std::vector<int>(d->dims, d->dims + d->numDims), "output dimension info"); }
int ssSetInputPortDirectFeedThrough(SimStruct* S, int i, int v) { port(S->in, i, "feedthrough")->feed = v; return 1; } int ssSetInputPortRequiredContiguous(SimStruct* S, int i, int v) { port(S->in, i, "contiguous")->contig = v; return 1; } int ssSetInputPortDataType(SimStruct* S, int i, DTypeId t) { port(S->in, i, "type")->type = t; return 1; } int ssSetOutputPortDataType(SimStruct* S, int i, DTypeId t) { port(S->out, i, "type")->type = t; return 1; }
int ssSetInputPortComplexSignal(SimStruct* S, int i, int v) { port(S->in, i, "complex")->cplx = v; return 1; } int ssSetOutputPortComplexSignal(SimStruct* S, int i, int v) { port(S->out, i, "complex")->cplx = v; return 1; } int ssSetInputPortOptimOpts(SimStruct*, int, int) { return 1; } int ssSetOutputPortOptimOpts(SimStruct*, int, int) { return 1; } int ssSetInputPortReusable(SimStruct*, int, int) { return 1; } int ssSetInputPortOverWritable(SimStruct*, int, int) { return 1; }
int ssSetNumSampleTimes(SimStruct* S, int n) { S->times = n; return 1; } void ssSetSampleTime(SimStruct* S, int i, double t) { if (i) bad("sample time of another index"); S->st = t; } void ssSetOffsetTime(SimStruct* S, int i, double t) { if (i) bad("offset of another index"); S->off = t; } double ssGetT(SimStruct*) { return 0; } int ssSetModelReferenceSampleTimeDefaultInheritance(SimStruct*) { return 1; }
int ssSetNumRWork(SimStruct* S, int n) { S->rwork = n; return 1; } int ssSetNumIWork(SimStruct* S, int n) { S->iwork = n; return 1; } int ssSetNumPWork(SimStruct* S, int n) { S->pwork = n; return 1; } int ssSetNumModes(SimStruct*, int) { return 1; } int ssSetNumNonsampledZCs(SimStruct*, int) { return 1; } void ssSetOptions(SimStruct*, uint_T) {} int ssSetSimStateCompliance(SimStruct*, int) { return 1; }
int ssGetInputPortWidth(SimStruct* S, int i) { return port(S->in, i, "width")->width; } int ssGetOutputPortWidth(SimStruct* S, int i) { return port(S->out, i, "width")->width; } int* ssGetInputPortDimensions(SimStruct* S, int i) { return port(S->in, i, "dimensions")->dims.data(); } int ssGetInputPortNumDimensions(SimStruct* S, int i) { return (int)port(S->in, i, "dimensions")->dims.size(); } int* ssGetOutputPortDimensions(SimStruct* S, int i) { return port(S->out, i, "dimensions")->dims.data(); } int ssGetInputPortConnected(SimStruct*, int) { return 1; } int ssGetOutputPortConnected(SimStruct*, int) { return 1; }
InputRealPtrsType ssGetInputPortRealSignalPtrs(SimStruct* S, int i) { Port* p = port(S->in, i, "signal"); if (p->contig) bad("element pointers of a port that requires a contiguous signal"); return p->ptr.data(); } InputPtrsType ssGetInputPortSignalPtrs(SimStruct* S, int i) { return (InputPtrsType)ssGetInputPortRealSignalPtrs(S, i); }
const double* ssGetInputPortRealSignal(SimStruct* S, int i) { Port* p = port(S->in, i, "signal"); if (!p->contig) bad("array of a port that does not require a contiguous signal"); return p->mem; } const void* ssGetInputPortSignal(SimStruct* S, int i) { return ssGetInputPortRealSignal(S, i); }
double* ssGetOutputPortRealSignal(SimStruct* S, int i) { return port(S->out, i, "output")->mem; } void* ssGetOutputPortSignal(SimStruct* S, int i) { return ssGetOutputPortRealSignal(S, i); }
void ssSetErrorStatus(SimStruct* S, const char* s) { S->error = s; } const char* ssGetErrorStatus(SimStruct* S) { return S->error; } void ssWarning(SimStruct*, const char*) {} int ssPrintf(const char*, ...) { return 0; }
}
static void put(Rng& r, Port& p, const vd& v) {   // lays the signal out: one array, or elements scattered among poison
  free(p.mem); size_t k = v.size(); p.cells = p.contig ? k : 3 * k + 2; p.mem = (double*)malloc(std::max<size_t>(1, p.cells * 8)); p.ptr.assign(k, nullptr);
  if (p.contig) { for (size_t i = 0; i < k; i++) { p.mem[i] = v[i]; p.ptr[i] = p.mem + i; } return; }
  vl ix(p.cells); std::iota(ix.begin(), ix.end(), 0); r.shuffle(ix); for (size_t i = 0; i < p.cells; i++) p.mem[i] = NAN; for (size_t i = 0; i < k; i++) { p.mem[ix[i]] = v[i]; p.ptr[i] = p.mem + ix[i]; }
}
static vd colmaj(const vd& M, int rows, int cols) { vd o((size_t)rows * cols); for (int i = 0; i < rows; i++) for (int j = 0; j < cols; j++) o[(size_t)j * rows + i] = M[(size_t)i * cols + j]; return o; }
struct Model { SimStruct S; MockBlock* b; bool eq; Prob base; int n, m, p, steps = 0; };
static Prob draw(Rng& r, bool eq) {
  if (r.b(.002)) for (;;) { Prob q = gen_large(r, eq, 160); if (!eq) { q.p = 0; q.A.clear(); q.b.clear(); } if (q.m <= 300) return q; }
  for (;;) { int k = (int)r.i(0, 9), sc = r.b(.03) ? 2 : (int)r.i(0, 1); Prob q; if (k == 0) q = gen_wild(r, sc); else if (k == 1) q = gen_bad(r, (int)r.i(0, NBAD - 1), sc).q; else q = gen_strict(r, (int)r.i(0, NFAM - 1), sc); if (q.n >= 3 && (q.p > 0) == eq && q.n <= 60) return q; }
}
static void start(Ctx& cx, Rng& r, Model& M, bool eq) {
  M.eq = eq; M.b = eq ? &mock_qpSWIFT_sfunc_e : &mock_qpSWIFT_sfunc; M.base = draw(r, eq); M.n = M.base.n; M.m = M.base.m; M.p = M.base.p; SimStruct* S = &M.S; const char* nm = eq ? "qpSWIFT_sfunc_e" : "qpSWIFT_sfunc";
  M.b->sizes(S);
  if (S->error) cx.fail("error-status", "%s: %s", nm, S->error);
  if (S->cont > 0 || S->disc > 0 || S->params > 0 || S->in.size() != (eq ? 6u : 4u) || S->out.size() != 5) { cx.fail("interface", "%s declares %d/%d states, %d parameters, %zu inputs, %zu outputs", nm, S->cont, S->disc, S->params, S->in.size(), S->out.size()); return; }
  std::vector<std::vector<int>> d; int n = M.n, m = M.m, p = M.p; auto vec = [&](int k) { int f = (int)r.i(0, 2); return f == 0 ? std::vector<int>{k} : f == 1 ? std::vector<int>{k, 1} : std::vector<int>{k}; };
  d = {{n, n}, vec(n)}; if (eq) { d.push_back({p, n}); d.push_back(vec(p)); } d.push_back({m, n}); d.push_back(vec(m));
  std::vector<int> order(d.size()); std::iota(order.begin(), order.end(), 0); r.shuffle(order);
  for (int i : order) {
    int w = 1; for (int x : d[i]) w *= x; Port& q = S->in[i];
    if (!q.feed) cx.fail("feedthrough", "%s: port %d is read in mdlOutputs but declared without direct feedthrough", nm, i);
    if (q.type != SS_DOUBLE || q.cplx) cx.fail("port-type", "%s: port %d does not accept a real double signal", nm, i);
    if (!q.dyn()) { if (q.width != w) cx.fail("fixed-input", "%s: port %d accepts %d elements only", nm, i, q.width); }
    else if (M.b->inDims) { DimsInfo_T t{w, (int)d[i].size(), d[i].data(), nullptr}; M.b->inDims(S, i, &t); } else dimset(S->in, i, d[i], "inherited");
    if (S->in[i].width != w) cx.fail("input-width", "%s: port %d has width %d for a signal of %d", nm, i, S->in[i].width, w);
  }
  for (int i = 0; i < 5; i++) { int w = i ? 1 : 3; if (S->out[i].width != w) cx.fail("output-width", "%s: output %d has width %d, expected %d", nm, i, S->out[i].width, w); S->out[i].width = w; S->out[i].mem = (double*)malloc(w * 8); }
  M.b->sampleTimes(S);
  if (S->times != 1 || !(S->st == -1) || !(S->off == 0)) cx.fail("sample-time", "%s: %d sample times, %g offset %g; the block inherits its sample time", nm, S->times, S->st, S->off);
  if (M.b->workWidths) M.b->workWidths(S); if (M.b->start) M.b->start(S); if (M.b->initCond) M.b->initCond(S);
}
static void step(Ctx& cx, Rng& r, Model& M) {
  int n = M.n, m = M.m, p = M.p; Prob& q = M.base; SimStruct* S = &M.S; const char* nm = M.eq ? "qpSWIFT_sfunc_e" : "qpSWIFT_sfunc"; const char* how = "new";
  if (M.steps) switch (r.i(0, 4)) {
    case 0: how = "same"; break;
    case 1: how = "shifted"; for (auto& v : q.c) v += r.n(); break;
    case 2: how = "tightened"; for (auto& v : q.h) v -= r.u(0, .3); break;
    case 3: how = "scaled"; { double f = std::pow(10., r.u(-2, 2)); for (auto& v : q.P) v *= f; for (auto& v : q.c) v *= f; } break;
    default: how = "wild"; for (auto& v : q.G) if (r.b(.3)) v = r.b(.3) ? 0 : r.n(); for (auto& v : q.h) v = r.u(.1, 2); for (auto& v : q.c) v = r.n(); break;
  }
  vd sig[6]; int k = 0; sig[k++] = colmaj(q.P, n, n); sig[k++] = q.c; if (M.eq) { sig[k++] = colmaj(q.A, p, n); sig[k++] = q.b; } sig[k++] = colmaj(q.G, m, n); sig[k++] = q.h;
  std::string before, after; bool contig = true;
  for (int i = 0; i < k; i++) { put(r, S->in[i], sig[i]); before.append((char*)S->in[i].mem, S->in[i].cells * 8); contig = contig && S->in[i].contig; }
  for (int i = 0; i < 5; i++) for (int j = 0; j < S->out[i].width; j++) S->out[i].mem[j] = -12345.678;
  solves = 0; t_setup = t_solve = -1; size_t b0 = mexrt::nalloc;
  M.b->outputs(S, 0); if (M.b->update) M.b->update(S, 0);
  char desc[200]; snprintf(desc, sizeof desc, "%s n=%d m=%d p=%d step %d (%s)", nm, n, m, p, M.steps, how); M.steps++;
  cx.seen(q.hash() ^ (uint64_t)M.steps); cx.count("steps"); cx.count(contig ? "contiguous_ports" : "scattered_ports"); if (mexrt::nalloc > b0) cx.count("solver_allocations", (long)(mexrt::nalloc - b0));
  for (int i = 0; i < k; i++) after.append((char*)S->in[i].mem, S->in[i].cells * 8);
  if (before != after) cx.fail("input-modified", "an input signal was modified: %s", desc);
  if (S->error) cx.fail("error-status", "%s: %s", S->error, desc);
  for (auto& s : bads) cx.fail("engine-misuse", "%s: %s", s.c_str(), desc); bads.clear();
  for (auto& s : mexrt::faults) cx.fail("runtime-misuse", "%s: %s", s.c_str(), desc); mexrt::faults.clear();
  if (!mexrt::blocks.empty() || !mexrt::made.empty()) { cx.fail("leak", "%zu blocks kept after the step: %s", mexrt::blocks.size(), desc); mexrt::sweep(); }
  if (solves != 1) cx.fail("solves", "solver run %ld times: %s", solves, desc);
  vd rp = sig[0], rc = sig[1], ra = M.eq ? sig[2] : vd(), rb = M.eq ? sig[3] : vd(), rg = sig[k - 2], rh = sig[k - 1];
  QP* t = ref_setup(n, m, p, rp.data(), p ? ra.data() : nullptr, rg.data(), rc.data(), rh.data(), p ? rb.data() : nullptr, nullptr, COLUMN_MAJOR_ORDERING);
  qp_int f = ref_solve(t); double want[5] = {0, (double)f, (double)t->stats->IterationCount, t_setup, t_solve}; vd x(t->x, t->x + n); ref_cleanup(t);
  auto eqv = [](double a, double b) { return bits(a, b) || (std::isnan(a) && std::isnan(b)) || std::fabs(a - b) <= 1e-12 * std::fabs(b); };
  for (int j = 0; j < 3; j++) if (!eqv(S->out[0].mem[j], x[j])) { cx.fail("solution", "x[%d] = %.17g, the C library gives %.17g (flag %ld after %g iterations): %s", j, S->out[0].mem[j], x[j], (long)f, want[2], desc); break; }
  static const char* ON[] = {"", "exitflag", "iter", "tsetup", "tsolve"};
  for (int j = 1; j < 5; j++) if (!eqv(S->out[j].mem[0], want[j])) cx.fail(ON[j], "%s = %.17g, expected %.17g: %s", ON[j], S->out[j].mem[0], want[j], desc);
  if (!(S->out[3].mem[0] >= 0 && S->out[3].mem[0] < 1000) || !(S->out[4].mem[0] >= 0 && S->out[4].mem[0] < 1000)) cx.fail("time", "times %g and %g: %s", S->out[3].mem[0], S->out[4].mem[0], desc);
  if (!mexrt::printed.empty()) { cx.fail("printed", "printed (%.60s): %s", mexrt::printed.c_str(), desc); mexrt::printed.clear(); }
  char fl[30]; snprintf(fl, sizeof fl, "flag_%ld", (long)f); cx.count(fl); if (M.eq) cx.count("equality_steps");
  cx.sample("%s flag %ld after %g iterations", desc, (long)f, want[2]);
}
static void one(Ctx& cx, Rng& r) {
  if (!ref_setup) {
    void* so = dlopen(getenv("QPM_REF"), RTLD_NOW | RTLD_LOCAL); if (!so) { fprintf(stderr, "%s\n", dlerror()); exit(9); }
    ref_setup = (decltype(ref_setup))dlsym(so, "QP_SETUP_dense"); ref_solve = (decltype(ref_solve))dlsym(so, "QP_SOLVE"); ref_cleanup = (decltype(ref_cleanup))dlsym(so, "QP_CLEANUP_dense");
  }
  mexrt::reset(); bads.clear(); int k = (int)r.i(1, 3), T = (int)r.i(1, 6); std::vector<Model> M(k);
  for (auto& x : M) { start(cx, r, x, r.b(.5)); if (cx.fails_case) return; }
  for (int t = 0; t < T && !cx.fails_case; t++) { if (k > 1 && t) cx.count("interleaved_steps"); step(cx, r, M[r.i(0, k - 1)]); }
  for (auto& x : M) { x.b->terminate(&x.S); for (auto& p : x.S.in) free(p.mem); for (auto& p : x.S.out) free(p.mem); }
  for (auto& s : mexrt::faults) cx.fail("runtime-misuse", "at termination: %s", s.c_str());
  if (!mexrt::blocks.empty()) { cx.fail("leak", "%zu blocks kept after termination", mexrt::blocks.size()); mexrt::sweep(); }
}
int main(int a, char** v) { return qpm_main(a, v, one); }
