/* OpenCL host classes (src/ocl/cl842decompress.cpp) with the real C++ bindings (CL/cl2.hpp) over a model of the OpenCL C API whose
   kernel launches run the real kernel, compiled for the host.
   mode 0: chunks end to end; 5: many chunks; 1: one failing OpenCL call at any point; 2: program cache; 3: device selection; 4: C interface. */
#define IOSIM_IMPL
#include "iosim.h"
#include "sx.h"
template class std::basic_string<char>;
extern "C" {
#define REF_NOCRC
#include "ref842.h"
}
#include <errno.h>
#include <lib842/common.h>
#include <lib842/cl.h>
using lib842::CLDecompressorInputFormat;
typedef void kern_t(const uint64_t *, uint64_t, const uint64_t *, uint64_t *, uint64_t, uint64_t *, uint64_t, const uint64_t *, int *);
extern "C" { kern_t kern_always, kern_maybe, kern_inplace; static size_t gid; size_t _Z13get_global_idj(unsigned) { return gid; } }
extern const char *LIB842_CLDECOMPRESS_842DEFS_SOURCE, *LIB842_CLDECOMPRESS_KERNEL_SOURCE;
const char *LIB842_CLDECOMPRESS_842DEFS_SOURCE = "DEFS1\n", *LIB842_CLDECOMPRESS_KERNEL_SOURCE = "KERNEL1\n";
static unsigned version() { return LIB842_CLDECOMPRESS_842DEFS_SOURCE[4] * 256u + LIB842_CLDECOMPRESS_KERNEL_SOURCE[6]; }
sxfs_file sxfs_in; static char cachePath[64];
sxfs_file *sxfs_find(const char *path, bool) { if (!cachePath[0]) memcpy(cachePath, path, strlen(path) + 1); sx_assert(strcmp(path, cachePath) == 0, "one cache file"); return &sxfs_in; }

/* ---- the model ---- */
struct conf { uint64_t size, stride; int fmt; unsigned src; };
static bool same(const conf &a, const conf &b) { return a.size == b.size && a.stride == b.stride && a.fmt == b.fmt && a.src == b.src; }
static int live, faultsLeft, faulted, launches, srcBuilds, binBuilds; static conf want; static bool anyStride;
static bool fault(const char *what) { if (!faultsLeft) return false; if (!sx_choose(2, what)) return false; faultsLeft--; faulted++; return true; }
#define FAULT(w) fault(w)
struct _cl_device_id { int plat, gpu, avail; char name[8]; }; struct _cl_platform_id { int n; _cl_device_id *d[4]; };
static _cl_device_id devs[8]; static _cl_platform_id plats[2]; static int nplat, ndev;
struct _cl_context { int ref, n; _cl_device_id *d[4]; }; struct _cl_command_queue { int ref; _cl_context *c; bool prof; }; struct _cl_mem { int ref, maps; size_t n; uint8_t *d; cl_mem_flags fl; };
struct _cl_program { int ref; _cl_context *c; std::string *src; bool built, frombin; conf cf; int n; _cl_device_id *d[4]; }; struct _cl_kernel { int ref; _cl_program *p; struct { bool set; size_t n; uint8_t v[8]; } a[9]; }; struct _cl_event { int ref; bool waited, prof; };
static _cl_context *theContext; static bool waitedForKernel;
struct bin { unsigned n; uint8_t d[32]; conf cf; _cl_device_id *dev; }; static bin bins[16]; static int nbins;
#define LIVE(x) sx_assert((x) && (x)->ref > 0, "a live OpenCL object is used")
#define RETAIN(T, t) extern "C" cl_int clRetain##T(t o) { LIVE(o); o->ref++; return 0; }
RETAIN(Context, cl_context) RETAIN(CommandQueue, cl_command_queue) RETAIN(MemObject, cl_mem) RETAIN(Program, cl_program) RETAIN(Kernel, cl_kernel) RETAIN(Event, cl_event)
template <class T> static T *mk() { T *p = (T *)calloc(1, sizeof(T)); p->ref = 1; live++; return p; }
extern "C" {
cl_int clRetainDevice(cl_device_id) { return 0; } cl_int clReleaseDevice(cl_device_id) { return 0; }
cl_int clReleaseContext(cl_context o) { LIVE(o); if (!--o->ref) { live--; free(o); } return 0; }
cl_int clReleaseCommandQueue(cl_command_queue o) { LIVE(o); if (!--o->ref) { clReleaseContext(o->c); live--; free(o); } return 0; }
cl_int clReleaseMemObject(cl_mem o) { LIVE(o); if (!--o->ref) { live--; free(o->d); free(o); } return 0; }
cl_int clReleaseProgram(cl_program o) { LIVE(o); if (!--o->ref) { clReleaseContext(o->c); live--; delete o->src; free(o); } return 0; }
cl_int clReleaseKernel(cl_kernel o) { LIVE(o); if (!--o->ref) { clReleaseProgram(o->p); live--; free(o); } return 0; }
cl_int clReleaseEvent(cl_event o) { LIVE(o); if (!--o->ref) { live--; free(o); } return 0; }
#define ERR(e, v) do { if (err) *err = (e); return v; } while (0)
cl_int clGetPlatformIDs(cl_uint n, cl_platform_id *p, cl_uint *num) { if (FAULT("clGetPlatformIDs")) return CL_OUT_OF_HOST_MEMORY; if (!nplat) return -1001; for (int i = 0; p && i < nplat && i < (int)n; i++) p[i] = &plats[i]; if (num) *num = nplat; return 0; }
static cl_int info(const void *v, size_t vn, size_t n, void *p, size_t *r) { if (r) *r = vn; if (p) { if (n < vn) return CL_INVALID_VALUE; memcpy(p, v, vn); } return 0; }
cl_int clGetPlatformInfo(cl_platform_id, cl_platform_info what, size_t n, void *p, size_t *r) { if (FAULT("clGetPlatformInfo")) return CL_OUT_OF_HOST_MEMORY; const char *s = what == CL_PLATFORM_VERSION ? "OpenCL 1.2 sx" : "sx"; return info(s, strlen(s) + 1, n, p, r); }
cl_int clGetDeviceIDs(cl_platform_id pl, cl_device_type ty, cl_uint n, cl_device_id *d, cl_uint *num) {
  if (FAULT("clGetDeviceIDs")) return CL_OUT_OF_RESOURCES; cl_uint k = 0; for (int i = 0; i < pl->n; i++) if ((pl->d[i]->gpu && (ty & CL_DEVICE_TYPE_GPU)) || (!pl->d[i]->gpu && (ty & CL_DEVICE_TYPE_CPU))) { if (d && k < n) d[k] = pl->d[i]; k++; }
  if (num) *num = k; return k ? 0 : CL_DEVICE_NOT_FOUND; }
cl_int clGetDeviceInfo(cl_device_id d, cl_device_info what, size_t n, void *p, size_t *r) {
  if (FAULT("clGetDeviceInfo")) return CL_OUT_OF_RESOURCES; if (what == CL_DEVICE_NAME) return info(d->name, strlen(d->name) + 1, n, p, r); cl_bool b = d->avail; if (what == CL_DEVICE_AVAILABLE) return info(&b, sizeof b, n, p, r);
  if (what == CL_DEVICE_PLATFORM) { cl_platform_id q = &plats[d->plat]; return info(&q, sizeof q, n, p, r); } const char *s = "OpenCL 1.2 sx"; return info(s, strlen(s) + 1, n, p, r); }
cl_context clCreateContext(const cl_context_properties *, cl_uint n, const cl_device_id *d, void (CL_CALLBACK *)(const char *, const void *, size_t, void *), void *, cl_int *err) {
  if (!n || !d) ERR(CL_INVALID_VALUE, nullptr); if (FAULT("clCreateContext")) ERR(CL_OUT_OF_RESOURCES, nullptr); _cl_context *c = mk<_cl_context>(); c->n = (int)n; for (cl_uint i = 0; i < n; i++) { c->d[i] = d[i]; sx_assert(d[i]->avail && d[i]->plat == d[0]->plat, "available devices of one platform"); } theContext = c; ERR(0, c); }
static bool has(_cl_context *c, cl_device_id d) { for (int i = 0; i < c->n; i++) if (c->d[i] == d) return true; return false; }
cl_command_queue clCreateCommandQueue(cl_context c, cl_device_id d, cl_command_queue_properties pr, cl_int *err) { LIVE(c); sx_assert(has(c, d), "the queue's device belongs to the context"); sx_assert(!(pr & CL_QUEUE_OUT_OF_ORDER_EXEC_MODE_ENABLE), "in-order queue"); if (FAULT("clCreateCommandQueue")) ERR(CL_OUT_OF_RESOURCES, nullptr); auto q = mk<_cl_command_queue>(); q->c = c; c->ref++; q->prof = pr & CL_QUEUE_PROFILING_ENABLE; ERR(0, q); }
cl_int clGetCommandQueueInfo(cl_command_queue q, cl_command_queue_info what, size_t n, void *p, size_t *r) { LIVE(q); if (FAULT("clGetCommandQueueInfo")) return CL_OUT_OF_RESOURCES; if (what == CL_QUEUE_CONTEXT) return info(&q->c, sizeof q->c, n, p, r); return info(&q->c->d[0], sizeof(cl_device_id), n, p, r); }
cl_mem clCreateBuffer(cl_context c, cl_mem_flags fl, size_t n, void *host, cl_int *err) {
  LIVE(c); if (!n) ERR(CL_INVALID_BUFFER_SIZE, nullptr); if (FAULT("clCreateBuffer")) ERR(CL_MEM_OBJECT_ALLOCATION_FAILURE, nullptr); sx_assert(!(fl & CL_MEM_USE_HOST_PTR), "own storage"); auto m = mk<_cl_mem>(); m->n = n; m->d = (uint8_t *)malloc(n); m->fl = fl; memset(m->d, 0xd7, n); if (fl & CL_MEM_COPY_HOST_PTR) memcpy(m->d, host, n); ERR(0, m); }
static void event(cl_event *e, bool prof = false) { if (e) { *e = mk<_cl_event>(); (*e)->prof = prof; } }
void *clEnqueueMapBuffer(cl_command_queue q, cl_mem m, cl_bool blocking, cl_map_flags, size_t off, size_t n, cl_uint, const cl_event *, cl_event *e, cl_int *err) { LIVE(q); LIVE(m); if (!n || off > m->n || n > m->n - off) ERR(CL_INVALID_VALUE, nullptr); if (FAULT("clEnqueueMapBuffer")) ERR(CL_MAP_FAILURE, nullptr); (void)blocking; event(e); m->maps++; ERR(0, m->d + off); }
cl_int clEnqueueUnmapMemObject(cl_command_queue q, cl_mem m, void *p, cl_uint, const cl_event *, cl_event *e) { LIVE(q); LIVE(m); sx_assert(m->maps > 0 && p, "unmaps what was mapped"); if (FAULT("clEnqueueUnmapMemObject")) return CL_OUT_OF_RESOURCES; m->maps--; event(e); return 0; }
cl_int clEnqueueWriteBuffer(cl_command_queue q, cl_mem m, cl_bool, size_t off, size_t n, const void *p, cl_uint, const cl_event *, cl_event *e) { LIVE(q); LIVE(m); if (!n || off > m->n || n > m->n - off) return CL_INVALID_VALUE; if (FAULT("clEnqueueWriteBuffer")) return CL_OUT_OF_RESOURCES; memcpy(m->d + off, p, n); event(e); return 0; }
cl_int clEnqueueReadBuffer(cl_command_queue q, cl_mem m, cl_bool, size_t off, size_t n, void *p, cl_uint, const cl_event *, cl_event *e) { LIVE(q); LIVE(m); if (!n || off > m->n || n > m->n - off) return CL_INVALID_VALUE; if (FAULT("clEnqueueReadBuffer")) return CL_OUT_OF_RESOURCES; memcpy(p, m->d + off, n); event(e); return 0; }
cl_int clFinish(cl_command_queue q) { LIVE(q); return FAULT("clFinish") ? CL_OUT_OF_RESOURCES : 0; } cl_int clFlush(cl_command_queue q) { LIVE(q); return 0; }
cl_int clWaitForEvents(cl_uint n, const cl_event *e) { for (cl_uint i = 0; i < n; i++) LIVE(e[i]); if (FAULT("clWaitForEvents")) return CL_OUT_OF_RESOURCES; for (cl_uint i = 0; i < n; i++) e[i]->waited = true; return 0; }
cl_int clGetEventProfilingInfo(cl_event e, cl_profiling_info what, size_t n, void *p, size_t *r) { LIVE(e); if (!e->prof) return CL_PROFILING_INFO_NOT_AVAILABLE; if (FAULT("clGetEventProfilingInfo")) return CL_OUT_OF_RESOURCES; sx_assert(e->waited, "profiled after it finished"); cl_ulong v = what == CL_PROFILING_COMMAND_START ? 5000000 : what == CL_PROFILING_COMMAND_END ? 47000000 : 1000000; return info(&v, sizeof v, n, p, r); }
static bool word(const char *&s, const char *w) { const char *q = s; while (*w) if (*q++ != *w++) return false; s = q; return true; }
static uint64_t numb(const char *&s) { uint64_t v = 0; sx_assert(*s >= '0' && *s <= '9', "a number in the build options"); while (*s >= '0' && *s <= '9') v = v * 10 + (uint64_t)(*s++ - '0'); return v; }
static int parse(const char *s, conf &c) { /* -D NAME=VALUE ... */
  bool e1 = false, e2 = false, z = false, st = false, mb = false, ip = false, mk_ = false;
  while (*s) {
    if (*s == ' ') { s++; continue; } if (!word(s, "-D")) return 0; while (*s == ' ') s++;
    if (word(s, "CL842_CHUNK_SIZE=")) { c.size = numb(s); z = true; } else if (word(s, "CL842_CHUNK_STRIDE=")) { c.stride = numb(s); st = true; }
    else if (word(s, "EINVAL=")) { sx_assert(numb(s) == EINVAL, "EINVAL passed to the kernel"); e1 = true; } else if (word(s, "ENOSPC=")) { sx_assert(numb(s) == ENOSPC, "ENOSPC passed to the kernel"); e2 = true; }
    else if (word(s, "USE_MAYBE_COMPRESSED_CHUNKS")) { mb = true; if (*s == '=') { s++; numb(s); } } else if (word(s, "USE_INPLACE_COMPRESSED_CHUNKS")) { ip = true; if (*s == '=') { s++; numb(s); } }
    else if (word(s, "LIB842_COMPRESSED_CHUNK_MARKER_DEF={")) { unsigned k = 0; while (*s != '}') { uint64_t v = numb(s); sx_assert(k < 16 && v == LIB842_COMPRESSED_CHUNK_MARKER[k], "marker bytes passed to the kernel"); k++; if (*s == ',') s++; } s++; sx_assert(k == 16, "all marker bytes"); mk_ = true; }
    else { while (*s && *s != ' ') s++; }
    if (*s && *s != ' ') return 0;
  }
  c.fmt = mb ? 1 : ip ? 2 : 0; if (mb && ip) return 0; return e1 && e2 && z && st && (!c.fmt || mk_);
}
cl_program clCreateProgramWithSource(cl_context c, cl_uint n, const char **s, const size_t *len, cl_int *err) { LIVE(c); if (!n || !s) ERR(CL_INVALID_VALUE, nullptr); if (FAULT("clCreateProgramWithSource")) ERR(CL_OUT_OF_RESOURCES, nullptr); auto p = mk<_cl_program>(); p->c = c; c->ref++; p->src = new std::string; for (cl_uint i = 0; i < n; i++) p->src->append(s[i], len && len[i] ? len[i] : strlen(s[i])); ERR(0, p); }
cl_program clCreateProgramWithBinary(cl_context c, cl_uint n, const cl_device_id *d, const size_t *len, const unsigned char **b, cl_int *st, cl_int *err) {
  LIVE(c); if (!n || !d || !len || !b) ERR(CL_INVALID_VALUE, nullptr); if (FAULT("clCreateProgramWithBinary")) ERR(CL_OUT_OF_RESOURCES, nullptr); conf cf{};
  for (cl_uint i = 0; i < n; i++) { if (!len[i] || !b[i]) ERR(CL_INVALID_VALUE, nullptr); int k; for (k = 0; k < nbins; k++) if (bins[k].dev == d[i] && bins[k].n == len[i] && memcmp(bins[k].d, b[i], len[i]) == 0) break; if (st) st[i] = k < nbins ? 0 : CL_INVALID_BINARY; if (k == nbins) ERR(CL_INVALID_BINARY, nullptr); if (i && !same(cf, bins[k].cf)) ERR(CL_INVALID_BINARY, nullptr); cf = bins[k].cf; }
  auto p = mk<_cl_program>(); p->c = c; c->ref++; p->frombin = true; p->cf = cf; for (cl_uint i = 0; i < n; i++) p->d[i] = d[i]; p->n = (int)n; ERR(0, p); }
cl_int clBuildProgram(cl_program p, cl_uint n, const cl_device_id *d, const char *o, void (CL_CALLBACK *)(cl_program, void *), void *) {
  LIVE(p); if (!n || !d) { n = (cl_uint)p->c->n; d = p->c->d; } for (cl_uint i = 0; i < n; i++) sx_assert(has(p->c, d[i]), "builds for devices of the context"); int f = FAULT("clBuildProgram"); if (f) return sx_choose(2, "buildfailure") ? CL_BUILD_PROGRAM_FAILURE : CL_OUT_OF_RESOURCES;
  if (!p->frombin) {
    size_t a = p->src->find(LIB842_CLDECOMPRESS_842DEFS_SOURCE), b = p->src->find(LIB842_CLDECOMPRESS_KERNEL_SOURCE); sx_assert(a != std::string::npos && b != std::string::npos && a < b, "the program is the 842 definitions followed by the kernel");
    conf c{}; sx_assert(o && parse(o, c), "the build options define everything the kernel needs"); c.src = version(); p->cf = c; p->n = (int)n; for (cl_uint i = 0; i < n; i++) p->d[i] = d[i]; srcBuilds++;
  } else binBuilds++;
  p->built = true; return 0; }
static bin *binOf(cl_program p, int i) { for (int k = 0; k < nbins; k++) if (same(bins[k].cf, p->cf) && bins[k].dev == p->d[i]) return &bins[k]; bin &x = bins[nbins++]; sx_assert(nbins < 16, "stub limit"); x.cf = p->cf; x.dev = p->d[i]; x.n = 12 + (unsigned)(p->d[i] - devs); memset(x.d, 0, sizeof x.d); memcpy(x.d, "BIN:", 4); x.d[4] = (uint8_t)nbins; x.d[5] = (uint8_t)x.n; return &x; }
cl_int clGetProgramInfo(cl_program p, cl_program_info what, size_t n, void *v, size_t *r) {
  LIVE(p); if (FAULT("clGetProgramInfo")) return CL_OUT_OF_RESOURCES; 
  if (!p->built) { p->n = p->c->n; for (int i = 0; i < p->n; i++) p->d[i] = p->c->d[i]; } if (what == CL_PROGRAM_NUM_DEVICES) { cl_uint k = (cl_uint)p->n; return info(&k, sizeof k, n, v, r); } if (what == CL_PROGRAM_DEVICES) return info(p->d, sizeof(cl_device_id) * p->n, n, v, r);
  sx_assert(p->built, "built program"); if (what == CL_PROGRAM_BINARY_SIZES) { size_t z[4]; for (int i = 0; i < p->n; i++) z[i] = binOf(p, i)->n; return info(z, sizeof(size_t) * p->n, n, v, r); }
  sx_assert(what == CL_PROGRAM_BINARIES, "known query"); if (r) *r = sizeof(char *) * p->n; if (v) { if (n < sizeof(char *) * p->n) return CL_INVALID_VALUE; for (int i = 0; i < p->n; i++) if (((uint8_t **)v)[i]) memcpy(((uint8_t **)v)[i], binOf(p, i)->d, binOf(p, i)->n); } return 0; }
cl_int clGetProgramBuildInfo(cl_program p, cl_device_id, cl_program_build_info, size_t n, void *v, size_t *r) { LIVE(p); if (FAULT("clGetProgramBuildInfo")) return CL_OUT_OF_RESOURCES; return info("log", 4, n, v, r); }
cl_kernel clCreateKernel(cl_program p, const char *nm, cl_int *err) { LIVE(p); sx_assert(p->built && strcmp(nm, "decompress") == 0, "the kernel of a built program"); if (FAULT("clCreateKernel")) ERR(CL_OUT_OF_RESOURCES, nullptr); auto k = mk<_cl_kernel>(); k->p = p; p->ref++; ERR(0, k); }
cl_int clSetKernelArg(cl_kernel k, cl_uint i, size_t n, const void *v) { LIVE(k); if (i > 8) return CL_INVALID_ARG_INDEX; if (n != 8) return CL_INVALID_ARG_SIZE; if (FAULT("clSetKernelArg")) return CL_OUT_OF_RESOURCES; k->a[i].set = true; if (v) memcpy(k->a[i].v, v, 8); else memset(k->a[i].v, 0, 8); return 0; }
static uint64_t u64arg(cl_kernel k, int i) { uint64_t v; memcpy(&v, k->a[i].v, 8); return v; }
static uint8_t *memarg(cl_kernel k, int i, size_t need, bool wr) { cl_mem m; memcpy(&m, k->a[i].v, 8); if (!m) return nullptr; LIVE(m); sx_assert(m->n >= need, "argument buffer holds an entry per chunk"); sx_assert(!m->maps, "no mapped buffer is used by the kernel"); sx_assert(!wr || !(m->fl & CL_MEM_READ_ONLY), "written buffers are writable"); sx_assert(wr || !(m->fl & CL_MEM_WRITE_ONLY), "read buffers are readable"); return m->d; }
cl_int clEnqueueNDRangeKernel(cl_command_queue q, cl_kernel k, cl_uint dim, const size_t *go, const size_t *gs, const size_t *ls, cl_uint, const cl_event *, cl_event *e) {
  LIVE(q); LIVE(k); sx_assert(dim == 1, "one dimension"); for (auto &a : k->a) if (!a.set) return CL_INVALID_KERNEL_ARGS; if (!gs || !gs[0]) return CL_INVALID_GLOBAL_WORK_SIZE; if (ls && (!ls[0] || gs[0] % ls[0])) return CL_INVALID_WORK_GROUP_SIZE; if (FAULT("clEnqueueNDRangeKernel")) return CL_OUT_OF_RESOURCES;
  conf c = k->p->cf; sx_assert(k->p->built, "built program"); uint64_t n = u64arg(k, 6); size_t o = go ? go[0] : 0; sx_assert(o == 0 && gs[0] >= n, "a work item for every chunk");
  sx_assert(c.fmt == want.fmt && c.src == want.src && (anyStride || (c.size == want.size && c.stride == want.stride)), "the kernel was built from this library's source for this configuration"); sx_assert(!anyStride || n == 1, "one chunk");
  uint64_t io = u64arg(k, 1), oo = u64arg(k, 4); uint8_t *in = memarg(k, 0, 0, false), *out = memarg(k, 3, 0, true); auto il = (uint64_t *)memarg(k, 2, n * 8, false), ol = (uint64_t *)memarg(k, 5, n * 8, true), map = (uint64_t *)memarg(k, 7, n * 8, false); auto rets = (int *)memarg(k, 8, n * 4, true);
  kern_t *f = c.fmt == 0 ? kern_always : c.fmt == 1 ? kern_maybe : kern_inplace; launches++;
  for (gid = 0; gid < gs[0]; gid++) f((uint64_t *)in, io, il, (uint64_t *)out, oo, ol, n, map, rets);
  event(e, q->prof); return 0; }
}
static void machine(int np, int per) { nplat = np; ndev = 0; for (int i = 0; i < np; i++) { plats[i].n = per; for (int k = 0; k < per; k++) { _cl_device_id &d = devs[ndev]; d.plat = i; d.gpu = 1; d.avail = 1; memcpy(d.name, "dev0", 5); d.name[3] = (char)('0' + ndev); plats[i].d[k] = &d; ndev++; } } }
static CLDecompressorInputFormat FMT(int f) { return f == 0 ? CLDecompressorInputFormat::ALWAYS_COMPRESSED_CHUNKS : f == 1 ? CLDecompressorInputFormat::MAYBE_COMPRESSED_CHUNKS : CLDecompressorInputFormat::INPLACE_COMPRESSED_CHUNKS; }
static const size_t SZ = 64; static size_t strideOf(int f) { return f ? 64 : 96; }
static void stream1(uint8_t *s, size_t n, unsigned i) { struct wbits w = {s, n, 0}; wput(&w, 0, 5); wput(&w, 0x0123456789abcdefull * (i + 1), 64); wput(&w, 25, 5); wput(&w, 0, 8); wput(&w, 28, 5); wput(&w, 30, 5); wput(&w, 0, 32); }
/* one decompression of n chunks, chunk c of them arbitrary; returns false if an OpenCL error was reported */
static bool once(const lib842::CLHostDecompressor &D, int f, unsigned n, int c, bool useil, bool useol, bool user, bool usemap, bool prof) {
  size_t st = strideOf(f), cap = sx_param("cap", SZ), is = n ? (n - 1) * st + (f ? 64 : useil ? 32 : st) : 0, os = n * SZ; uint8_t *in = (uint8_t *)malloc(is + !is), *sv = (uint8_t *)malloc(is + !is), *out = f == 2 ? in : (uint8_t *)malloc(os + !os), *wantb = (uint8_t *)malloc(os + !os);
  size_t *il = (size_t *)malloc(8 * n + !n), *ol = (size_t *)malloc(8 * n + !n), *map = (size_t *)malloc(8 * n + !n); int *rets = (int *)malloc(4 * n + !n); static size_t wl[600]; static int wr[600]; memset(in, 0, is); if (f != 2) memset(out, 0x77, os); memset(wantb, 0, os); bool ok = true;
  for (unsigned i = 0; i < n; i++) {
    uint8_t *p = in + st * i, *q = wantb + SZ * i, *s = p; size_t slen = 32; unsigned kind = 3; bool sym = (int)i == c; uint64_t sz = 32;
    if (f) {
      kind = sym ? sx_choose(4, "kind") : i % 4; sz = kind == 3 ? slen : 0; if (kind == 3) s = p + 64 - slen;
      if (kind >= 2) { memcpy(p, LIB842_COMPRESSED_CHUNK_MARKER, 16); memcpy(p + 16, &sz, 8); }
      else { for (unsigned k = 0; k < 64; k++) p[k] = (uint8_t)(k + 3 * i); if (sym) { sx_sym(p, 24, "plain"); sx_assume(memcmp(p, LIB842_COMPRESSED_CHUNK_MARKER, 16) != 0); } }
    }
    il[i] = slen; ol[i] = wl[i] = cap; rets[i] = 777; wr[i] = 0; map[i] = i;
    if (kind < 2) { memcpy(q, p, 64); wl[i] = 64; continue; } if (kind == 2) { if (f == 2) memcpy(q, p, 64); else memset(q, 0, 0); wl[i] = 64; wr[i] = 2; continue; }
    if (sym && f != 2) sx_sym(s, slen < 16 ? slen : 16, "stream"); else stream1(s, slen, i);
    ref_oplimit = sym ? sx_param("nop", 1) : 0; uint8_t ref[SZ + 8]; struct refres r = ref_decode(s, useil || f ? slen : st, ref, useol && cap < SZ ? cap : SZ, 0);
    if (r.ok) { memcpy(q, ref, r.n); wl[i] = r.n; } else { wl[i] = 0; wr[i] = r.cause & RC_SPACE ? -ENOSPC : -EINVAL; if ((r.cause & RC_SPACE) && r.cause != RC_SPACE) wr[i] = 1; }
  }
  if (usemap && n) { unsigned a = n > 4 ? 0 : sx_choose(n, "swap"), b = n > 4 ? n - 1 : sx_choose(n, "swap2"); size_t t = map[a]; map[a] = map[b]; map[b] = t; }
  memcpy(sv, in, is); long long tm = 5; int before = launches;
  try { D.decompress(in, is, useil ? il : nullptr, out, os, useol ? ol : nullptr, usemap ? map : nullptr, user ? rets : nullptr, prof ? &tm : nullptr); } catch (const cl::Error &) { ok = false; }
  if (ok) {
    sx_assert(launches == before + 1, "one launch"); if (prof) sx_assert(tm == (prof && sx_param("profile", 0) ? 42 : -1), "time");
    for (unsigned i = 0; i < n; i++) {
      if (user) { sx_observe((uint32_t)rets[i], "ret"); sx_assert(wr[i] == 1 ? rets[i] == -EINVAL || rets[i] == -ENOSPC : rets[i] == (wr[i] == 2 ? 0 : wr[i]), "result of each chunk"); }
      if (useol) { sx_observe(ol[i], "olen"); sx_assert(ol[i] == wl[i], "length of each chunk"); }
      if (wr[i] == 0) sx_assert(memcmp(out + SZ * i, wantb + SZ * i, wl[i]) == 0, "content of each chunk");
      if (useil) sx_assert(il[i] == 32, "lengths unchanged");
    }
    sx_reach("done");
  } else sx_reach("error");
  if (f != 2) sx_assert(memcmp(in, sv, is) == 0, "input unchanged");
  sx_assert(ok || faulted || n == 0, "fails only if OpenCL does");
  free(in); free(sv); if (f != 2) free(out); free(wantb); free(il); free(ol); free(map); free(rets); return ok;
}
static void run(int f, unsigned n, int c) {
  want = {SZ, strideOf(f), f, version()}; bool prof = sx_param("profile", 0); int before = live;
  unsigned opt = sx_param("opt", 99); if (opt == 99) opt = sx_choose(16, "optional"); bool done = false;
  try { lib842::CLHostDecompressor D(SZ, strideOf(f), FMT(f), sx_param("verbose", 1), prof); for (unsigned k = 0; k < sx_param("times", 1); k++) done |= once(D, f, n, c, opt & 1, opt & 2, opt & 4, opt & 8, true); }
  catch (const cl::Error &) { sx_reach("constructor error"); sx_assert(faulted, "the constructor fails only if OpenCL does"); }
  sx_assert(live == before, "every OpenCL object is released"); (void)done;
}
/* writes what another instance leaves in the cache */
static void warm(int f, size_t size, size_t stride) { conf w = want; want = {size, stride, f, version()}; lib842::CLHostDecompressor D(size, stride, FMT(f), false, false); want = w; }
extern "C" void sx_main(void) {
  unsigned mode = sx_param("mode", 0), f = sx_param("f", 0), n = sx_param("n", 2), c = sx_param("c", 1); sxfs_in.writesLeft = -1; machine(1, sx_param("devs", 1)); sxfs_in.openFails = false;
  
  if (mode == 5) { static const unsigned N[] = {255, 256, 257, 511, 512, 513}; n = N[sx_choose(6, "n")]; sx_leak_begin(); run(f, n, -1); sx_leak_check(); return; }
  if (mode == 0) { sx_leak_begin(); run(f, n == 9 ? sx_choose(4, "n") : n, (int)c); sx_leak_check(); return; }
  if (mode == 1) { if (sx_param("warm", 0)) warm(f, SZ, strideOf(f)); faultsLeft = 1; sx_leak_begin(); run(f, n, -1); sx_leak_check(); faultsLeft = 0; faulted = 0; run(f, n, -1); return; }
  if (mode == 2) {
    unsigned k = sx_choose(9, "cache"); unsigned off, len; int b = 0; sx_leak_begin();
    switch (k) {
    case 0: break;                                                                             /* none */
    case 1: warm(f, SZ, strideOf(f)); b = 1; break;                                            /* usable */
    case 2: warm(f, SZ * 2, strideOf(f)); break; case 3: warm(f, SZ, strideOf(f) * 2); break; case 4: warm(f == 0 ? 1 : 0, SZ, strideOf(f)); break;       /* other configurations */
    case 5: if (sx_choose(2, "part")) LIB842_CLDECOMPRESS_842DEFS_SOURCE = "DEFS2\n"; else LIB842_CLDECOMPRESS_KERNEL_SOURCE = "KERNEL2\n"; warm(f, SZ, strideOf(f)); LIB842_CLDECOMPRESS_842DEFS_SOURCE = "DEFS1\n"; LIB842_CLDECOMPRESS_KERNEL_SOURCE = "KERNEL1\n"; break;                  /* another library version */
    case 6: warm(f, SZ, strideOf(f)); machine(1, 3 - sx_param("devs", 1)); break;              /* other devices */
    case 7: warm(f, SZ, strideOf(f)); len = sx_choose((unsigned)sxfs_in.n, "cut"); sxfs_in.n = len; break;
    case 8: warm(f, SZ, strideOf(f)); off = sx_choose((unsigned)sxfs_in.n, "at"); len = sxfs_in.n - off; if (len > 8) len = 8; sx_sym(sxfs_in.d + off, len, "damage"); break;
    }
    unsigned wf = sx_choose(4, "write"); if (wf == 1) sxfs_in.writesLeft = 0; if (wf == 2) sxfs_in.writesLeft = 1 + (int)sx_choose(8, "writes"); if (wf == 3) { sxfs_in.openFails = true; }
    srcBuilds = binBuilds = 0; run(f, 2, -1); if (b && wf != 3) sx_assert(srcBuilds == 0 && binBuilds == 1, "a matching cache is used"); sx_reach("first");
    sxfs_in.writesLeft = -1; sxfs_in.openFails = false; srcBuilds = binBuilds = 0; run(f, 2, -1); if (wf == 0) sx_assert(srcBuilds == 0 && binBuilds == 1, "the cache written by the previous instance is used"); sx_leak_check(); sx_reach("second"); return;
  }
  if (mode == 3) {
    nplat = (int)sx_choose(3, "platforms"); ndev = 0; for (int i = 0; i < nplat; i++) { plats[i].n = (int)sx_choose(3, "devices"); for (int k = 0; k < plats[i].n; k++) { _cl_device_id &d = devs[ndev]; d.plat = i; d.gpu = (int)sx_choose(2, "gpu"); d.avail = (int)sx_choose(2, "available"); memcpy(d.name, "dev0", 5); d.name[3] = (char)('0' + ndev); plats[i].d[k] = &d; ndev++; } }
    _cl_device_id *w[4]; int nw = 0; for (int g = 1; g >= 0 && !nw; g--) for (int i = 0; i < nplat && !nw; i++) for (int k = 0; k < plats[i].n; k++) if (plats[i].d[k]->gpu == g && plats[i].d[k]->avail) w[nw++] = plats[i].d[k];
    want = {SZ, strideOf(f), (int)f, version()}; bool ok = true; sx_leak_begin(); int before = live;
    try { lib842::CLHostDecompressor D(SZ, strideOf(f), FMT(f), sx_choose(2, "verbose"), false); sx_assert(theContext && theContext->n == nw, "number of devices"); for (int i = 0; i < nw; i++) { bool h = false; for (int k = 0; k < nw; k++) h |= theContext->d[k] == w[i]; sx_assert(h, "all available devices of the first platform that has any: GPUs first, then CPUs"); } once(D, f, 2, -1, true, true, true, false, false); }
    catch (const cl::Error &x) { ok = false; if (nplat) sx_assert(x.err() == CL_DEVICE_NOT_FOUND, "no device"); }
    sx_assert(ok == (nw > 0), "works whenever there is an available device"); sx_assert(live == before, "every OpenCL object is released"); sx_leak_check(); sx_reach(ok ? "device" : "no device"); return;
  }
  if (mode == 4) { /* C interface */
    static const size_t L[] = {32, 99992, 99999, 100000, 65536, 200000, 0, 8}; unsigned li = (unsigned)sx_param("len", 99); if (li == 99) li = sx_choose(8, "length"); size_t il = L[li]; unsigned calls = sx_param("calls", 2); want = {65536, 0, 0, version()}; anyStride = true; unsigned wf = sx_choose(3, "write"); if (wf == 1) sxfs_in.writesLeft = (int)sx_choose(3, "writes"); if (wf == 2) sxfs_in.openFails = true;
    faultsLeft = sx_param("faults", 0); size_t cap = sx_choose(2, "capacity") ? 16 : 4096; uint8_t *in = (uint8_t *)malloc(il + !il), *out = (uint8_t *)malloc(cap); memset(in, 0, il); bool any = false; if (il >= 32) { stream1(in, 32, 3); if (sx_param("sym", 1) && sx_choose(2, "arbitrary")) { any = true; sx_sym(in, 16, "stream"); } }
    struct refres r = {}; ref_oplimit = any ? sx_param("nop", 1) : 0; uint8_t *ref = (uint8_t *)malloc(cap + 8); r = ref_decode(in, il, ref, cap, 0);
    for (unsigned k = 0; k < calls; k++) {
      size_t ol = cap; int ret = 1, fb = faulted; try { ret = cl842_decompress(in, il, out, &ol); } catch (...) { sx_assert(0, "no exception leaves the C interface"); }
      sx_observe((uint32_t)ret, "ret"); sx_assert(ret <= 0, "0 or a negative errno");
      if (ret == 0) { sx_assert(r.ok && ol == r.n && memcmp(out, ref, r.n) == 0, "decompressed data"); sx_reach("ok"); } else { sx_assert(!r.ok || faulted > fb, "fails only for an invalid stream or if OpenCL does"); sx_reach("failed"); }
    }
  }
}
