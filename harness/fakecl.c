// A stand-in for OpenCL (P24): one device that runs kernels on the CPU. Device and host allocations end at inaccessible pages, the queue does its work as late as
// it may, work groups run in any order, any call can be made to fail, and what is taken and given back is counted.
#include <dlfcn.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#define CL_USE_DEPRECATED_OPENCL_1_0_APIS
#define CL_USE_DEPRECATED_OPENCL_1_1_APIS
#define CL_USE_DEPRECATED_OPENCL_1_2_APIS
#define CL_USE_DEPRECATED_OPENCL_2_0_APIS
#include "CL/cl.h"
enum { K_PLATFORM = 1, K_DEVICE, K_CONTEXT, K_QUEUE, K_MEM, K_PROGRAM, K_KERNEL };
enum { MAXOBJ = 4096, MAXHOST = 4096, MAXPEND = 256, MAXARG = 16 };
typedef struct { size_t size; uint64_t v; } arg;
typedef struct { int kind, refs; uint8_t *p; size_t size, map; uint8_t *base; void *fn; arg args[MAXARG]; int built; } obj;
typedef struct { int isKernel; obj *o; size_t off, size; const void *src; arg args[MAXARG]; size_t groups[3], local[3]; } pend;
static obj O[MAXOBJ]; static int nO; static pend Q[MAXPEND]; static int nQ;
static struct { uint8_t *p, *base; size_t map, size; int live; } Hs[MAXHOST]; static int nH;
static long calls, failAt; static int fired; static char misuse[200]; static uint64_t rs; static void *hk;
static void bad(const char *f, const char *what) { if (!misuse[0]) snprintf(misuse, sizeof misuse, "%s: %s", f, what); }
static uint8_t *guarded(size_t n, size_t *pMap, uint8_t **pBase, uint8_t fill)
{
  size_t m = (n + 4095) / 4096 * 4096; uint8_t *b = (uint8_t *)mmap(NULL, m + 8192, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (b == MAP_FAILED) return NULL;
  if (m) mprotect(b + 4096, m, PROT_READ | PROT_WRITE);
  memset(b + 4096, fill, m); *pMap = m + 8192; *pBase = b; return b + 4096 + m - n;
}
static int fail() { if (++calls == failAt) { fired = 1; return 1; } return 0; }
static void run();
// ---- for the harness
long hs_ocl_calls() { return calls; } int hs_ocl_fired() { return fired; } const char *hs_ocl_misuse() { return misuse[0] ? misuse : NULL; }
void hs_ocl_fail(long n) { calls = 0; failAt = n; fired = 0; }
int hs_ocl_live(char *what, size_t n) // what was not given back
{
  static const char *N[] = { "", "platform", "device", "context", "command queue", "buffer", "program", "kernel" }; int r = 0;
  for (int i = 0; i < nO; i++) if (O[i].kind > K_DEVICE && O[i].refs > 0) { if (!r++) snprintf(what, n, "%s", N[O[i].kind]); }
  for (int i = 0; i < nH; i++) if (Hs[i].live) { if (!r++) snprintf(what, n, "allocation of %zu bytes", Hs[i].size); }
  return r;
}
void hs_ocl_reset(uint64_t seed)
{
  for (int i = 0; i < nO; i++) if (O[i].base) munmap(O[i].base, O[i].map);
  for (int i = 0; i < nH; i++) munmap(Hs[i].base, Hs[i].map);
  memset(O, 0, sizeof(obj) * (nO + 1)); nO = nQ = nH = 0; misuse[0] = 0; rs = seed * 2 + 1; hs_ocl_fail(0);
  if (!hk && getenv("HS_OCLK")) hk = dlopen(getenv("HS_OCLK"), RTLD_NOW | RTLD_LOCAL);
}
// ---- host allocations and messages of the code under test (see oclwrap.h)
void *hs_ocl_malloc(size_t n)
{
  if (fail()) return NULL;
  if (nH >= MAXHOST || n > (size_t)1 << 30) return NULL;
  Hs[nH].p = guarded(n, &Hs[nH].map, &Hs[nH].base, 0xE5); Hs[nH].size = n; Hs[nH].live = 1; return Hs[nH++].p;
}
void *hs_ocl_calloc(size_t a, size_t b) { void *p = hs_ocl_malloc(a * b); if (p) memset(p, 0, a * b); return p; }
void hs_ocl_free(void *p)
{
  if (!p) return;
  for (int i = nH; i-- > 0;) if (Hs[i].p == p) { if (!Hs[i].live) bad("free", "freed twice"); Hs[i].live = 0; run(); mprotect(Hs[i].base, Hs[i].map, PROT_NONE); return; }
  bad("free", "freed twice or never allocated");
}
void *hs_ocl_realloc(void *p, size_t n)
{
  if (!p) return hs_ocl_malloc(n);
  size_t old = 0; for (int i = nH; i-- > 0;) if (Hs[i].p == p && Hs[i].live) old = Hs[i].size;
  void *q = hs_ocl_malloc(n); if (!q) return NULL; memcpy(q, p, old < n ? old : n); hs_ocl_free(p); return q;
}
int hs_ocl_printf(const char *f, ...) { (void)f; return 1; }
int hs_ocl_puts(const char *f) { (void)f; return 1; }
// ---- objects
static obj *new_(int kind) { if (nO >= MAXOBJ - 1) return NULL; obj *o = &O[nO++]; memset(o, 0, sizeof *o); o->kind = kind; o->refs = 1; return o; }
static obj *get(const void *h, int kind, const char *f)
{
  obj *o = (obj *)h;
  if (o < O || o >= O + nO || ((uint8_t *)o - (uint8_t *)O) % sizeof(obj) || o->kind != kind) { bad(f, "not a valid object"); return NULL; }
  if (o->refs <= 0) { bad(f, "the object was released before"); return NULL; }
  return o;
}
static cl_int rel(void *h, int kind, const char *f) { obj *o = get(h, kind, f); if (!o) return CL_INVALID_VALUE; o->refs--; return CL_SUCCESS; }
static cl_int ret(void *h, int kind, const char *f) { obj *o = get(h, kind, f); if (!o) return CL_INVALID_VALUE; o->refs++; return CL_SUCCESS; }
static obj thePlatform = { K_PLATFORM, 1 }, theDevice = { K_DEVICE, 1 };
#define SET(e) do { if (pRet) *pRet = (e); } while (0)
cl_int clGetPlatformIDs(cl_uint n, cl_platform_id *p, cl_uint *pn) { if (fail()) return CL_OUT_OF_HOST_MEMORY; if ((n == 0) != (p == NULL) || (!p && !pn)) return CL_INVALID_VALUE; if (p) p[0] = (cl_platform_id)&thePlatform; if (pn) *pn = 1; return CL_SUCCESS; }
cl_int clGetDeviceIDs(cl_platform_id pl, cl_device_type t, cl_uint n, cl_device_id *p, cl_uint *pn) { if (fail()) return CL_DEVICE_NOT_FOUND; if ((void *)pl != &thePlatform && pl) { bad("clGetDeviceIDs", "not a valid platform"); return CL_INVALID_PLATFORM; } if (p && !n) return CL_INVALID_VALUE; if (p) p[0] = (cl_device_id)&theDevice; if (pn) *pn = 1; return CL_SUCCESS; }
cl_context clCreateContext(const cl_context_properties *pp, cl_uint n, const cl_device_id *pd, void (CL_CALLBACK *cb)(const char *, const void *, size_t, void *), void *u, cl_int *pRet) { if (fail()) { SET(CL_OUT_OF_RESOURCES); return NULL; } if (n != 1 || !pd || (void *)*pd != &theDevice) { bad("clCreateContext", "not a valid device"); SET(CL_INVALID_DEVICE); return NULL; } SET(CL_SUCCESS); return (cl_context)new_(K_CONTEXT); }
cl_command_queue clCreateCommandQueue(cl_context c, cl_device_id d, cl_command_queue_properties pr, cl_int *pRet) { if (fail()) { SET(CL_OUT_OF_RESOURCES); return NULL; } if (!get(c, K_CONTEXT, "clCreateCommandQueue") || (void *)d != &theDevice) { SET(CL_INVALID_CONTEXT); return NULL; } SET(CL_SUCCESS); return (cl_command_queue)new_(K_QUEUE); }
cl_mem clCreateBuffer(cl_context c, cl_mem_flags fl, size_t n, void *host, cl_int *pRet)
{
  if (fail()) { SET(CL_MEM_OBJECT_ALLOCATION_FAILURE); return NULL; }
  if (!get(c, K_CONTEXT, "clCreateBuffer")) { SET(CL_INVALID_CONTEXT); return NULL; }
  if (n == 0 || n > (size_t)1 << 30) { SET(CL_INVALID_BUFFER_SIZE); return NULL; }
  obj *o = new_(K_MEM); o->size = n; o->p = guarded(n, &o->map, &o->base, (uint8_t)(0x5A + nO)); SET(CL_SUCCESS); return (cl_mem)o;
}
cl_program clCreateProgramWithSource(cl_context c, cl_uint n, const char **s, const size_t *l, cl_int *pRet)
{
  if (fail()) { SET(CL_OUT_OF_HOST_MEMORY); return NULL; }
  if (!get(c, K_CONTEXT, "clCreateProgramWithSource")) { SET(CL_INVALID_CONTEXT); return NULL; }
  if (getenv("HS_OCL_DUMP")) { FILE *f = fopen(getenv("HS_OCL_DUMP"), "w"); for (cl_uint i = 0; i < n; i++) fwrite(s[i], 1, l && l[i] ? l[i] : strlen(s[i]), f); fclose(f); }
  SET(CL_SUCCESS); return (cl_program)new_(K_PROGRAM);
}
cl_int clBuildProgram(cl_program p, cl_uint n, const cl_device_id *d, const char *o, void (CL_CALLBACK *cb)(cl_program, void *), void *u) { if (fail()) return rs & 2 ? CL_BUILD_PROGRAM_FAILURE : CL_OUT_OF_HOST_MEMORY; obj *q = get(p, K_PROGRAM, "clBuildProgram"); if (!q) return CL_INVALID_PROGRAM; if (!hk || dlsym(hk, "hs_kernel_broken")) return CL_BUILD_PROGRAM_FAILURE; q->built = 1; return CL_SUCCESS; }
cl_int clGetProgramBuildInfo(cl_program p, cl_device_id d, cl_program_build_info i, size_t n, void *v, size_t *pn) { if (v && n) memset(v, 0, n); if (pn) *pn = 1; return CL_SUCCESS; }
cl_kernel clCreateKernel(cl_program p, const char *name, cl_int *pRet)
{
  if (fail()) { SET(CL_OUT_OF_RESOURCES); return NULL; }
  obj *q = get(p, K_PROGRAM, "clCreateKernel"); if (!q) { SET(CL_INVALID_PROGRAM); return NULL; } if (!q->built) { SET(CL_INVALID_PROGRAM_EXECUTABLE); return NULL; }
  void *f = dlsym(hk, name); if (!f) { SET(CL_INVALID_KERNEL_NAME); return NULL; }
  obj *o = new_(K_KERNEL); o->fn = f; SET(CL_SUCCESS); return (cl_kernel)o;
}
cl_int clSetKernelArg(cl_kernel k, cl_uint i, size_t n, const void *v)
{
  if (fail()) return CL_OUT_OF_RESOURCES;
  obj *o = get(k, K_KERNEL, "clSetKernelArg"); if (!o) return CL_INVALID_KERNEL; if (i >= MAXARG) return CL_INVALID_ARG_INDEX; if (n > 8 || !v) return CL_INVALID_ARG_SIZE;
  o->args[i].size = n; o->args[i].v = 0; memcpy(&o->args[i].v, v, n); return CL_SUCCESS;
}
static void add(pend p) { if (nQ == MAXPEND) run(); Q[nQ++] = p; }
cl_int clEnqueueWriteBuffer(cl_command_queue q, cl_mem m, cl_bool block, size_t off, size_t n, const void *src, cl_uint ne, const cl_event *we, cl_event *ev)
{
  if (fail()) { run(); return CL_OUT_OF_RESOURCES; }
  obj *o = get(m, K_MEM, "clEnqueueWriteBuffer"); if (!get(q, K_QUEUE, "clEnqueueWriteBuffer") || !o) return CL_INVALID_MEM_OBJECT;
  if (!src || !n || off > o->size || n > o->size - off) return CL_INVALID_VALUE;
  pend p; memset(&p, 0, sizeof p); p.o = o; p.off = off; p.size = n; p.src = src; add(p); if (block) run(); return CL_SUCCESS;
}
cl_int clEnqueueNDRangeKernel(cl_command_queue q, cl_kernel k, cl_uint dim, const size_t *off, const size_t *g, const size_t *l, cl_uint ne, const cl_event *we, cl_event *ev)
{
  if (fail()) { run(); return CL_OUT_OF_RESOURCES; }
  obj *o = get(k, K_KERNEL, "clEnqueueNDRangeKernel"); if (!get(q, K_QUEUE, "clEnqueueNDRangeKernel") || !o) return CL_INVALID_KERNEL;
  if (dim < 1 || dim > 3) return CL_INVALID_WORK_DIMENSION;
  pend p; memset(&p, 0, sizeof p); p.isKernel = 1; p.o = o; memcpy(p.args, o->args, sizeof p.args);
  for (cl_uint i = 0; i < 3; i++) { size_t gs = i < dim ? g[i] : 1, ls = i < dim && l ? l[i] : 1; if (!gs || !ls || gs % ls) return CL_INVALID_WORK_GROUP_SIZE; p.groups[i] = gs / ls; p.local[i] = ls; }
  for (int i = 0; i < MAXARG; i++) if (p.args[i].size == sizeof(cl_mem)) for (int j = 0; j < nO; j++) if ((void *)p.args[i].v == &O[j]) { obj *m = get(&O[j], K_MEM, "clEnqueueNDRangeKernel"); if (!m) return CL_INVALID_KERNEL_ARGS; p.args[i].v = (uint64_t)m->p; break; }
  add(p); return CL_SUCCESS;
}
cl_int clEnqueueReadBuffer(cl_command_queue q, cl_mem m, cl_bool block, size_t off, size_t n, void *dst, cl_uint ne, const cl_event *we, cl_event *ev)
{
  if (fail()) { run(); return CL_OUT_OF_RESOURCES; }
  obj *o = get(m, K_MEM, "clEnqueueReadBuffer"); if (!get(q, K_QUEUE, "clEnqueueReadBuffer") || !o) return CL_INVALID_MEM_OBJECT;
  if (!dst || !n || off > o->size || n > o->size - off) return CL_INVALID_VALUE;
  if (!block) { pend p; memset(&p, 0, sizeof p); p.isKernel = 2; p.o = o; p.off = off; p.size = n; p.src = dst; add(p); return CL_SUCCESS; }
  run(); memcpy(dst, o->p + off, n); return CL_SUCCESS;
}
cl_int clFinish(cl_command_queue q) { int f = fail(); if (!get(q, K_QUEUE, "clFinish")) return CL_INVALID_COMMAND_QUEUE; run(); return f ? CL_OUT_OF_RESOURCES : CL_SUCCESS; }
cl_int clFlush(cl_command_queue q) { int f = fail(); if (!get(q, K_QUEUE, "clFlush")) return CL_INVALID_COMMAND_QUEUE; return f ? CL_OUT_OF_RESOURCES : CL_SUCCESS; }
static void run()
{
  int n = nQ; nQ = 0;
  for (int i = 0; i < n; i++)
  {
    pend *p = &Q[i];
    if (p->isKernel == 0) { memcpy(p->o->p + p->off, p->src, p->size); continue; }
    if (p->isKernel == 2) { memcpy((void *)p->src, p->o->p + p->off, p->size); continue; }
    size_t *w = (size_t *)dlsym(hk, "hs_work"); if (!w) continue;
    const size_t groups = p->groups[0] * p->groups[1] * p->groups[2]; size_t step = 1, at = 0; rs = rs * 6364136223846793005ull + 1442695040888963407ull;
    if (rs >> 40 & 1) { step = (size_t)(rs >> 44) % groups | 1; for (;; step++) { size_t a = step, b = groups; while (b) { size_t t = a % b; a = b; b = t; } if (a == 1) break; } at = (size_t)(rs >> 33) % groups; }
    for (size_t k = 0; k < groups; k++, at = (at + step) % groups)
    {
      w[0] = at % p->groups[0]; w[1] = at / p->groups[0] % p->groups[1]; w[2] = at / p->groups[0] / p->groups[1];
      for (int d = 0; d < 3; d++) { w[6 + d] = p->local[d]; w[9 + d] = p->groups[d]; }
      for (w[5] = 0; w[5] < p->local[2]; w[5]++) for (w[4] = 0; w[4] < p->local[1]; w[4]++) for (w[3] = 0; w[3] < p->local[0]; w[3]++)
      {
        arg *a = p->args;
        ((void (*)(uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t))p->o->fn)(a[0].v, a[1].v, a[2].v, a[3].v, a[4].v, a[5].v, a[6].v, a[7].v, a[8].v, a[9].v, a[10].v, a[11].v);
      }
    }
  }
}
cl_int clReleaseKernel(cl_kernel h) { return rel(h, K_KERNEL, "clReleaseKernel"); } cl_int clReleaseProgram(cl_program h) { return rel(h, K_PROGRAM, "clReleaseProgram"); } cl_int clReleaseMemObject(cl_mem h) { run(); return rel(h, K_MEM, "clReleaseMemObject"); }
cl_int clReleaseCommandQueue(cl_command_queue h) { run(); return rel(h, K_QUEUE, "clReleaseCommandQueue"); } cl_int clReleaseContext(cl_context h) { return rel(h, K_CONTEXT, "clReleaseContext"); } cl_int clReleaseDevice(cl_device_id h) { return CL_SUCCESS; } cl_int clReleaseEvent(cl_event h) { return CL_SUCCESS; } cl_int clWaitForEvents(cl_uint n, const cl_event *e) { run(); return CL_SUCCESS; }
cl_int clRetainKernel(cl_kernel h) { return ret(h, K_KERNEL, "clRetainKernel"); } cl_int clRetainMemObject(cl_mem h) { return ret(h, K_MEM, "clRetainMemObject"); } cl_int clRetainContext(cl_context h) { return ret(h, K_CONTEXT, "clRetainContext"); } cl_int clRetainCommandQueue(cl_command_queue h) { return ret(h, K_QUEUE, "clRetainCommandQueue"); } cl_int clRetainProgram(cl_program h) { return ret(h, K_PROGRAM, "clRetainProgram"); }
