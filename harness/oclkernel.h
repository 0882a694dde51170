// What OpenCL C offers, for compiling the kernels as C (P24).
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#define __kernel
#define kernel
#define __global
#define global
#define __local
#define local
#define __constant const
#define constant const
#define __private
#define private
typedef unsigned char uchar; typedef unsigned short ushort; typedef unsigned int uint; typedef unsigned long ulong;
size_t hs_work[12]; // group, local id, local size, number of groups
static size_t get_group_id(uint d) { return d < 3 ? hs_work[d] : 0; }
static size_t get_local_id(uint d) { return d < 3 ? hs_work[3 + d] : 0; }
static size_t get_local_size(uint d) { return d < 3 ? hs_work[6 + d] : 1; }
static size_t get_num_groups(uint d) { return d < 3 ? hs_work[9 + d] : 1; }
static size_t get_global_id(uint d) { return d < 3 ? hs_work[d] * hs_work[6 + d] + hs_work[3 + d] : 0; }
static size_t get_global_size(uint d) { return d < 3 ? hs_work[9 + d] * hs_work[6 + d] : 1; }
static size_t get_global_offset(uint d) { return 0; }
static uint get_work_dim() { return 1; }
#define CLK_LOCAL_MEM_FENCE 1
#define CLK_GLOBAL_MEM_FENCE 2
#define barrier(x) ((void)0)
#define mem_fence(x) ((void)0)
#define min(a, b) ((a) < (b) ? (a) : (b))
#define max(a, b) ((a) > (b) ? (a) : (b))
#define clamp(x, a, b) min(max(x, a), b)
#define read_mem_fence(x) ((void)0)
#define write_mem_fence(x) ((void)0)
#define mul24(a, b) ((a) * (b))
#define mad24(a, b, c) ((a) * (b) + (c))
#define select(a, b, c) ((c) ? (b) : (a))
#define convert_uchar(x) ((uchar)(x))
#define convert_ushort(x) ((ushort)(x))
#define convert_uint(x) ((uint)(x))
#define convert_ulong(x) ((ulong)(x))
#define convert_int(x) ((int)(x))
