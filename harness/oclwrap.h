// Forced into the OpenCL decoder (P24): its allocations are watched, its messages are swallowed.
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
void *hs_ocl_malloc(size_t n); void *hs_ocl_calloc(size_t a, size_t b); void *hs_ocl_realloc(void *p, size_t n); void hs_ocl_free(void *p); int hs_ocl_printf(const char *f, ...); int hs_ocl_puts(const char *f);
#define malloc hs_ocl_malloc
#define calloc hs_ocl_calloc
#define realloc hs_ocl_realloc
#define free hs_ocl_free
#define printf hs_ocl_printf
#define puts hs_ocl_puts
