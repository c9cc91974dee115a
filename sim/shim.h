/* Force-included when the repository's extensions are compiled for the
   simulator: the C allocator and the release of the GIL go through simrt. */
#ifndef ARCTIC_SIM_SHIM_H
#define ARCTIC_SIM_SHIM_H
#include <stddef.h>
#include <stdlib.h>
#include <string.h>
#include <malloc.h>
void *sim_malloc(size_t n);
void *sim_calloc(size_t n, size_t m);
void *sim_realloc(void *p, size_t n);
void sim_free(void *p);
#define malloc sim_malloc
#define calloc sim_calloc
#define realloc sim_realloc
#define free sim_free
#define PyEval_SaveThread sim_PyEval_SaveThread
#define PyEval_RestoreThread sim_PyEval_RestoreThread
#endif
