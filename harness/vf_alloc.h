/* Force-included into the interpreter's sources (not the command line's) in the balance variant: counts what they take straight from the C library. */
#ifndef VF_ALLOC_H
#define VF_ALLOC_H
#include <stdlib.h>
#include <string.h>
void *vf_malloc(size_t n, const char *where);
void *vf_calloc(size_t a, size_t b, const char *where);
void *vf_realloc(void *p, size_t n, const char *where);
char *vf_strdup(const char *s, const char *where);
void vf_free(void *p);
#ifndef VF_ALLOC_IMPL
#undef strdup
#define malloc(n) vf_malloc((n), __func__)
#define calloc(a, b) vf_calloc((a), (b), __func__)
#define realloc(p, n) vf_realloc((p), (n), __func__)
#define strdup(s) vf_strdup((s), __func__)
#define free(p) vf_free(p)
#endif
#endif
