/* See vf_alloc.h.  At exit "VF_RAW <bytes> <blocks> <function>" goes to standard error for every function whose blocks were not freed. */
#define VF_ALLOC_IMPL
#include "vf_alloc.h"
#include <stdio.h>
#include <stdint.h>

typedef struct { void *p; size_t n; const char *where; } Ent;   /* p == NULL: never used, p == GONE: freed */
#define GONE ((void *) 1)
static Ent *tab;
static size_t cap, used, live;

static size_t slot(void *p) { return (size_t) (((uintptr_t) p >> 4) * 0x9E3779B97F4A7C15ull >> 20) & (cap - 1); }

static void put(void *p, size_t n, const char *where) {
    if (used * 2 >= cap) {
        Ent *old = tab;
        size_t oc = cap;
        cap = cap ? (live * 4 > cap ? cap * 2 : cap) : 4096;
        tab = calloc(cap, sizeof(Ent));
        used = live = 0;
        for (size_t i = 0; i < oc; i++)
            if (old[i].p && old[i].p != GONE) put(old[i].p, old[i].n, old[i].where);
        free(old);
    }
    size_t i = slot(p);
    while (tab[i].p && tab[i].p != GONE) i = (i + 1) & (cap - 1);
    if (!tab[i].p) used++;
    tab[i].p = p;
    tab[i].n = n;
    tab[i].where = where;
    live++;
}

static void drop(void *p) {
    if (!p || !cap) return;
    for (size_t i = slot(p); tab[i].p; i = (i + 1) & (cap - 1))
        if (tab[i].p == p) {
            tab[i].p = GONE;
            live--;
            return;
        }
}

void *vf_malloc(size_t n, const char *where) {
    void *p = malloc(n);
    if (p) put(p, n, where);
    return p;
}

void *vf_calloc(size_t a, size_t b, const char *where) {
    void *p = calloc(a, b);
    if (p) put(p, a * b, where);
    return p;
}

void *vf_realloc(void *p, size_t n, const char *where) {
    void *q = realloc(p, n);
    if (q || n == 0) drop(p);
    if (q) put(q, n, where);
    return q;
}

char *vf_strdup(const char *s, const char *where) {
    char *p = strdup(s);
    if (p) put(p, strlen(p) + 1, where);
    return p;
}

void vf_free(void *p) {
    drop(p);
    free(p);
}

__attribute__((destructor)) static void report(void) {
    for (size_t i = 0; i < cap; i++) {
        if (!tab[i].p || tab[i].p == GONE) continue;
        size_t n = 0, k = 0;
        const char *w = tab[i].where;
        for (size_t j = i; j < cap; j++)
            if (tab[j].p && tab[j].p != GONE && !strcmp(tab[j].where, w)) {
                n += tab[j].n;
                k++;
                tab[j].p = GONE;
            }
        fprintf(stderr, "VF_RAW %zu %zu %s\n", n, k, w);
    }
}
