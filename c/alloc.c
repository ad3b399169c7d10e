/* Accounting allocator behind the library under test. */
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <lzma.h>
#include "api.h"

long vt_alloc_peak, vt_alloc_live, vt_alloc_count, vt_alloc_fail_at = -1, vt_alloc_bad, vt_lzma_live, vt_alloc_fail_on;

static long g_bytes;

void vt_alloc_reset(long fail_at)
{
    vt_alloc_peak = g_bytes = vt_alloc_live = vt_alloc_count = vt_alloc_bad = vt_lzma_live = 0;
    vt_alloc_fail_at = fail_at;
    vt_alloc_fail_on = 0;
}

/* Plain malloc blocks, so that the sanitizer's red zones guard them. */
static struct known { void *p; size_t size; } *g_known;
static size_t g_cap;

static void remember(void *p, size_t n)
{
    size_t i;
    g_bytes += (long)n;
    if (g_bytes > vt_alloc_peak) vt_alloc_peak = g_bytes;
    for (i = 0; i < g_cap; i++)
        if (!g_known[i].p) { g_known[i].p = p; g_known[i].size = n; return; }
    g_known = (struct known *)realloc(g_known, (g_cap + 64) * sizeof(*g_known));
    memset(g_known + g_cap, 0, 64 * sizeof(*g_known));
    g_known[g_cap].p = p;
    g_known[g_cap].size = n;
    g_cap += 64;
}

static int forget(void *p)
{
    size_t i;
    for (i = 0; i < g_cap; i++)
        if (g_known[i].p == p) { g_known[i].p = NULL; g_bytes -= (long)g_known[i].size; return 1; }
    return 0;
}

static int refuse(void)
{
    long k = vt_alloc_count++;
    return k == vt_alloc_fail_at || (vt_alloc_fail_on && k > vt_alloc_fail_at);
}

void *vt_malloc(size_t n)
{
    void *p;
    if (refuse()) return NULL;
    p = malloc(n ? n : 1);
    if (p) { memset(p, 0xdb, n); vt_alloc_live++; remember(p, n); }
    return p;
}

void *vt_calloc(size_t n, size_t m)
{
    void *p;
    if (refuse()) return NULL;
    p = calloc(n ? n : 1, m ? m : 1);
    if (p) { vt_alloc_live++; remember(p, n * m); }
    return p;
}

void *vt_realloc(void *p, size_t n)
{
    void *q;
    if (refuse()) return NULL;
    if (p && !forget(p)) vt_alloc_bad++;
    q = realloc(p, n ? n : 1);
    if (q) { if (!p) vt_alloc_live++; remember(q, n); }
    return q;
}

void vt_free(void *p)
{
    if (!p) return;
    if (!forget(p)) { vt_alloc_bad++; free(p); return; }
    vt_alloc_live--;
    free(p);
}

lzma_ret vt_lzma_alone_decoder(lzma_stream *s, uint64_t lim)
{
    lzma_ret r;
    if (refuse()) return LZMA_MEM_ERROR;
    r = lzma_alone_decoder(s, lim);
    if (r == LZMA_OK) vt_lzma_live++;
    return r;
}

void vt_lzma_end(lzma_stream *s)
{
    if (s->internal) vt_lzma_live--;
    lzma_end(s);
}
