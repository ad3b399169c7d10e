#ifndef VT_ALLOC_H
#define VT_ALLOC_H
#include <stdlib.h>
#include <string.h>
#include <lzma.h>
void *vt_malloc(size_t n);
void *vt_calloc(size_t n, size_t m);
void *vt_realloc(void *p, size_t n);
void vt_free(void *p);
lzma_ret vt_lzma_alone_decoder(lzma_stream *s, uint64_t lim);
void vt_lzma_end(lzma_stream *s);
#define malloc vt_malloc
#define calloc vt_calloc
#define realloc vt_realloc
#define free vt_free
#define lzma_alone_decoder vt_lzma_alone_decoder
#define lzma_end vt_lzma_end
#endif
