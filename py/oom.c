/* Linked with --wrap into the extension modules that are checked: counts what
   they allocate and refuses it when told to. */
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
void __real_free(void *);
long vt_oom_at = -1, vt_oom_count, vt_oom_seen, vt_oom_live;

static int refuse(void)
{
    long n = vt_oom_seen++;
    if (vt_oom_at < 0 || n < vt_oom_at || n >= vt_oom_at + vt_oom_count) return 0;
    if (n > vt_oom_at + 1000000) {
        fputs("asks for memory for ever\n", stderr);
        abort();
    }
    return 1;
}

static void *given(void *p)
{
    vt_oom_live += p != NULL;
    return p;
}

void *__wrap_malloc(size_t n) { return refuse() ? NULL : given(__real_malloc(n)); }
void *__wrap_calloc(size_t n, size_t m) { return refuse() ? NULL : given(__real_calloc(n, m)); }
void *__wrap_realloc(void *p, size_t n)
{
    void *q;
    if (refuse()) return NULL;
    q = __real_realloc(p, n);
    vt_oom_live += (q != NULL) - (p != NULL && (q != NULL || n == 0));
    return q;
}
void __wrap_free(void *p) { vt_oom_live -= p != NULL; __real_free(p); }

#ifdef VT_FILES
/* What fails of the temporary file: 1 making it, 2 going to its start, 3
   reading it, in part. */
int vt_file_fail;
FILE *__real_tmpfile(void);
int __real_fseek(FILE *, long, int);
size_t __real_fread(void *, size_t, size_t, FILE *);
FILE *__wrap_tmpfile(void) { return vt_file_fail == 1 ? NULL : __real_tmpfile(); }
FILE *__real_tmpfile64(void);
FILE *__wrap_tmpfile64(void) { return vt_file_fail == 1 ? NULL : __real_tmpfile64(); }
int __wrap_fseek(FILE *f, long at, int whence) { return vt_file_fail == 2 ? -1 : __real_fseek(f, at, whence); }
size_t __wrap_fread(void *p, size_t size, size_t n, FILE *f)
{
    return __real_fread(p, size, vt_file_fail == 3 ? n / 2 : n, f);
}
#endif
