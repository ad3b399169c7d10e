/* One entry per compiled configuration of the library under test. */
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef int (*vt_read_t)(void *, uint8_t *, size_t);
typedef int (*vt_write_t)(void *, const uint8_t *, size_t);
typedef int (*vt_seek_t)(void *, int);
typedef int (*vt_mem_read_t)(void *, void *, uintptr_t, size_t);
typedef int (*vt_mem_write_t)(void *, uintptr_t, void *, size_t);
typedef int (*vt_mem_erase_t)(void *, uintptr_t, size_t);
typedef int (*vt_state_read_t)(void *, void *, size_t);
typedef int (*vt_state_write_t)(void *, const void *, size_t);
typedef int (*vt_step_set_t)(void *, int);
typedef int (*vt_step_get_t)(void *, int *);

struct vt {
    const char *name;
    int has_none, has_lzma, has_crle, has_heatshrink, dynamic, has_file_io;
    size_t seq_size, inp_size, hsd_size;
    int (*seq_init)(void *, vt_read_t, vt_seek_t, size_t, vt_write_t, void *);
    int (*seq_dump)(void *, vt_state_write_t);
    int (*seq_restore)(void *, vt_state_read_t);
    size_t (*seq_to_offset)(void *);
    size_t (*seq_patch_offset)(void *);
    int (*seq_process)(void *, const uint8_t *, size_t);
    int (*seq_finalize)(void *);
    int (*inp_init)(void *, vt_mem_read_t, vt_mem_write_t, vt_mem_erase_t,
                    vt_step_set_t, vt_step_get_t, size_t, void *);
    int (*inp_process)(void *, const uint8_t *, size_t);
    int (*inp_finalize)(void *);
    int (*seq_callbacks)(vt_read_t, vt_seek_t, vt_read_t, size_t, vt_write_t, void *);
    int (*inp_callbacks)(vt_mem_read_t, vt_mem_write_t, vt_mem_erase_t,
                         vt_step_set_t, vt_step_get_t, vt_read_t, size_t, void *);
    int (*seq_filenames)(const char *, const char *, const char *);
    int (*inp_filenames)(const char *, const char *, vt_step_set_t, vt_step_get_t);
    const char *(*error_as_string)(int);
    /* heatshrink decoder; NULL when compiled out */
    void *(*hsd_new)(unsigned in_size, unsigned window, unsigned lookahead);
    void (*hsd_free)(void *);
    int (*hsd_sink)(void *, uint8_t *, size_t, size_t *);
    int (*hsd_poll)(void *, uint8_t *, size_t, size_t *);
    int (*hsd_finish)(void *);
    void (*hsd_reset)(void *);
};

extern const struct vt *const g_vts[];
extern const size_t g_nvts;

/* Allocation accounting of the library under test (alloc.c). */
extern long vt_alloc_peak, vt_alloc_live;       /* blocks allocated and not yet freed */
extern long vt_alloc_count;      /* allocations attempted since reset */
extern long vt_alloc_fail_at;    /* fail this allocation (0 based), -1 never */
extern long vt_alloc_bad;        /* frees of unknown pointers */
extern long vt_lzma_live;        /* lzma streams initialised and not ended */
extern long vt_alloc_fail_on;    /* and all after it */
void vt_alloc_reset(long fail_at);
#ifdef __cplusplus
}
#endif
