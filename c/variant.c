/* Compiles one configuration of the library under test into one object with
 * private symbol names.  Configuration macros come from the command line:
 * V (variant suffix), VNAME, DETOOLS_CONFIG_*, HEATSHRINK_DYNAMIC_ALLOC. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "vt_alloc.h"

#include "rename.h"
#include "detools.c"
#include "heatshrink_decoder.h"
#include "api.h"

static int v_seq_init(void *s, vt_read_t r, vt_seek_t k, size_t n, vt_write_t w, void *a)
{ return detools_apply_patch_init((struct detools_apply_patch_t *)s, r, k, n, w, a); }
static int v_seq_dump(void *s, vt_state_write_t w)
{ return detools_apply_patch_dump((struct detools_apply_patch_t *)s, w); }
static int v_seq_restore(void *s, vt_state_read_t r)
{ return detools_apply_patch_restore((struct detools_apply_patch_t *)s, r); }
static size_t v_seq_to(void *s)
{ return detools_apply_patch_get_to_offset((struct detools_apply_patch_t *)s); }
static size_t v_seq_po(void *s)
{ return detools_apply_patch_get_patch_offset((struct detools_apply_patch_t *)s); }
static int v_seq_process(void *s, const uint8_t *p, size_t n)
{ return detools_apply_patch_process((struct detools_apply_patch_t *)s, p, n); }
static int v_seq_finalize(void *s)
{ return detools_apply_patch_finalize((struct detools_apply_patch_t *)s); }
static int v_inp_init(void *s, vt_mem_read_t r, vt_mem_write_t w, vt_mem_erase_t e,
                      vt_step_set_t ss, vt_step_get_t sg, size_t n, void *a)
{ return detools_apply_patch_in_place_init((struct detools_apply_patch_in_place_t *)s, r, w, e, ss, sg, n, a); }
static int v_inp_process(void *s, const uint8_t *p, size_t n)
{ return detools_apply_patch_in_place_process((struct detools_apply_patch_in_place_t *)s, p, n); }
static int v_inp_finalize(void *s)
{ return detools_apply_patch_in_place_finalize((struct detools_apply_patch_in_place_t *)s); }

static void *v_hsd_new(unsigned in_size, unsigned window, unsigned lookahead)
{
#if HEATSHRINK_DYNAMIC_ALLOC
    return heatshrink_decoder_alloc((uint16_t)in_size, (uint8_t)window, (uint8_t)lookahead);
#else
    (void)in_size; (void)window; (void)lookahead;
    heatshrink_decoder *h = (heatshrink_decoder *)malloc(sizeof(heatshrink_decoder));
    memset(h, 0xa5, sizeof(*h));
    heatshrink_decoder_reset(h);
    return h;
#endif
}
static void v_hsd_free(void *h)
{
#if HEATSHRINK_DYNAMIC_ALLOC
    heatshrink_decoder_free((heatshrink_decoder *)h);
#else
    free(h);
#endif
}
static int v_hsd_sink(void *h, uint8_t *p, size_t n, size_t *o) { return heatshrink_decoder_sink((heatshrink_decoder *)h, p, n, o); }
static int v_hsd_poll(void *h, uint8_t *p, size_t n, size_t *o) { return heatshrink_decoder_poll((heatshrink_decoder *)h, p, n, o); }
static int v_hsd_finish(void *h) { return heatshrink_decoder_finish((heatshrink_decoder *)h); }
static void v_hsd_reset(void *h) { heatshrink_decoder_reset((heatshrink_decoder *)h); }

const struct vt R(g_vt) = {
    VNAME,
    DETOOLS_CONFIG_COMPRESSION_NONE, DETOOLS_CONFIG_COMPRESSION_LZMA,
    DETOOLS_CONFIG_COMPRESSION_CRLE, DETOOLS_CONFIG_COMPRESSION_HEATSHRINK,
    HEATSHRINK_DYNAMIC_ALLOC, DETOOLS_CONFIG_FILE_IO,
    sizeof(struct detools_apply_patch_t), sizeof(struct detools_apply_patch_in_place_t),
    sizeof(heatshrink_decoder),
    v_seq_init, v_seq_dump, v_seq_restore, v_seq_to, v_seq_po, v_seq_process, v_seq_finalize,
    v_inp_init, v_inp_process, v_inp_finalize,
    detools_apply_patch_callbacks, detools_apply_patch_in_place_callbacks,
#if DETOOLS_CONFIG_FILE_IO == 1
    detools_apply_patch_filenames, detools_apply_patch_in_place_filenames,
#else
    NULL, NULL,
#endif
    detools_error_as_string,
    v_hsd_new, v_hsd_free, v_hsd_sink, v_hsd_poll, v_hsd_finish, v_hsd_reset
};
