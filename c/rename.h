/* Private symbol names for one configuration, V. */
#pragma once
#define VCAT2(a, b) a##_##b
#define VCAT(a, b) VCAT2(a, b)
#define R(x) VCAT(x, V)

#define detools_apply_patch_init R(detools_apply_patch_init)
#define detools_apply_patch_dump R(detools_apply_patch_dump)
#define detools_apply_patch_restore R(detools_apply_patch_restore)
#define detools_apply_patch_get_to_offset R(detools_apply_patch_get_to_offset)
#define detools_apply_patch_get_patch_offset R(detools_apply_patch_get_patch_offset)
#define detools_apply_patch_process R(detools_apply_patch_process)
#define detools_apply_patch_finalize R(detools_apply_patch_finalize)
#define detools_apply_patch_in_place_init R(detools_apply_patch_in_place_init)
#define detools_apply_patch_in_place_process R(detools_apply_patch_in_place_process)
#define detools_apply_patch_in_place_finalize R(detools_apply_patch_in_place_finalize)
#define detools_apply_patch_callbacks R(detools_apply_patch_callbacks)
#define detools_apply_patch_in_place_callbacks R(detools_apply_patch_in_place_callbacks)
#define detools_apply_patch_filenames R(detools_apply_patch_filenames)
#define detools_apply_patch_in_place_filenames R(detools_apply_patch_in_place_filenames)
#define detools_error_as_string R(detools_error_as_string)
#define heatshrink_decoder_alloc R(heatshrink_decoder_alloc)
#define heatshrink_decoder_free R(heatshrink_decoder_free)
#define heatshrink_decoder_reset R(heatshrink_decoder_reset)
#define heatshrink_decoder_sink R(heatshrink_decoder_sink)
#define heatshrink_decoder_poll R(heatshrink_decoder_poll)
#define heatshrink_decoder_finish R(heatshrink_decoder_finish)

