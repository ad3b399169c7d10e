// Generators of images, patches and chunkings, and simulated devices.
#pragma once
#include "engine.hpp"
#include "api.h"
#include <lzma.h>

enum { COMP_NONE = 0, COMP_LZMA = 1, COMP_CRLE = 2, COMP_HEATSHRINK = 4 };
enum { TYPE_SEQ = 0, TYPE_INPLACE = 1 };

const char *comp_name(int c);

// ---- data -------------------------------------------------------------
Bytes gen_data(Src &src, size_t size);

// ---- encoders (written from the format description, not from the code) --
void put_size(Bytes &out, long long v);             // signed size
void put_usize(Bytes &out, u64 v);                  // CRLE size
struct EncInfo { int window = 8, lookahead = 7; std::string text; };
Bytes crle_encode(Src &src, const Bytes &in);
Bytes heatshrink_encode(Src &src, const Bytes &in, int window, int lookahead, bool header);
Bytes lzma_encode(Src &src, const Bytes &in);
// Compress with a randomly chosen encoding of the given compression.
Bytes compress(Src &src, int comp, const Bytes &in, int window, int lookahead);

// ---- sequential patches -------------------------------------------------
struct SeqPatch {
    Bytes from, to, header, payload, patch;
    int comp = 0;
    int nops = 0;
    bool diff_used = false, extra_used = false, adj_used = false;
    std::vector<u64> op_ends;      // payload offsets of operation boundaries
    std::string text() const;
};
SeqPatch gen_seq(Src &src, int comp, size_t max_size, int window = 8, int lookahead = 7);

// ---- in-place patches ---------------------------------------------------
struct InPatch {
    Bytes from, to, header, payload, patch;
    int comp = 0;
    size_t memory = 0, segment = 0, shift = 0;
    int nops = 0;
    bool diff_used = false;
    std::string text() const;
};
InPatch gen_in_many(Src &src, int comp, int window = 8, int lookahead = 7);
InPatch gen_in(Src &src, int comp, size_t max_memory, int window = 8, int lookahead = 7,
               bool allow_zero_shift = true);

// ---- chunking -----------------------------------------------------------
// Sizes of successive process() calls.  Zeros are possible.
std::vector<size_t> gen_chunks(Src &src, size_t total, bool allow_empty = true);

// ---- devices --------------------------------------------------------------
struct SeqDev {
    const Bytes *from = nullptr;
    long long pos = 0;
    Bytes to;
    size_t to_limit = (size_t)-1;       // more than this is a violation
    const Bytes *patch = nullptr;
    size_t patch_pos = 0;
    size_t patch_piece = 0;          // the largest piece of the patch asked for
    u64 calls = 0;
    std::string *kinds = nullptr;       // which callback each call was to
    long long fail_call = -1;           // callback call to fail
    int fail_code = -1;
    bool failed = false;                // the fault was injected
    u64 writes_after_fail = 0;
    u64 reads = 0, seeks = 0, writes = 0;
    Bytes state;                        // dump / restore store
    size_t state_pos = 0;
    bool strict = true;                 // reads outside from are violations
    u64 oob = 0;
    bool file_like = false;             // seeks and reads as in a file
    u64 magic = 0x5e9d3a;
};
int seq_from_read(void *arg, uint8_t *buf, size_t size);
int seq_from_seek(void *arg, int offset);
int seq_to_write(void *arg, const uint8_t *buf, size_t size);
int seq_patch_read(void *arg, uint8_t *buf, size_t size);
int seq_state_write(void *arg, const void *buf, size_t size);
int seq_state_read(void *arg, void *buf, size_t size);

struct MemDev {
    Bytes mem;
    std::vector<u8> erased;             // 1: erased and not written since
    bool flash = true;                  // check erase before write
    bool strict = true;                 // any access outside mem is a violation
    size_t limit = 0;                   // accessible size (== mem.size())
    int step = 0;                       // stored step
    bool committed = false;             // step_set(0) took effect
    u64 steps_set = 0;
    u64 ops = 0;                        // operations (all callbacks but step_get)
    long long crash_op = -1;            // power is lost during this op
    int crash_mode = 0;                 // 0 before, 1 partial, 2 after effect
    u64 crash_seed = 0;
    bool crashed = false;
    long long fail_op = -1;             // this callback call (any) fails
    int fail_code = -1;
    bool failed = false;
    u64 calls = 0;
    std::string *kinds = nullptr;       // which callback each call was to
    u64 after_fail_mutations = 0;
    u64 oob = 0;                        // accesses outside (non strict mode)
    bool file_like = false;             // grows, and erase does nothing
    size_t segment = 0;                 // erase granularity, for messages
    const Bytes *patch = nullptr;
    size_t patch_pos = 0;
    u64 reads = 0, writes = 0, erases = 0;
    u64 magic = 0xfa51d3;
};
int mem_read(void *arg, void *dst, uintptr_t src, size_t size);
int mem_write(void *arg, uintptr_t dst, void *src, size_t size);
int mem_erase(void *arg, uintptr_t addr, size_t size);
int mem_step_set(void *arg, int step);
int mem_step_get(void *arg, int *step);
int mem_patch_read(void *arg, uint8_t *buf, size_t size);

// ---- reference decoder ------------------------------------------------------
struct RefResult {
    bool ok = false;
    bool heavy = false;         // takes more steps than are worth it
    bool clean = true;          // in-place: never reads what it has overwritten
    std::string why;
    Bytes to;
    bool header_ok = false;
    u64 header_to = 0;
    u64 memory = 0, segment = 0, shift = 0, from = 0;
    int comp = -1, type = -1;
};
RefResult ref_apply_seq(const Bytes &patch, const Bytes &from, size_t max_out);
// mem is the initial memory; result holds the final memory prefix.
RefResult ref_apply_in(const Bytes &patch, const Bytes &mem, size_t max_out);

Bytes ref_heatshrink(const Bytes &bits, int window, int lookahead, size_t max_out);

// Struct storage with a chosen fill byte.
struct Obj {
    Bytes raw;
    u8 *p;
    Obj(size_t n, u8 fill) : raw(n + 64, fill)
    {
        size_t a = (size_t)raw.data();
        p = raw.data() + ((16 - (a & 15)) & 15);
        // Exact extent for the sanitizer is kept by a heap block of its own.
        heap = (u8 *)malloc(n);
        memset(heap, fill, n);
        p = heap;
    }
    ~Obj() { free(heap); }
    Obj(const Obj &) = delete;
    u8 *heap;
};
u8 gen_fill(Src &src);
const struct vt *vt_named(const char *name);
