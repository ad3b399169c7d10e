// Properties of the C library.
#include <errno.h>
#include <pthread.h>
#include <map>
#include "gen.hpp"
#include <sys/stat.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>

extern const char *g_cli_path;

static size_t pick_max(Src &src, size_t big = 70000, size_t huge = 1500000)
{
    u64 k = src.below(400);
    if (k >= 399) return huge;
    if (k >= 380) return big;
    if (k >= 250) return 6000;
    return 600;
}

static const struct vt *base() { static const struct vt *v = vt_named("static"); return v; }
static const struct vt *dyn() { static const struct vt *v = vt_named("dynamic"); return v; }

static int pick_comp(Src &src)
{
    static const int c[] = {COMP_NONE, COMP_CRLE, COMP_HEATSHRINK, COMP_LZMA};
    return c[src.below(4)];
}

struct Cfg { const struct vt *vt; int comp; int window = 8, lookahead = 7; };

static Cfg pick_cfg(Src &src)
{
    Cfg c;
    c.comp = pick_comp(src);
    c.vt = base();
    if (src.chance(1, 3)) {
        c.vt = dyn();
        if (c.comp == COMP_HEATSHRINK) {
            c.window = (int)src.range(4, 15);
            c.lookahead = (int)src.range(3, (u64)c.window - 1);
        }
    }
    return c;
}

static std::string chunk_text(const std::vector<size_t> &c)
{
    std::string s = strf("%zu chunks:", c.size());
    for (size_t i = 0; i < c.size() && i < 10; i++) s += strf(" %zu", c[i]);
    if (c.size() > 10) s += " ..";
    return s;
}

static void check_code(const struct vt *vt, int res, const char *where)
{
    if (res >= 0) return;
    static const struct vt *told;
    if (told != vt) {
        // What is printed tells the codes apart.
        std::map<std::string, int> seen;
        for (int code = 1; code <= 27; code++) {
            const char *s = vt->error_as_string(-code), *t = vt->error_as_string(code);
            CHECK(s && *s && t && strcmp(s, t) == 0 && strcmp(s, "Unknown error.") != 0, "code %d means '%s', %d means '%s'",
                  -code, s ? s : "", code, t ? t : "");
            auto i = seen.emplace(s, code);
            CHECK(i.second, "the codes %d and %d are both '%s'", -i.first->second, -code, s);
        }
        told = vt;
    }
    const char *s = vt->error_as_string(res);
    CHECK(s && *s && strcmp(s, "Unknown error.") != 0, "%s returned the undocumented code %d", where, res);
}

// Sizes and offsets that need more than 16 bits are rare, as they take long.
static size_t rarely(Src &src, size_t usual, size_t large)
{
    return src.below(150) == 149 ? large : usual;
}

static void compare_bytes(const Bytes &got, const Bytes &want, const char *what)
{
    CHECK(got.size() == want.size(), "%s: size %zu, expected %zu", what, got.size(), want.size());
    for (size_t i = 0; i < got.size(); i++)
        CHECK(got[i] == want[i], "%s: byte %zu is 0x%02x, expected 0x%02x", what, i, got[i], want[i]);
}

// A chunk is handed over in a heap block of exactly its size, which is then
// released: the library must not read past it or keep pointers into it.
struct Feed {
    u8 *p;
    Feed(const u8 *d, size_t n) { p = (u8 *)malloc(n ? n : 1); if (n) memcpy(p, d, n); }
    ~Feed() { free(p); }
};

// ---------------------------------------------------------------------------
// C01: sequential apply
// ---------------------------------------------------------------------------

static void seq_run_ok(const struct vt *vt, const SeqPatch &p, const std::vector<size_t> &chunks,
                       u8 fill)
{
    SeqDev d;
    d.from = &p.from;
    d.to_limit = p.to.size();
    Obj o(vt->seq_size, fill);
    int res = vt->seq_init(o.p, seq_from_read, seq_from_seek, p.patch.size(), seq_to_write, &d);
    CHECK(res == 0, "init returned %d", res);
    size_t at = 0;
    for (size_t n : chunks) {
        Feed f(p.patch.data() + at, n);
        res = vt->seq_process(o.p, f.p, n);
        CHECK(res == 0, "process of %zu bytes at patch offset %zu returned %d (%s)", n, at, res, vt->error_as_string(res));
        at += n;
        CHECK(vt->seq_patch_offset(o.p) == at, "patch offset is %zu after %zu bytes", vt->seq_patch_offset(o.p), at);
        CHECK(vt->seq_to_offset(o.p) == d.to.size(), "to offset is %zu after writing %zu bytes", vt->seq_to_offset(o.p), d.to.size());
    }
    res = vt->seq_finalize(o.p);
    CHECK(res == (int)p.to.size(), "finalize returned %d (%s), expected %zu", res, vt->error_as_string(res), p.to.size());
    compare_bytes(d.to, p.to, "to-data");
    d.magic = 0;
}

static void c01(Src &src, Case &c)
{
    Cfg cfg = pick_cfg(src);
    size_t max = pick_max(src);
    SeqPatch p = gen_seq(src, cfg.comp, max, cfg.window, cfg.lookahead);
    RefResult ref = ref_apply_seq(p.patch, p.from, p.to.size() + 1);
    CHECK(ref.ok && ref.to == p.to, "harness: reference disagrees with the generator (%s)", ref.why.c_str());
    std::string t;
    for (int i = 0; i < 2; i++) {
        std::vector<size_t> chunks = gen_chunks(src, p.patch.size());
        seq_run_ok(cfg.vt, p, chunks, gen_fill(src));
        t = chunk_text(chunks);
        if (chunks.size() > 2) c.label("many chunks");
    }
    c.label(comp_name(cfg.comp));
    if (cfg.vt->dynamic) c.label("dynamic heatshrink");
    if (p.to.size() >= 65536) c.label("to >= 64 KiB");
    if (p.to.size() >= (1 << 20)) c.label("to >= 1 MiB");
    c.nontrivial = p.diff_used && p.extra_used && p.to.size() >= 2;
    c.summary = p.text() + " " + t;
}

// Huge outputs from tiny patches: sizes that need four and more size bytes.
static void c01_giant(Src &src, Case &c)
{
    SeqPatch p;
    p.comp = COMP_CRLE;
    p.from = gen_data(src, (size_t)src.logsize(200));
    size_t n = (size_t)src.range(1 << 20, g_tier_thorough ? (1u << 27) - 1 : (1u << 23));
    u8 v = (u8)src.below(256);
    bool diff = p.from.size() > 0 && src.flip();
    size_t d = diff ? (size_t)src.below(p.from.size()) + 1 : 0;
    Bytes out;
    auto scatter = [&](const Bytes &b) { out.push_back(0); put_usize(out, b.size()); out.insert(out.end(), b.begin(), b.end()); };
    Bytes b;
    put_size(b, 0);
    put_size(b, (long long)d);
    for (size_t i = 0; i < d; i++) { b.push_back(1); p.to.push_back((u8)(p.from[i] + 1)); }
    put_size(b, (long long)(n - d));
    scatter(b);
    out.push_back(1);
    put_usize(out, n - d);
    out.push_back(v);
    p.to.resize(n, v);
    b.clear();
    put_size(b, 0);
    scatter(b);
    p.header.push_back(COMP_CRLE);
    put_size(p.header, (long long)n);
    p.patch = p.header;
    p.patch.insert(p.patch.end(), out.begin(), out.end());
    std::vector<size_t> chunks = gen_chunks(src, p.patch.size());
    seq_run_ok(base(), p, chunks, gen_fill(src));
    c.label("giant");
    c.nontrivial = true;
    c.summary = strf("crle to=%zu patch=%zu %s", n, p.patch.size(), chunk_text(chunks).c_str());
}

static void c01_all(Src &src, Case &c)
{
    if (src.below(2000) == 1999) c01_giant(src, c); else c01(src, c);
}

// ---------------------------------------------------------------------------
// C02: in-place apply on flash
// ---------------------------------------------------------------------------

static void mem_setup(MemDev &d, const InPatch &p, Src &src, bool flash)
{
    d.mem = gen_data(src, p.memory);
    std::copy(p.from.begin(), p.from.end(), d.mem.begin());
    d.erased.assign(p.memory, 0);
    d.flash = flash;
    d.segment = p.segment;
}

static int in_run(const struct vt *vt, const InPatch &p, const std::vector<size_t> &chunks,
                  MemDev &d, u8 fill, bool steps)
{
    Obj o(vt->inp_size, fill);
    int res = vt->inp_init(o.p, mem_read, mem_write, mem_erase, steps ? mem_step_set : NULL,
                           steps ? mem_step_get : NULL, p.patch.size(), &d);
    CHECK(res == 0, "init returned %d", res);
    size_t at = 0;
    for (size_t n : chunks) {
        Feed f(p.patch.data() + at, n);
        res = vt->inp_process(o.p, f.p, n);
        CHECK(res <= 0, "process returned the positive value %d", res);
        if (res != 0) break;
        at += n;
    }
    int fin = vt->inp_finalize(o.p);
    return res != 0 ? res : fin;
}

static void c02(Src &src, Case &c)
{
    Cfg cfg = pick_cfg(src);
    bool many = src.below(300) == 299;
    InPatch p = many ? gen_in_many(src, cfg.comp, cfg.window, cfg.lookahead)
        : gen_in(src, cfg.comp, src.below(150) == 149 ? 400000 : std::max<size_t>(64, pick_max(src, 60000, 400000)), cfg.window, cfg.lookahead);
    if (many) c.label("tens of thousands of steps");
    bool steps = src.flip();
    std::string t;
    for (int i = 0; i < 2; i++) {
        MemDev d;
        mem_setup(d, p, src, true);
        if (i == 0) {
            RefResult ref = ref_apply_in(p.patch, d.mem, p.memory + 1);
            CHECK(ref.ok && ref.clean && ref.to == p.to, "harness: reference disagrees with the generator (%s)", ref.why.c_str());
        }
        std::vector<size_t> chunks = gen_chunks(src, p.patch.size());
        int res = in_run(cfg.vt, p, chunks, d, gen_fill(src), steps);
        CHECK(res == (int)p.to.size(), "result %d (%s), expected %zu", res, cfg.vt->error_as_string(res), p.to.size());
        Bytes got(d.mem.begin(), d.mem.begin() + (long)p.to.size());
        compare_bytes(got, p.to, "memory");
        if (steps && !p.to.empty()) CHECK(d.step == 0 && d.committed, "completion was not recorded, step is %d", d.step);
        t = chunk_text(chunks);
    }
    c.label(comp_name(cfg.comp));
    if (p.shift == 0) c.label("shift 0");
    if (p.from.size() > p.memory - p.shift) c.label("from cut by shift");
    if (p.to.size() > p.shift) c.label("to reaches from area");
    if (p.to.size() > p.segment) c.label("several segments");
    if (p.memory >= 65536) c.label("memory >= 64 KiB");
    c.nontrivial = p.diff_used && p.to.size() > p.segment;
    c.summary = p.text() + " " + t;
}

// ---------------------------------------------------------------------------
// C03: in-place apply resumes after power loss
// ---------------------------------------------------------------------------

static void c03(Src &src, Case &c)
{
    Cfg cfg = pick_cfg(src);
    bool many = src.below(300) == 299;
    InPatch p = many ? gen_in_many(src, cfg.comp, cfg.window, cfg.lookahead)
        : gen_in(src, cfg.comp, src.below(8) == 7 ? rarely(src, 4000, 150000) : 300, cfg.window, cfg.lookahead);
    if (many) c.label("tens of thousands of steps");
    MemDev first;
    mem_setup(first, p, src, true);
    // Uninterrupted run counts the operations.
    MemDev d0 = first;
    std::vector<size_t> whole(1, p.patch.size());
    int res = in_run(cfg.vt, p, whole, d0, 0, true);
    CHECK(res == (int)p.to.size(), "uninterrupted run returned %d (%s), expected %zu", res, cfg.vt->error_as_string(res), p.to.size());
    u64 total = d0.ops;
    u64 crashes = 0, runs = 0, resumed = 0;
    bool enumerate = total <= 40 && src.flip();
    u64 rounds = enumerate ? total * 3 : many ? 2 : src.range(1, 12);
    for (u64 k = 0; k < rounds; k++) {
        MemDev d = first;
        u64 max_crashes = enumerate ? 1 : src.range(1, 5);
        u64 n = 0;
        bool done = false;
        for (u64 attempt = 0; attempt <= max_crashes && !done; attempt++) {
            d.ops = 0;
            d.crashed = false;
            d.crash_op = -1;
            if (attempt < max_crashes) {
                d.crash_op = enumerate ? (long long)(k / 3) : (long long)src.below(total + 1);
                d.crash_mode = enumerate ? (int)(k % 3) : (int)src.below(3);
                d.crash_seed = src.seed();
            }
            int before = d.step;
            std::vector<size_t> chunks = gen_chunks(src, p.patch.size());
            res = in_run(cfg.vt, p, chunks, d, gen_fill(src), true);
            runs++;
            if (before > 0) resumed++;
            if (d.crashed) {
                crashes++;
                n++;
                CHECK(res < 0 || d.committed, "power was lost but the result is %d", res);
                if (d.committed) done = true;
            } else {
                CHECK(res == (int)p.to.size(), "resumed run %llu from step %d returned %d (%s), expected %zu",
                      (unsigned long long)attempt, before, res, cfg.vt->error_as_string(res), p.to.size());
                done = true;
                if (!p.to.empty()) CHECK(d.committed && d.step == 0, "completion was not recorded after resume");
            }
            if (d.committed || (done && !d.crashed)) {
                Bytes got(d.mem.begin(), d.mem.begin() + (long)p.to.size());
                compare_bytes(got, p.to, "memory after resume");
            }
        }
    }
    c.label(comp_name(cfg.comp));
    if (enumerate) c.label("all crash points enumerated");
    if (resumed) c.label("resumed from a stored step");
    if (p.shift == 0) c.label("shift 0");
    c.nontrivial = crashes > 0 && resumed > 0 && p.to.size() > p.segment;
    c.summary = p.text() + strf(" operations=%llu crashes=%llu runs=%llu resumed=%llu",
        (unsigned long long)total, (unsigned long long)crashes, (unsigned long long)runs, (unsigned long long)resumed);
}

// ---------------------------------------------------------------------------
// C04: dump and restore
// ---------------------------------------------------------------------------

// The addresses of functions and of the context differ in the process that
// restores: other values take the places of those in the state.
extern "C" char __executable_start, _end;

static u64 move_addresses(Bytes &state, const void *ctx, size_t ctx_size, u64 by)
{
    u64 n = 0;
    for (size_t i = 0; i + 8 <= state.size(); i += 8) {
        u64 v;
        memcpy(&v, state.data() + i, 8);
        bool image = v >= (u64)(uintptr_t)&__executable_start && v < (u64)(uintptr_t)&_end;
        bool own = v >= (u64)(uintptr_t)ctx && v < (u64)(uintptr_t)ctx + ctx_size;
        if (!image && !own) continue;
        v = (v ^ 0x0000550000000000ull) + (by | 1) * 16;
        memcpy(state.data() + i, &v, 8);
        n++;
    }
    return n;
}

static void c04(Src &src, Case &c)
{
    static const int comps[] = {COMP_NONE, COMP_CRLE, COMP_HEATSHRINK, COMP_LZMA};
    const struct vt *vt = base();
    int comp = comps[src.below(src.below(10) == 9 ? 4 : 3)];
    SeqPatch p = gen_seq(src, comp, pick_max(src, 70000, 200000));
    // lzma can not be dumped: that must be reported, and must not disturb.
    u8 fill = gen_fill(src);
    Obj *o = new Obj(vt->seq_size, fill);
    SeqDev *d = new SeqDev;
    d->from = &p.from;
    d->to_limit = p.to.size();
    int res = vt->seq_init(o->p, seq_from_read, seq_from_seek, p.patch.size(), seq_to_write, d);
    CHECK(res == 0, "init returned %d", res);
    size_t at = 0;
    u64 restores = 0, mid = 0, dumps = 0, moved = 0;
    std::vector<size_t> chunks = gen_chunks(src, p.patch.size(), false);
    size_t max_restores = (size_t)src.range(1, 8);
    Rng r(src.seed());
    u64 every = std::max<u64>(1, chunks.size() / (max_restores + 1));
    std::vector<size_t> cuts;
    { size_t s = 0; for (size_t n : chunks) { s += n; cuts.push_back(s); } }
    size_t guard = 0;
    while (at < p.patch.size()) {
        CHECK(++guard < 400000, "harness: no progress");
        // next cut after at
        size_t next = *std::upper_bound(cuts.begin(), cuts.end(), at);
        Feed f(p.patch.data() + at, next - at);
        res = vt->seq_process(o->p, f.p, next - at);
        CHECK(res == 0, "process at %zu returned %d (%s) after %llu restores", at, res, vt->error_as_string(res), (unsigned long long)restores);
        at = next;
        CHECK(vt->seq_patch_offset(o->p) == at, "patch offset %zu after processing to %zu", vt->seq_patch_offset(o->p), at);
        CHECK(vt->seq_to_offset(o->p) == d->to.size(), "to offset %zu after writing %zu", vt->seq_to_offset(o->p), d->to.size());
        bool in_header = at < p.header.size();
        if (dumps < 40 && (r.below(every) == 0)) {
            d->state.clear();
            d->state_pos = 0;
            res = vt->seq_dump(o->p, seq_state_write);
            dumps++;
            if (comp == COMP_LZMA && !in_header) {
                CHECK(res < 0, "dump of an lzma patch is not possible but returned %d", res);
                continue;
            }
            CHECK(res == 0, "dump at patch offset %zu returned %d", at, res);
            if (restores >= max_restores || r.below(3) == 0) continue;     // dump only
            // Power cycle: everything but the stored state, the target
            // written so far and the patch is gone.
            if (in_header && restores + 1 >= max_restores) continue;
            SeqDev *d2 = new SeqDev;
            d2->from = &p.from;
            d2->to_limit = p.to.size();
            d2->state = d->state;
            if (r.below(2)) moved += move_addresses(d2->state, o->p, vt->seq_size, r.below(4096));
            // Data written after the dump may exist as well; it is cut off.
            d2->to = d->to;
            // The object may process more before it dies.
            if (at < p.patch.size() && r.below(3) == 0 && comp != COMP_LZMA) {
                size_t more = 1 + r.below(std::min<size_t>(p.patch.size() - at, 300));
                Feed g(p.patch.data() + at, more);
                res = vt->seq_process(o->p, g.p, more);
                CHECK(res == 0, "process after dump returned %d", res);
                d2->to = d->to;
            }
            // Release decoder resources of the dead object.
            (void)vt->seq_finalize(o->p);
            d->magic = 0;
            delete o;
            delete d;
            o = new Obj(vt->seq_size, gen_fill(src));
            d = d2;
            res = vt->seq_init(o->p, seq_from_read, seq_from_seek, r.below(2) ? p.patch.size() : 0, seq_to_write, d);
            CHECK(res == 0, "init returned %d", res);
            res = vt->seq_restore(o->p, seq_state_read);
            CHECK(res == 0, "restore of the state at patch offset %zu returned %d", at, res);
            restores++;
            size_t to_off = vt->seq_to_offset(o->p), p_off = vt->seq_patch_offset(o->p);
            CHECK(to_off <= d->to.size(), "restored to offset %zu is beyond the %zu bytes written", to_off, d->to.size());
            CHECK(p_off <= at, "restored patch offset %zu is beyond the dump at %zu", p_off, at);
            if (!in_header) {
                CHECK(p_off == at, "restored patch offset is %zu, the dump was made at %zu", p_off, at);
                mid++;
            }
            d->to.resize(to_off);
            at = p_off;
            if (at < p.patch.size() && std::upper_bound(cuts.begin(), cuts.end(), at) == cuts.end()) cuts.push_back(p.patch.size());
        }
    }
    res = vt->seq_finalize(o->p);
    CHECK(res == (int)p.to.size(), "finalize returned %d (%s) after %llu restores, expected %zu", res,
          vt->error_as_string(res), (unsigned long long)restores, p.to.size());
    compare_bytes(d->to, p.to, "to-data after restore");
    delete o;
    delete d;
    c.label(comp_name(comp));
    if (restores > 1) c.label("several restores");
    if (moved) c.label("restored where addresses differ");
    if (restores && !mid) c.label("restore in header only");
    if (p.to.size() >= 65536) c.label("to >= 64 KiB");
    c.nontrivial = mid > 0 && p.to.size() >= 2;
    c.summary = p.text() + strf(" dumps=%llu restores=%llu ", (unsigned long long)dumps, (unsigned long long)restores) + chunk_text(chunks);
}

// ---------------------------------------------------------------------------
// C05, C06: arbitrary patches
// ---------------------------------------------------------------------------

static void mutate_bytes(Src &src, Bytes &b, size_t lo = 0)
{
    u64 n = src.range(1, 1 + src.logsize(6));
    for (u64 i = 0; i < n; i++) {
        size_t len = b.size();
        size_t at = len > lo ? lo + (size_t)src.below(len - lo) : len;
        if (src.flip() && len > lo) at = lo + (size_t)src.logsize(len - lo - 1);
        switch (src.below(8)) {
        case 0: if (at < len) b[at] ^= (u8)(1u << src.below(8)); break;
        case 1: if (at < len) b[at] = (u8)src.below(256); break;
        case 2: b.insert(b.begin() + (long)at, (u8)src.below(256)); break;
        case 3: if (at < len) b.erase(b.begin() + (long)at); break;
        case 4: b.resize(at); break;
        case 5: { size_t m = (size_t)src.logsize(40); for (size_t k = 0; k < m; k++) b.push_back((u8)src.below(256)); break; }
        case 6: if (at < len) { static const u8 v[] = {0, 0xff, 0x7f, 0x80, 0x40, 0xc0, 1, 0x3f}; b[at] = v[src.below(8)]; } break;
        default:
            if (at < len) {
                size_t from = lo + (size_t)src.below(len - lo);
                size_t m = std::min<size_t>((size_t)src.logsize(30), len - std::max(from, at));
                memmove(&b[at], &b[from], m);
            }
            break;
        }
    }
}

static long long weird_size(Src &src)
{
    switch (src.below(6)) {
    case 0: return (long long)src.below(20);
    case 1: return -(long long)src.below(20);
    case 2: return (long long)src.logsize((1u << 27) - 1);
    case 3: return -(long long)src.logsize((1u << 27) - 1);
    case 4: return (long long)src.logsize((u64)1 << 40);
    default: return -(long long)src.logsize((u64)1 << 40);
    }
}

// An operation stream with plausible structure and bad values.
static Bytes bad_payload(Src &src, size_t to_size)
{
    Bytes b;
    put_size(b, src.below(12) == 11 ? weird_size(src) : 0);
    u64 n = src.range(1, 8);
    size_t at = 0;
    for (u64 i = 0; i < n; i++) {
        for (int part = 0; part < 2; part++) {
            size_t left = to_size > at ? to_size - at : 0;
            long long d = (long long)src.logsize(left);
            u64 k = src.below(10);
            if (k == 9) d = weird_size(src);
            else if (k == 8) d = (long long)left + (long long)src.below(3);
            else if (k == 7) d = -(long long)src.below(at + 2);
            put_size(b, d);
            size_t real = d > 0 ? (size_t)std::min<long long>(d, 2000) : d < 0 ? (size_t)src.below(300) : 0;
            Bytes data = gen_data(src, real);
            b.insert(b.end(), data.begin(), data.end());
            if (d > 0) at += (size_t)d;
        }
        put_size(b, src.below(4) ? (long long)src.below(6) - 3 : weird_size(src));
    }
    return b;
}

static void c05_bytes(const struct vt *vt, const Bytes &patch, const Bytes &from,
                      const std::vector<size_t> &chunks, u8 fill, size_t patch_size, Case &c, size_t cap)
{
    RefResult ref = ref_apply_seq(patch, from, cap);
    // A few bytes may stand for billions of operations that do nothing.
    if (ref.heavy) { c.label("too long"); return; }
    SeqDev d;
    d.from = &from;
    d.strict = false;
    d.to_limit = ref.header_ok ? (size_t)std::min<u64>(ref.header_to, (u64)1 << 40) : 0;
    if (ref.header_ok && ref.header_to > cap) {
        // Keep output bounded: the write callback refuses at the cap, which
        // the library sees as an I/O failure.
        d.fail_call = (long long)(cap / 8);
    }
    Obj o(vt->seq_size, fill);
    int res = vt->seq_init(o.p, seq_from_read, seq_from_seek, patch_size, seq_to_write, &d);
    CHECK(res == 0, "init returned %d", res);
    size_t at = 0;
    int first_error = 0;
    size_t to_at_error = 0;
    for (size_t n : chunks) {
        Feed f(patch.data() + at, n);
        res = vt->seq_process(o.p, f.p, n);
        CHECK(res <= 0, "process returned the positive value %d", res);
        check_code(vt, res, "process");
        if (first_error) {
            CHECK(res < 0 || n == 0, "process succeeded after it had failed with %d", first_error);
            CHECK(d.to.size() == to_at_error, "output was written after a failure");
        } else if (res < 0) {
            first_error = res;
            to_at_error = d.to.size();
        }
        at += n;
        if (first_error && n % 3 == 0) break;           // stop early or keep calling
    }
    res = vt->seq_finalize(o.p);
    check_code(vt, res, "finalize");
    CHECK(vt_alloc_live == 0 && vt_lzma_live == 0, "finalize left %ld blocks and %ld lzma streams allocated", vt_alloc_live, vt_lzma_live);
    CHECK(vt_alloc_bad == 0, "an unknown block was freed");
    if (first_error) CHECK(res < 0, "finalize returned %d after process had failed with %d", res, first_error);
    if (res >= 0) {
        CHECK(ref.header_ok, "success without a complete header");
        CHECK((u64)res == ref.header_to, "success with size %d but the header declares %llu", res, (unsigned long long)ref.header_to);
        CHECK(d.to.size() == (size_t)res, "success with size %d but %zu bytes were written", res, d.to.size());
        CHECK(ref.ok, "success but the patch is not valid: %s", ref.why.c_str());
        compare_bytes(d.to, ref.to, "to-data of an accepted patch");
        c.label("accepted");
    } else {
        c.label(strf("error %d", -res));
        if (d.to.size()) c.label("failed after output");
    }
    c.nontrivial = ref.header_ok && (d.reads || d.writes || first_error);
}

static Bytes corrupt_patch(Src &src, int type, Bytes *from, Bytes *to, std::string *t, size_t *patch_size)
{
    Bytes patch;
    int comp = pick_comp(src);
    int window = 8, lookahead = 7;
    u64 how = src.below(4);
    if (src.below(8) == 7 && comp == COMP_HEATSHRINK) { window = (int)src.range(4, 15); lookahead = (int)src.range(3, 18) % 16 + 3; if (lookahead >= window) lookahead = window - 1; if (lookahead < 3) { window = 8; lookahead = 7; } }
    if (how == 0) {                                     // damaged valid patch
        if (type == TYPE_SEQ) {
            SeqPatch p = gen_seq(src, comp, pick_max(src, 6000, 20000), window, lookahead);
            *from = p.from; *to = p.to;
            patch = p.patch;
        } else {
            InPatch p = gen_in(src, comp, 600, window, lookahead);
            *from = p.from; *to = p.to;
            patch = p.patch;
        }
        *patch_size = patch.size();
        mutate_bytes(src, patch);
        if (src.flip()) *patch_size = patch.size();
        *t = "damaged patch";
    } else if (how == 1) {                              // damaged payload
        Bytes header, body;
        if (type == TYPE_SEQ) {
            SeqPatch p = gen_seq(src, comp, 1500, window, lookahead);
            *from = p.from; *to = p.to; header = p.header; body = p.payload;
        } else {
            InPatch p = gen_in(src, comp, 600, window, lookahead);
            *from = p.from; *to = p.to; header = p.header; body = p.payload;
        }
        mutate_bytes(src, body);
        Bytes z = compress(src, comp, body, window, lookahead);
        patch = header;
        patch.insert(patch.end(), z.begin(), z.end());
        *patch_size = patch.size();
        *t = "damaged payload";
    } else if (how == 2) {                              // bad values in a plausible structure
        *from = gen_data(src, (size_t)src.logsize(600));
        size_t to_size = (size_t)src.logsize(src.below(8) == 7 ? (1u << 27) : 600);
        patch.push_back((u8)((type << 4) | comp));
        if (type == TYPE_INPLACE) {
            size_t seg = (size_t)src.logsize(64);
            size_t mem = seg * (size_t)src.below(16) + (src.below(4) == 3 ? (size_t)src.below(20) : 0);
            put_size(patch, src.below(10) == 9 ? weird_size(src) : (long long)mem);
            put_size(patch, src.below(10) == 9 ? weird_size(src) : (long long)seg);
            put_size(patch, src.below(10) == 9 ? weird_size(src) : (long long)(seg * src.below(6) + (src.below(6) == 5 ? src.below(20) : 0)));
            put_size(patch, src.below(10) == 9 ? weird_size(src) : (long long)src.below(mem + 4));
            to_size = src.below(10) == 9 ? to_size : (size_t)src.below(mem + 3);
        }
        put_size(patch, (long long)to_size);
        Bytes body = bad_payload(src, std::min<size_t>(to_size, 4000));
        if (type == TYPE_INPLACE && src.flip()) { Bytes more = bad_payload(src, std::min<size_t>(to_size, 100)); body.insert(body.end(), more.begin(), more.end()); }
        Bytes z = compress(src, comp, body, window, lookahead);
        if (comp == COMP_CRLE && src.below(3) == 0) {
            // zero sized and odd segments
            z.clear();
            size_t i = 0;
            while (i < body.size()) {
                u64 k = src.below(6);
                if (k == 5) { z.push_back(0); put_usize(z, 0); }
                else if (k == 4) { z.push_back(1); put_usize(z, 0); z.push_back((u8)src.below(256)); }
                size_t n = std::min<size_t>(1 + (size_t)src.logsize(50), body.size() - i);
                z.push_back(0);
                put_usize(z, n);
                z.insert(z.end(), body.begin() + (long)i, body.begin() + (long)(i + n));
                i += n;
            }
        }
        patch.insert(patch.end(), z.begin(), z.end());
        *patch_size = patch.size();
        *t = "bad values";
    } else {                                            // bytes
        *from = gen_data(src, (size_t)src.logsize(600));
        size_t n = (size_t)src.logsize(src.below(8) == 7 ? 2000 : 60);
        patch.push_back(src.below(4) == 3 ? (u8)src.below(256) : (u8)((type << 4) | comp));
        if (comp == COMP_HEATSHRINK && src.flip()) { put_size(patch, (long long)src.below(500)); patch.push_back(0x44); }
        Rng r(src.seed());
        u64 style = src.below(3);
        for (size_t i = 0; i < n; i++) patch.push_back(style == 0 ? (u8)r.next() : style == 1 ? (u8)r.below(4) : (u8)(r.below(3) ? r.below(64) : r.next()));
        *patch_size = patch.size();
        *t = "raw bytes";
    }
    if (src.below(16) == 15) *patch_size = (size_t)src.logsize(5000);
    return patch;
}

static void c05(Src &src, Case &c)
{
    Bytes from, to;
    std::string t;
    size_t patch_size;
    const struct vt *vt = src.chance(1, 3) ? dyn() : base();
    Bytes patch = corrupt_patch(src, TYPE_SEQ, &from, &to, &t, &patch_size);
    std::vector<size_t> chunks = gen_chunks(src, patch.size());
    vt_alloc_reset(-1);
    c05_bytes(vt, patch, from, chunks, gen_fill(src), patch_size, c, 1 << 20);
    c.label(t);
    c.summary = t + strf(" from=%zu patch=%zu [%s] ", from.size(), patch.size(), hexdump(patch).c_str()) + chunk_text(chunks) + " " + (c.labels.empty() ? "" : c.labels[0]);
}

static void c06_bytes(const struct vt *vt, const Bytes &patch, const Bytes &mem0, bool flash, bool steps,
                      const std::vector<size_t> &chunks, u8 fill, size_t patch_size, int step0, Case &c)
{
    RefResult ref = ref_apply_in(patch, mem0, mem0.size() + 1);
    if (ref.heavy) { c.label("too long"); return; }
    MemDev d;
    d.mem = mem0;
    d.erased.assign(mem0.size(), 1);        // erase-before-write is not judged here
    d.flash = false;
    (void)flash;
    d.strict = true;
    d.step = step0;
    // The memory the patch may use is what its header declares, or the real
    // memory when the header declares more (then the library can not know).
    bool declares_more = ref.header_ok && ref.memory > mem0.size();
    size_t seen = mem0.size();
    if (declares_more) d.strict = false;
    else if (ref.header_ok) {
        d.mem.resize((size_t)ref.memory);
        d.erased.resize((size_t)ref.memory);
        seen = (size_t)ref.memory;
    }
    // Bound the work of absurd but harmless geometries.
    d.fail_op = 200000;
    Obj o(vt->inp_size, fill);
    int res = vt->inp_init(o.p, mem_read, mem_write, mem_erase, steps ? mem_step_set : NULL,
                           steps ? mem_step_get : NULL, patch_size, &d);
    CHECK(res == 0, "init returned %d", res);
    size_t at = 0;
    int first_error = 0;
    u64 w0 = 0;
    for (size_t n : chunks) {
        Feed f(patch.data() + at, n);
        res = vt->inp_process(o.p, f.p, n);
        CHECK(res <= 0, "process returned the positive value %d", res);
        check_code(vt, res, "process");
        if (first_error) {
            CHECK(res < 0 || n == 0, "process succeeded after it had failed with %d", first_error);
            CHECK(d.ops == w0, "memory was modified after a failure");
        } else if (res < 0) {
            first_error = res;
            w0 = d.ops;
        }
        at += n;
        if (first_error && n % 3 == 0) break;
    }
    res = vt->inp_finalize(o.p);
    check_code(vt, res, "finalize");
    CHECK(vt_alloc_live == 0 && vt_lzma_live == 0, "finalize left %ld blocks and %ld lzma streams allocated", vt_alloc_live, vt_lzma_live);
    CHECK(vt_alloc_bad == 0, "an unknown block was freed");
    if (first_error) {
        CHECK(res < 0, "finalize returned %d after process had failed with %d", res, first_error);
        CHECK(d.ops == w0, "memory was modified after a failure");
    }
    // Data after a complete patch is rejected late: the memory is right then.
    if (res < 0 && d.committed && step0 == 0 && ref.ok && ref.clean && ref.header_to <= ref.memory) {
        Bytes got(d.mem.begin(), d.mem.begin() + (long)ref.header_to);
        compare_bytes(got, ref.to, "memory when completion was recorded");
    }
    if (res >= 0) {
        CHECK(ref.header_ok, "success without a complete header");
        CHECK((u64)res == ref.header_to, "success with size %d but the header declares %llu", res, (unsigned long long)ref.header_to);
        if (ref.header_to > 0) {
            CHECK(ref.header_to <= ref.memory, "success with a target of %llu bytes in %llu bytes of memory",
                  (unsigned long long)ref.header_to, (unsigned long long)ref.memory);
            if (step0 == 0 && !declares_more) CHECK(ref.ok, "success but the patch is not valid: %s", ref.why.c_str());
            if (step0 == 0 && ref.ok && ref.clean) {
                Bytes got(d.mem.begin(), d.mem.begin() + (long)ref.header_to);
                compare_bytes(got, ref.to, "memory of an accepted patch");
                c.label("accepted and compared");
            }
        }
        c.label("accepted");
    } else {
        c.label(strf("error %d", -res));
        if (d.writes) c.label("failed after writes");
    }
    (void)seen;
    c.nontrivial = ref.header_ok && (d.reads || d.writes || first_error);
}

static void c06(Src &src, Case &c)
{
    Bytes from, to;
    std::string t;
    size_t patch_size;
    const struct vt *vt = src.chance(1, 3) ? dyn() : base();
    Bytes patch = corrupt_patch(src, TYPE_INPLACE, &from, &to, &t, &patch_size);
    std::vector<size_t> chunks = gen_chunks(src, patch.size());
    Bytes mem = gen_data(src, 4096);
    std::copy(from.begin(), from.begin() + (long)std::min(from.size(), mem.size()), mem.begin());
    vt_alloc_reset(-1);
    bool steps = src.flip();
    int step0 = steps && src.below(4) == 3 ? (int)src.below(20) : 0;
    c06_bytes(vt, patch, mem, false, steps, chunks, gen_fill(src), patch_size, step0, c);
    c.label(t);
    c.summary = t + strf(" patch=%zu [%s] ", patch.size(), hexdump(patch).c_str()) + chunk_text(chunks) + " " + (c.labels.empty() ? "" : c.labels[0]);
}

// ---------------------------------------------------------------------------
// C07: cut patches
// ---------------------------------------------------------------------------

static void c07(Src &src, Case &c)
{
    Cfg cfg = pick_cfg(src);
    bool inplace = src.flip();
    u64 cuts = 0, early = 0;
    // Only an lzma stream ends with bytes that carry no data; everything up to
    // the last byte is needed with the other compressions.
    bool slack = cfg.comp == COMP_LZMA;
    if (!inplace) {
        SeqPatch p = gen_seq(src, cfg.comp, src.below(10) == 9 ? rarely(src, 3000, 140000) : 200, cfg.window, cfg.lookahead);
        size_t n = p.patch.size();
        bool all = n <= 300;
        for (size_t k = 0; k < (all ? n : 60); k++) {
            size_t cut = all ? k : src.flip() ? n - 1 - (size_t)src.below(20) : (size_t)src.below(n);
            SeqDev d;
            d.from = &p.from;
            d.to_limit = p.to.size();
            Obj o(cfg.vt->seq_size, gen_fill(src));
            size_t psize = src.flip() ? cut : n;
            vt_alloc_reset(-1);
            int res = cfg.vt->seq_init(o.p, seq_from_read, seq_from_seek, psize, seq_to_write, &d);
            Bytes part(p.patch.begin(), p.patch.begin() + (long)cut);
            int err = 0;
            size_t at = 0;
            for (size_t m : gen_chunks(src, cut)) {
                Feed f(part.data() + at, m);
                at += m;
                res = cfg.vt->seq_process(o.p, f.p, m);
                CHECK(res <= 0, "process returned the positive value %d", res);
                if (res < 0) { err = res; break; }
            }
            res = cfg.vt->seq_finalize(o.p);
            if (err) res = err;
            bool prefix = d.to.size() <= p.to.size() && std::equal(d.to.begin(), d.to.end(), p.to.begin());
            CHECK(prefix, "a patch cut at %zu of %zu wrote data that is not a prefix of the target", cut, n);
            if (res >= 0) {
                CHECK(slack && cut >= p.header.size() && res == (int)p.to.size() && d.to == p.to,
                      "a patch cut at %zu of %zu was reported as applied (%d) with %zu of %zu bytes written",
                      cut, n, res, d.to.size(), p.to.size());
                early++;
            }
            CHECK(vt_alloc_live == 0 && vt_lzma_live == 0, "a cut patch leaves memory allocated");
            cuts++;
        }
        c.summary = p.text();
        c.nontrivial = cuts > early && p.to.size() > 1;
    } else {
        InPatch p = gen_in(src, cfg.comp, src.below(10) == 9 ? rarely(src, 1500, 140000) : 200, cfg.window, cfg.lookahead);
        size_t n = p.patch.size();
        bool all = n <= 200;
        MemDev first;
        mem_setup(first, p, src, true);
        for (size_t k = 0; k < (all ? n : 40); k++) {
            size_t cut = all ? k : src.flip() ? n - 1 - (size_t)src.below(20) : (size_t)src.below(n);
            MemDev d = first;
            Obj o(cfg.vt->inp_size, gen_fill(src));
            size_t psize = src.flip() ? cut : n;
            vt_alloc_reset(-1);
            int res = cfg.vt->inp_init(o.p, mem_read, mem_write, mem_erase, mem_step_set, mem_step_get, psize, &d);
            int err = 0;
            size_t at = 0;
            for (size_t m : gen_chunks(src, cut)) {
                Feed f(p.patch.data() + at, m);
                at += m;
                res = cfg.vt->inp_process(o.p, f.p, m);
                CHECK(res <= 0, "process returned the positive value %d", res);
                if (res < 0) { err = res; break; }
            }
            res = cfg.vt->inp_finalize(o.p);
            if (err) res = err;
            bool complete = std::equal(p.to.begin(), p.to.end(), d.mem.begin());
            if (res >= 0) {
                CHECK(slack && cut >= p.header.size() && res == (int)p.to.size() && complete,
                      "an in-place patch cut at %zu of %zu was reported as applied (%d)", cut, n, res);
                early++;
            }
            if (d.committed) CHECK(complete, "completion was recorded for a patch cut at %zu of %zu", cut, n);
            CHECK(vt_alloc_live == 0 && vt_lzma_live == 0, "a cut patch leaves memory allocated");
            // The download can be finished later from the stored step.
            if (res < 0 && !d.committed && k % 4 == 0) {
                std::vector<size_t> whole(1, n);
                res = in_run(cfg.vt, p, whole, d, 0, true);
                CHECK(res == (int)p.to.size(), "retry with the whole patch after a cut at %zu returned %d (%s)", cut, res, cfg.vt->error_as_string(res));
                CHECK(std::equal(p.to.begin(), p.to.end(), d.mem.begin()), "retry with the whole patch after a cut at %zu gives other data", cut);
            }
            cuts++;
        }
        c.summary = p.text();
        c.nontrivial = cuts > early && p.to.size() > 1;
    }
    c.label(inplace ? "in-place" : "sequential");
    c.label(comp_name(cfg.comp));
    c.summary += strf(" cuts=%llu complete-at-cut=%llu", (unsigned long long)cuts, (unsigned long long)early);
}

// ---------------------------------------------------------------------------
// C08: failing callbacks
// ---------------------------------------------------------------------------

static int gen_code(Src &src)
{
    static const int codes[] = {-1, -10, -5, -100, -14, -1000000};
    return codes[src.below(6)];
}

// Which call to fail when there are too many to fail each: any, or the first,
// the last or any of one callback.
static u64 pick_fault(Src &src, const std::string &kinds)
{
    if (src.flip()) return src.below(kinds.size());
    std::string have;
    for (char k : kinds) if (have.find(k) == std::string::npos) have += k;
    char k = have[src.below(have.size())];
    u64 which = src.below(3);
    if (which == 0) return kinds.find(k);
    if (which == 1) return kinds.rfind(k);
    return kinds.rfind(k, src.below(kinds.size() - kinds.find(k)) + kinds.find(k));
}

static void c08(Src &src, Case &c)
{
    Cfg cfg = pick_cfg(src);
    bool inplace = src.flip();
    const struct vt *vt = cfg.vt;
    u64 faults = 0;
    if (!inplace) {
        SeqPatch p = gen_seq(src, cfg.comp, src.below(6) == 5 ? rarely(src, 2500, 140000) : 250, cfg.window, cfg.lookahead);
        bool high = src.below(4) == 3;              // through the callbacks function
        // Count the callback calls of a good run.
        std::vector<size_t> chunks = gen_chunks(src, p.patch.size(), false);
        SeqDev good;
        good.from = &p.from;
        good.patch = &p.patch;
        good.to_limit = p.to.size();
        std::string kinds;
        good.kinds = &kinds;
        {
            int res;
            if (high) res = vt->seq_callbacks(seq_from_read, seq_from_seek, seq_patch_read, p.patch.size(), seq_to_write, &good);
            else {
                Obj o(vt->seq_size, 0);
                vt->seq_init(o.p, seq_from_read, seq_from_seek, p.patch.size(), seq_to_write, &good);
                size_t at = 0;
                for (size_t n : chunks) { (void)vt->seq_process(o.p, p.patch.data() + at, n); at += n; }
                res = vt->seq_finalize(o.p);
            }
            CHECK(res == (int)p.to.size(), "run without faults returned %d, expected %zu", res, p.to.size());
        }
        u64 total = good.calls;
        bool all = total <= 200;
        for (u64 k = 0; k < (all ? total : 80); k++) {
            SeqDev d;
            d.from = &p.from;
            d.patch = &p.patch;
            d.to_limit = p.to.size();
            d.fail_call = (long long)(all ? k : pick_fault(src, kinds));
            d.fail_code = gen_code(src);
            vt_alloc_reset(-1);
            int res;
            if (high) {
                res = vt->seq_callbacks(seq_from_read, seq_from_seek, seq_patch_read, p.patch.size(), seq_to_write, &d);
                CHECK(d.failed, "harness: fault %lld not reached", d.fail_call);
            } else {
                Obj o(vt->seq_size, gen_fill(src));
                vt->seq_init(o.p, seq_from_read, seq_from_seek, p.patch.size(), seq_to_write, &d);
                size_t at = 0;
                int err = 0;
                for (size_t n : chunks) {
                    Feed f(p.patch.data() + at, n);
                    at += n;
                    res = vt->seq_process(o.p, f.p, n);
                    if (d.failed) CHECK(res < 0, "process returned %d although a callback failed with %d", res, d.fail_code);
                    if (res < 0 && !err) err = res;
                    if (err && (k & 1)) break;
                }
                res = vt->seq_finalize(o.p);
                if (err) CHECK(res < 0, "finalize returned %d although process had failed with %d", res, err);
            }
            CHECK(d.failed, "harness: fault not reached");
            CHECK(res < 0, "result is %d although callback call %lld failed with %d", res, d.fail_call, d.fail_code);
            CHECK(d.writes_after_fail == 0, "%llu writes after a callback had failed", (unsigned long long)d.writes_after_fail);
            CHECK(vt_alloc_live == 0 && vt_lzma_live == 0, "memory is left allocated after a callback failure");
            CHECK(d.to.size() <= p.to.size() && std::equal(d.to.begin(), d.to.end(), p.to.begin()), "the output before the fault is not a prefix of the target");
            faults++;
        }
        c.summary = p.text() + strf(" %s callback calls=%llu faults=%llu", high ? "high-level" : "low-level", (unsigned long long)total, (unsigned long long)faults);
        c.nontrivial = faults > 2 && p.to.size() > 1;
        // Dump and restore callbacks.
        if (cfg.comp != COMP_LZMA && !vt->dynamic) {
            SeqDev d;
            d.from = &p.from;
            d.to_limit = p.to.size();
            Obj o(vt->seq_size, gen_fill(src));
            vt->seq_init(o.p, seq_from_read, seq_from_seek, p.patch.size(), seq_to_write, &d);
            size_t part = (size_t)src.below(p.patch.size() + 1);
            int res = vt->seq_process(o.p, p.patch.data(), part);
            d.fail_call = (long long)d.calls;
            res = vt->seq_dump(o.p, seq_state_write);
            CHECK(res < 0, "dump returned %d although the state write failed", res);
            d.fail_call = -1;
            d.failed = false;
            d.state.clear();
            res = vt->seq_dump(o.p, seq_state_write);
            CHECK(res == 0, "dump returned %d", res);
            SeqDev e;
            e.from = &p.from;
            e.state = d.state;
            e.to_limit = p.to.size();
            bool seeks = part >= p.header.size();
            u64 which = src.below(seeks ? 2 : 1);
            e.fail_call = (long long)which;
            Obj o2(vt->seq_size, gen_fill(src));
            vt->seq_init(o2.p, seq_from_read, seq_from_seek, p.patch.size(), seq_to_write, &e);
            res = vt->seq_restore(o2.p, seq_state_read);
            if (e.failed) {
                CHECK(res < 0, "restore returned %d although callback call %llu of it failed", res, (unsigned long long)which);
                c.label("restore fault");
            }
            (void)vt->seq_finalize(o.p);
        }
    } else {
        InPatch p = gen_in(src, cfg.comp, src.below(6) == 5 ? rarely(src, 1500, 140000) : 250, cfg.window, cfg.lookahead);
        bool high = src.below(4) == 3;
        bool steps = src.flip();
        MemDev first;
        mem_setup(first, p, src, true);
        first.patch = &p.patch;
        std::vector<size_t> chunks = gen_chunks(src, p.patch.size(), false);
        auto run = [&](MemDev &d, u8 fill) {
            if (high) {
                d.patch_pos = 0;
                return vt->inp_callbacks(mem_read, mem_write, mem_erase, steps ? mem_step_set : NULL,
                                         steps ? mem_step_get : NULL, mem_patch_read, p.patch.size(), &d);
            }
            return in_run(vt, p, chunks, d, fill, steps);
        };
        MemDev good = first;
        std::string kinds;
        good.kinds = &kinds;
        int res = run(good, 0);
        CHECK(res == (int)p.to.size(), "run without faults returned %d (%s), expected %zu", res, vt->error_as_string(res), p.to.size());
        u64 total = good.calls;
        bool all = total <= 200;
        for (u64 k = 0; k < (all ? total : 80); k++) {
            MemDev d = first;
            d.fail_op = (long long)(all ? k : pick_fault(src, kinds));
            d.fail_code = gen_code(src);
            vt_alloc_reset(-1);
            res = run(d, gen_fill(src));
            CHECK(d.failed, "harness: fault not reached");
            CHECK(res < 0, "result is %d although callback call %lld failed with %d", res, d.fail_op, d.fail_code);
            CHECK(!d.committed, "completion was recorded although a callback failed");
            CHECK(d.after_fail_mutations == 0, "the memory or the step was modified after a callback had failed");
            CHECK(vt_alloc_live == 0 && vt_lzma_live == 0, "memory is left allocated after a callback failure");
            faults++;
            // A failure is no worse than a power loss: apply again.
            if (steps) {
                d.fail_op = -1;
                d.failed = false;
                d.step = d.step;
                res = run(d, gen_fill(src));
                CHECK(res == (int)p.to.size(), "second attempt after a failed callback returned %d (%s)", res, vt->error_as_string(res));
                CHECK(std::equal(p.to.begin(), p.to.end(), d.mem.begin()), "second attempt after a failed callback gives other data");
            }
        }
        c.summary = p.text() + strf(" %s steps=%d callback calls=%llu faults=%llu", high ? "high-level" : "low-level", steps, (unsigned long long)total, (unsigned long long)faults);
        c.nontrivial = faults > 2 && p.to.size() > 1;
    }
    c.label(inplace ? "in-place" : "sequential");
    c.label(comp_name(cfg.comp));
}

// ---------------------------------------------------------------------------
// C09: entry points (low level, callbacks, file names, command line) agree
// ---------------------------------------------------------------------------

static std::string path_of(const char *name) { return std::string(g_scratch) + "/" + name; }

static void write_file(const std::string &path, const Bytes &b)
{
    FILE *f = fopen(path.c_str(), "wb");
    if (!f) fail("harness: cannot write %s", path.c_str());
    if (b.size() && fwrite(b.data(), b.size(), 1, f) != 1) fail("harness: short write");
    fclose(f);
}

static bool read_file(const std::string &path, Bytes *b)
{
    FILE *f = fopen(path.c_str(), "rb");
    if (!f) return false;
    b->clear();
    u8 buf[65536];
    size_t n;
    while ((n = fread(buf, 1, sizeof(buf), f)) > 0) b->insert(b->end(), buf, buf + n);
    fclose(f);
    return true;
}

static int open_files()
{
    int n = 0;
    for (int fd = 0; fd < 64; fd++) n += fcntl(fd, F_GETFD) >= 0;
    return n;
}

static int g_steps_store, g_steps_fail_at = -1, g_steps_calls;
static int file_step_set(void *, int step)
{
    if (g_steps_calls++ == g_steps_fail_at) return -1;
    g_steps_store = step;
    return 0;
}
static int file_step_get(void *, int *step) { *step = g_steps_store; return 0; }

// Runs the command line program, returns its exit status, output in *out.
static int run_cli(const std::vector<std::string> &args, std::string *out, long fsize)
{
    int fds[2];
    if (pipe(fds) != 0) fail("harness: pipe");
    fflush(NULL);
    pid_t pid = fork();
    if (pid == 0) {
        dup2(fds[1], 1);
        dup2(fds[1], 2);
        close(fds[0]);
        close(fds[1]);
        if (fsize >= 0) {
            struct rlimit rl = {(rlim_t)fsize, (rlim_t)fsize};
            signal(SIGXFSZ, SIG_IGN);
            setrlimit(RLIMIT_FSIZE, &rl);
        }
        std::vector<char *> a;
        a.push_back((char *)g_cli_path);
        for (auto &s : args) a.push_back((char *)s.c_str());
        a.push_back(NULL);
        alarm(100);
        execv(g_cli_path, a.data());
        _exit(126);
    }
    int st;
    close(fds[1]);
    out->clear();
    char buf[4096];
    for (;;) {
        ssize_t n = read(fds[0], buf, sizeof(buf));
        if (n < 0 && errno == EINTR) continue;
        if (n <= 0) break;
        out->append(buf, (size_t)n);
    }
    close(fds[0]);
    while (waitpid(pid, &st, 0) < 0) {}
    CHECK(WIFEXITED(st), "the command line program died from signal %d", WTERMSIG(st));
    CHECK(WEXITSTATUS(st) != 126, "harness: cannot execute %s", g_cli_path);
    return WEXITSTATUS(st);
}

struct FileLimit {
    struct rlimit old;
    void (*oldsig)(int);
    explicit FileLimit(long n)
    {
        getrlimit(RLIMIT_FSIZE, &old);
        struct rlimit rl = old;
        if (n >= 0) rl.rlim_cur = (rlim_t)n;
        oldsig = signal(SIGXFSZ, SIG_IGN);
        setrlimit(RLIMIT_FSIZE, &rl);
    }
    ~FileLimit()
    {
        setrlimit(RLIMIT_FSIZE, &old);
        signal(SIGXFSZ, oldsig);
    }
};

// The codes of failing callbacks are passed on or replaced.
static bool is_io_code(int r) { return r == -1 || r == -10 || (r <= -12 && r >= -17); }
static bool same_verdict(int a, int b) { return a == b || (is_io_code(a) && is_io_code(b)); }

// A named pipe with something in it that is kept open.
struct Pipe {
    std::string path;
    int fd = -1;
    void open(const std::string &name, const Bytes &data)
    {
        path = name;
        unlink(path.c_str());
        if (mkfifo(path.c_str(), 0600) != 0) fail("harness: no pipe: %s", strerror(errno));
        fd = ::open(path.c_str(), O_RDWR | O_NONBLOCK);
        if (fd < 0 || (!data.empty() && write(fd, data.data(), std::min<size_t>(data.size(), 60000)) <= 0))
            fail("harness: pipe: %s", strerror(errno));
    }
    ~Pipe()
    {
        if (fd < 0) return;
        close(fd);
        unlink(path.c_str());
    }
};

// The size of the pieces the callbacks and file functions read the patch in.
static size_t piece_size()
{
    static size_t size;
    if (size) return size;
    Bytes from, patch = {0x00, 0xb8, 0x2e, 0x00, 0x00, 0xb8, 0x2e};   // 3000 bytes of extra data
    patch.resize(patch.size() + 3000, 0x55);
    patch.push_back(0x00);
    SeqDev d;
    d.from = &from;
    d.patch = &patch;
    d.to_limit = 3000;
    int res = base()->seq_callbacks(seq_from_read, seq_from_seek, seq_patch_read, patch.size(), seq_to_write, &d);
    CHECK(res == 3000, "callbacks: result %d", res);
    return size = d.patch_piece;
}

static void c09_seq(Src &src, Case &c)
{
    const size_t piece = piece_size();
    Cfg cfg = pick_cfg(src);
    cfg.vt = base();
    size_t max = src.below(10) == 9 ? (src.below(6) == 5 ? 200000 : 40000) : src.flip() ? 9000 : 600;
    SeqPatch p = gen_seq(src, cfg.comp, max);
    u64 fault = src.below(15);
    bool cli = src.below(8) == 7;
    Bytes from = p.from, patch = p.patch;
    std::string ffrom = path_of("from.bin"), fpatch = path_of("patch.bin"), fto = path_of("to.bin");
    const char *what = "none";
    bool must_fail = false, judged_by_model = false;
    long limit = -1;
    switch (fault) {
    case 7:
        what = "missing from";
        ffrom = path_of("absent/from.bin");
        must_fail = true;
        break;
    case 8:
        what = "missing patch";
        fpatch = path_of("absent.bin");
        must_fail = true;
        break;
    case 9:
        what = "to in missing directory";
        fto = path_of("absent/to.bin");
        must_fail = true;
        break;
    case 10:
        if (p.to.size() >= 1) {
            what = "disk full";
            limit = (long)(src.flip() ? p.to.size() - 1 : src.below(p.to.size()));
            must_fail = true;
        }
        break;
    case 11:
        what = "empty patch";
        patch.clear();
        must_fail = true;
        break;
    case 12:
        what = "patch is a directory";
        must_fail = true;
        break;
    case 13:
        what = "patch is a pipe";
        must_fail = true;
        break;
    case 14:
        if (p.diff_used) {
            what = "from is a directory";
            must_fail = true;
        }
        break;
    case 5:
        what = "cut from";
        from.resize((size_t)src.below(from.size() + 1));
        judged_by_model = true;
        break;
    case 6:
        what = "damaged patch";
        mutate_bytes(src, patch);
        if (patch.empty()) must_fail = true;
        judged_by_model = true;
        break;
    default:
        break;
    }
    if (judged_by_model) {
        // Keep absurd declared sizes out of the file system.
        RefResult r = ref_apply_seq(patch, from, 1 << 20);
        if (r.heavy || (r.header_ok && r.header_to > (1u << 22))) { what = "none"; judged_by_model = false; patch = p.patch; from = p.from; }
    }
    const bool other_from = must_fail && (fault == 7 || fault == 14);
    const bool other_patch = must_fail && (fault == 8 || fault == 12 || fault == 13);
    if (must_fail && fault == 14) ffrom = path_of(".");
    if (fault == 12) fpatch = path_of(".");
    if (!other_from) write_file(ffrom, from);
    if (!other_patch) write_file(fpatch, patch);
    else if (fault == 8) unlink(fpatch.c_str());
    Pipe pipe;
    if (fault == 13) {
        fpatch = path_of("pipe");
        pipe.open(fpatch, patch);
    }
    Bytes junk = gen_data(src, (size_t)src.logsize(max * 2));
    if (fault != 9) write_file(fto, junk);
    int fd0 = open_files();
    int res;
    std::string out;
    if (cli) {
        std::vector<std::string> args = {"apply_patch", ffrom, fpatch, fto};
        res = run_cli(args, &out, limit);
        if (res != 0) {
            int code = -1;
            const char *e = strstr(out.c_str(), "error code ");
            CHECK(e && sscanf(e, "error code %d", &code) == 1 && code == res,
                  "exit status %d but the program printed: %.200s", res, out.c_str());
            CHECK(strstr(out.c_str(), base()->error_as_string(-res)), "exit status %d but the program printed: %.200s", res, out.c_str());
            res = -res;
        } else {
            res = (int)p.to.size();
        }
    } else {
        FileLimit fl(limit);
        res = base()->seq_filenames(ffrom.c_str(), fpatch.c_str(), fto.c_str());
        check_code(base(), res, "apply by file names");
    }
    CHECK(open_files() == fd0, "files are left open");
    Bytes to, from2, patch2;
    if (must_fail) CHECK(res < 0, "%s: result is %d", what, res);
    if (judged_by_model && !must_fail) {
        // The file interface must decide as the low level functions do.
        SeqDev d;
        d.from = &from;
        d.strict = false;
        d.file_like = true;
        Obj o(base()->seq_size, 0);
        int low = base()->seq_init(o.p, seq_from_read, seq_from_seek, patch.size(), seq_to_write, &d);
        // Fed as the file interface does it: whether data after a complete
        // patch is noticed depends on the chunks.
        int err = 0;
        for (size_t at = 0; at < patch.size() && err == 0; at += piece)
            err = base()->seq_process(o.p, patch.data() + at, std::min<size_t>(piece, patch.size() - at));
        low = base()->seq_finalize(o.p);
        if (err < 0) low = err;
        if (cli) CHECK((res < 0) == (low < 0), "%s: the program returned %d, the low level functions %d", what, res, low);
        else CHECK(same_verdict(res, low), "%s: by file names %d, by the low level functions %d", what, res, low);
        if (low >= 0) {
            CHECK(read_file(fto, &to), "no to-file");
            compare_bytes(to, d.to, "to-file");
        }
        SeqDev e;
        e.from = &from;
        e.patch = &patch;
        e.strict = false;
        e.file_like = true;
        int mid = base()->seq_callbacks(seq_from_read, seq_from_seek, seq_patch_read, patch.size(), seq_to_write, &e);
        CHECK(same_verdict(mid, low), "%s: by callbacks %d, by the low level functions %d", what, mid, low);
        compare_bytes(e.to, d.to, "to-data by callbacks");
        c.label(low < 0 ? "refused by all" : "accepted by all");
    } else if (!must_fail) {
        CHECK(res == (int)p.to.size(), "%s: result %d (%s), expected %zu", what, res, base()->error_as_string(res), p.to.size());
        CHECK(read_file(fto, &to), "no to-file");
        compare_bytes(to, p.to, "to-file");
    }
    if (!other_from) { CHECK(read_file(ffrom, &from2) && from2 == from, "the from-file was modified"); }
    if (!other_patch) { CHECK(read_file(fpatch, &patch2) && patch2 == patch, "the patch file was modified"); }
    // The callbacks function on the undamaged patch.
    SeqDev d;
    d.from = &p.from;
    d.patch = &p.patch;
    d.to_limit = p.to.size();
    res = base()->seq_callbacks(seq_from_read, seq_from_seek, seq_patch_read, p.patch.size(), seq_to_write, &d);
    CHECK(res == (int)p.to.size(), "callbacks: result %d (%s), expected %zu", res, base()->error_as_string(res), p.to.size());
    compare_bytes(d.to, p.to, "to-data by callbacks");
    c.label(strf("seq %s%s", cli ? "cli " : "", what));
    c.nontrivial = p.to.size() > 1;
    c.summary = p.text() + strf(" files, fault: %s%s", what, cli ? ", command line" : "");
}

static void c09_in(Src &src, Case &c)
{
    const size_t piece = piece_size();
    Cfg cfg = pick_cfg(src);
    cfg.vt = base();
    InPatch p = gen_in(src, cfg.comp, src.below(10) == 9 ? (src.below(6) == 5 ? 150000 : 20000) : 1000);
    bool cli = src.below(8) == 7;
    bool steps = !cli && src.flip();
    u64 fault = src.below(15);
    const char *what = "none";
    std::string fmem = path_of("memory.bin"), fpatch = path_of("inpatch.bin");
    Bytes mem = gen_data(src, p.memory + (size_t)src.logsize(100));
    std::copy(p.from.begin(), p.from.end(), mem.begin());
    Bytes patch = p.patch;
    bool must_fail = false, judged_by_model = false;
    long limit = -1;
    unlink(fmem.c_str());
    unlink(fpatch.c_str());
    if (fault == 5) { what = "missing memory"; fmem = path_of("absent/m.bin"); must_fail = true; }
    else write_file(fmem, mem);
    Pipe pipe;
    if (fault == 6) { what = "missing patch"; must_fail = true; }
    else if (fault == 12) { what = "memory is a directory"; must_fail = true; fmem = path_of("."); write_file(fpatch, patch); }
    else if (fault == 13) { what = "patch is a directory"; must_fail = true; fpatch = path_of("."); }
    else if (fault == 14) { what = "patch is a pipe"; must_fail = true; fpatch = path_of("inpipe"); pipe.open(fpatch, patch); }
    else {
        if (fault == 7) { what = "cut header"; patch.resize((size_t)src.below(p.header.size())); must_fail = true; }
        if (fault == 8) { what = "cut patch"; patch.resize((size_t)src.below(patch.size())); judged_by_model = true; }
        if (fault == 9) { what = "damaged patch"; mutate_bytes(src, patch); judged_by_model = true; }
        if (fault == 10) {
            what = "cut memory";
            mem.resize((size_t)src.below(mem.size() + 1));
            write_file(fmem, mem);
            judged_by_model = true;
        }
        if (fault == 11 && p.to.size() >= 1) {
            what = "disk full";
            limit = (long)(src.flip() ? p.to.size() - 1 : src.below(p.to.size()));
            must_fail = true;
        }
        write_file(fpatch, patch);
        if (judged_by_model && patch.empty()) must_fail = true;
        if (judged_by_model) {
            RefResult r = ref_apply_in(patch, mem, 1 << 20);
            if (r.heavy || (r.header_ok && (r.memory > (1u << 20) || r.header_to > (1u << 20)))) {
                what = "none";
                judged_by_model = must_fail = false;
                patch = p.patch;
                write_file(fpatch, patch);
            }
        }
    }
    g_steps_store = 0;
    g_steps_calls = 0;
    g_steps_fail_at = -1;
    if (fault == 4 && steps && p.to.size() > 0) {
        what = "step store fails";
        g_steps_fail_at = 0;
    }
    int fd0 = open_files();
    int res;
    std::string out;
    if (cli) {
        std::vector<std::string> args = {"apply_patch_in_place", fmem, fpatch};
        res = run_cli(args, &out, limit);
        if (res) {
            CHECK(strstr(out.c_str(), "error"), "exit status %d without an error message: %.200s", res, out.c_str());
            res = -res;
        } else res = (int)p.to.size();
    } else {
        FileLimit fl(limit);
        res = base()->inp_filenames(fmem.c_str(), fpatch.c_str(), steps ? file_step_set : NULL, steps ? file_step_get : NULL);
        check_code(base(), res, "in-place apply by file names");
    }
    CHECK(open_files() == fd0, "files are left open");
    if (fault == 4 && steps && p.to.size() > 0) {
        CHECK(res < 0, "the step could not be stored but the result is %d", res);
        g_steps_fail_at = -1;
        res = base()->inp_filenames(fmem.c_str(), fpatch.c_str(), file_step_set, file_step_get);
    }
    if (must_fail) {
        CHECK(res < 0, "%s: result is %d", what, res);
        if (fault == 6 || fault == 7 || fault == 13 || fault == 14) {
            Bytes now;
            CHECK(read_file(fmem, &now) && now == mem, "%s: the memory file was modified", what);
        }
    } else if (judged_by_model) {
        // The other entry points on the same memory and patch.
        Bytes now;
        CHECK(read_file(fmem, &now), "no memory file");
        int step_by_file = g_steps_store;
        for (int way = 0; way < 2; way++) {
            MemDev d;
            d.mem = mem;
            d.file_like = true;
            d.flash = false;
            d.strict = false;
            d.patch = &patch;
            int low;
            if (way == 0) {
                Obj o(base()->inp_size, 0);
                base()->inp_init(o.p, mem_read, mem_write, mem_erase, steps ? mem_step_set : NULL,
                                 steps ? mem_step_get : NULL, patch.size(), &d);
                int err = 0;
                for (size_t at = 0; at < patch.size() && err == 0; at += piece)
                    err = base()->inp_process(o.p, patch.data() + at, std::min<size_t>(piece, patch.size() - at));
                low = base()->inp_finalize(o.p);
                if (err < 0) low = err;
            } else {
                low = base()->inp_callbacks(mem_read, mem_write, mem_erase, steps ? mem_step_set : NULL,
                                            steps ? mem_step_get : NULL, mem_patch_read, patch.size(), &d);
            }
            const char *name = way ? "the callbacks function" : "the low level functions";
            if (cli) CHECK((res < 0) == (low < 0), "%s: the program returned %d, %s %d", what, res, name, low);
            else CHECK(same_verdict(res, low), "%s: by file names %d, by %s %d", what, res, name, low);
            compare_bytes(now, d.mem, "memory file");
            if (steps) CHECK(step_by_file == d.step, "%s: stored step by file names %d, by %s %d", what, step_by_file, name, d.step);
        }
        c.label(res < 0 ? "refused by all" : "accepted by all");
    } else {
        CHECK(res == (int)p.to.size(), "%s: result %d (%s), expected %zu", what, res, base()->error_as_string(res), p.to.size());
        Bytes now;
        CHECK(read_file(fmem, &now), "no memory file");
        CHECK(now.size() == mem.size(), "the memory file changed size from %zu to %zu", mem.size(), now.size());
        compare_bytes(Bytes(now.begin(), now.begin() + (long)p.to.size()), p.to, "memory file");
        CHECK(std::equal(now.begin() + (long)p.memory, now.end(), mem.begin() + (long)p.memory), "the file was modified beyond the memory");
        if (steps && p.to.size()) CHECK(g_steps_store == 0, "stored step is %d after completion", g_steps_store);
        Bytes patch2;
        CHECK(read_file(fpatch, &patch2) && patch2 == patch, "the patch file was modified");
    }
    MemDev d;
    mem_setup(d, p, src, true);
    d.patch = &p.patch;
    res = base()->inp_callbacks(mem_read, mem_write, mem_erase, NULL, NULL, mem_patch_read, p.patch.size(), &d);
    CHECK(res == (int)p.to.size(), "callbacks: result %d (%s), expected %zu", res, base()->error_as_string(res), p.to.size());
    compare_bytes(Bytes(d.mem.begin(), d.mem.begin() + (long)p.to.size()), p.to, "memory by callbacks");
    c.label(strf("in-place %s%s", cli ? "cli " : "", what));
    c.nontrivial = p.to.size() > 1;
    c.summary = p.text() + strf(" files, fault: %s%s steps=%d", what, cli ? ", command line" : "", steps);
}

static void c09(Src &src, Case &c) { if (src.flip()) c09_in(src, c); else c09_seq(src, c); }

// ---------------------------------------------------------------------------
// C10: heatshrink decoder
// ---------------------------------------------------------------------------

static void c10(Src &src, Case &c)
{
    const struct vt *vt = src.chance(2, 3) ? dyn() : base();
    int window = 8, lookahead = 7;
    if (vt->dynamic) {
        window = (int)src.range(4, 15);
        lookahead = (int)src.range(3, (u64)window - 1);
    }
    u64 kind = src.below(3);
    Bytes bits, want;
    size_t max = pick_max(src, 80000, 200000);
    if (kind < 2) {
        Bytes data = gen_data(src, (size_t)src.logsize(max));
        bits = heatshrink_encode(src, data, window, lookahead, false);
        want = data;
    } else {
        bits = gen_data(src, (size_t)src.logsize(std::min<size_t>(max, 4000)));
        if (src.flip()) mutate_bytes(src, bits);
        want = ref_heatshrink(bits, window, lookahead, 4 << 20);
        if (want.size() >= (4u << 20)) { c.summary = "skipped: too large"; return; }
    }
    unsigned in_size = vt->dynamic ? (unsigned)src.range(1, src.flip() ? 1000 : 8) : 256;
    void *h = vt->hsd_new(in_size, (unsigned)window, (unsigned)lookahead);
    CHECK(h, "decoder allocation failed for window %d lookahead %d", window, lookahead);
    u64 in_style = src.below(4), out_style = src.below(4);
    size_t large_room = src.below(4) == 3 ? 100000 : 4096;
    bool drain = src.below(3) != 2;                             // or sink more before all was polled
    Rng r(src.seed());
    int rounds = src.below(4) == 3 ? 2 : 1;                     // reuse after reset
    for (int round = 0; round < rounds; round++) {
        if (round) {
            vt->hsd_reset(h);
        }
        Bytes got;
        size_t at = 0;
        size_t stop = round + 1 < rounds ? (size_t)r.below(bits.size() + 1) : bits.size();
        while (true) {
            if (at < stop) {
                size_t n = in_style == 0 ? 1 : in_style == 1 ? stop - at : 1 + (size_t)r.below(in_style == 2 ? 8 : 600);
                n = std::min(n, stop - at);
                Feed f(bits.data() + at, n);
                size_t used = 0x5555;
                int res = vt->hsd_sink(h, f.p, n, &used);
                CHECK(res >= 0, "sink returned %d", res);
                CHECK(used <= n, "sink of %zu bytes used %zu", n, used);
                if (res == 0) CHECK(used > 0, "sink used nothing but is not full");
                at += used;
            }
            int res;
            u64 polls = drain || at >= stop ? ~(u64)0 : r.below(4);
            res = 1;
            while (res == 1 && polls-- > 0) {
                size_t room = out_style == 0 ? 1 : out_style == 1 ? large_room : 1 + (size_t)r.below(out_style == 2 ? 8 : 300);
                u8 *buf = (u8 *)malloc(room);
                size_t n = 0x5555;
                res = vt->hsd_poll(h, buf, room, &n);
                CHECK(res >= 0, "poll returned %d", res);
                CHECK(n <= room, "poll into %zu bytes produced %zu", room, n);
                got.insert(got.end(), buf, buf + n);
                free(buf);
                CHECK(got.size() <= want.size() + 16 || kind == 2, "decoder produced %zu bytes, expected %zu", got.size(), want.size());
                if (got.size() > (5u << 20)) fail("decoder does not stop");
            }
            if (at >= stop && res != 1) break;
        }
        if (stop == bits.size()) {
            if (kind < 2) {
                // Padding bits may not yield output.
                compare_bytes(got, want, "decoded data");
            } else compare_bytes(got, want, "decoded bits");
            int fin = vt->hsd_finish(h);
            CHECK(fin == 0, "finish returned %d after everything was polled", fin);
        } else {
            Bytes part(bits.begin(), bits.begin() + (long)stop);
            Bytes ref = ref_heatshrink(part, window, lookahead, 4 << 20);
            compare_bytes(got, ref, "decoded prefix");
        }
    }
    vt->hsd_free(h);
    c.label(kind < 2 ? "encoded data" : "arbitrary bits");
    if (want.size() > 65536) c.label("output > 64 KiB");
    c.nontrivial = want.size() > 8 && bits.size() > 2;
    c.summary = strf("%s window=%d lookahead=%d input buffer=%u in=%zu out=%zu [%s]", kind < 2 ? "encoded" : "bits",
                     window, lookahead, in_size, bits.size(), want.size(), hexdump(bits, 32).c_str());
}

// ---------------------------------------------------------------------------
// C11: configurations
// ---------------------------------------------------------------------------

static bool supports(const struct vt *vt, int comp)
{
    switch (comp) {
    case COMP_NONE: return vt->has_none;
    case COMP_LZMA: return vt->has_lzma;
    case COMP_CRLE: return vt->has_crle;
    case COMP_HEATSHRINK: return vt->has_heatshrink;
    default: return false;
    }
}

static void c11(Src &src, Case &c)
{
    int comp = pick_comp(src);
    bool inplace = src.flip();
    bool other = src.below(4) == 3;                 // identifiers the C library does not know
    int window = 8, lookahead = 7;
    if (comp == COMP_HEATSHRINK && src.below(3) == 2) {
        window = (int)src.range(4, 15);
        lookahead = (int)src.range(3, (u64)window - 1);
    }
    SeqPatch s;
    InPatch m;
    Bytes patch;
    size_t to_size;
    if (inplace) {
        m = gen_in(src, comp, rarely(src, 600, 90000), window, lookahead);
        patch = m.patch;
        to_size = m.to.size();
    } else {
        s = gen_seq(src, comp, rarely(src, 900, 140000), window, lookahead);
        patch = s.patch;
        to_size = s.to.size();
    }
    int id = comp, type = inplace ? TYPE_INPLACE : TYPE_SEQ;
    const int BAD_TYPE = -3, BAD_COMP = -4, BAD_HS = -27;
    if (other) {
        if (src.flip()) {
            static const int unknown[] = {3, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15};
            id = unknown[src.below(12)];
        } else {
            do type = (int)src.below(8); while (type == (inplace ? TYPE_INPLACE : TYPE_SEQ) && src.pos < 100000);
        }
        if (src.flip()) type |= 8;                  // the top bit is not part of the type
        patch[0] = (u8)((type << 4) | id);
    }
    type &= 7;
    bool type_ok = type == (inplace ? TYPE_INPLACE : TYPE_SEQ);
    // Most builds get the patch at once or in the same pieces.
    std::vector<size_t> others = patch.size() > 20000 || src.below(4) == 3 ? gen_chunks(src, patch.size()) : std::vector<size_t>(1, patch.size());
    for (size_t i = 0; i < g_nvts; i++) {
        const struct vt *vt = g_vts[i];
        std::vector<size_t> chunks = i < 2 ? gen_chunks(src, patch.size()) : others;
        int expect;
        if (!type_ok) expect = BAD_TYPE;
        else if (!supports(vt, id)) expect = BAD_COMP;
        else if (comp == COMP_HEATSHRINK && id == comp && !vt->dynamic && (window != 8 || lookahead != 7) && to_size > 0) expect = BAD_HS;
        else expect = (int)to_size;
        int res, fin;
        Bytes got;
        vt_alloc_reset(-1);
        if (inplace) {
            MemDev d;
            d.mem.assign(m.memory, 0x11);
            std::copy(m.from.begin(), m.from.end(), d.mem.begin());
            d.erased.assign(m.memory, 0);
            Bytes before = d.mem;
            Obj o(vt->inp_size, gen_fill(src));
            vt->inp_init(o.p, mem_read, mem_write, mem_erase, NULL, NULL, patch.size(), &d);
            size_t at = 0;
            res = 0;
            for (size_t n : chunks) { res = vt->inp_process(o.p, patch.data() + at, n); at += n; if (res) break; }
            fin = vt->inp_finalize(o.p);
            if (expect == BAD_TYPE || expect == BAD_COMP) CHECK(d.mem == before, "%s: a rejected patch modified the memory", vt->name);
            got.assign(d.mem.begin(), d.mem.begin() + (long)std::min(to_size, d.mem.size()));
        } else {
            SeqDev d;
            d.from = &s.from;
            d.to_limit = to_size;
            Obj o(vt->seq_size, gen_fill(src));
            vt->seq_init(o.p, seq_from_read, seq_from_seek, patch.size(), seq_to_write, &d);
            size_t at = 0;
            res = 0;
            for (size_t n : chunks) { res = vt->seq_process(o.p, patch.data() + at, n); at += n; if (res) break; }
            fin = vt->seq_finalize(o.p);
            if (expect == BAD_TYPE || expect == BAD_COMP) CHECK(d.writes == 0, "%s: a rejected patch produced output", vt->name);
            got = d.to;
        }
        if (expect < 0) {
            CHECK(res == expect, "build %s, patch type %d compression %d: process returned %d (%s), expected %d (%s)", vt->name, type, id,
                  res, vt->error_as_string(res), expect, vt->error_as_string(expect));
            CHECK(fin < 0, "build %s: finalize returned %d after the patch was rejected", vt->name, fin);
        } else {
            CHECK(res == 0 && fin == expect, "build %s: process returned %d (%s), finalize %d, expected %d", vt->name, res, vt->error_as_string(res), fin, expect);
            compare_bytes(got, inplace ? m.to : s.to, vt->name);
        }
        CHECK(vt_alloc_live == 0 && vt_lzma_live == 0, "build %s leaves memory allocated", vt->name);
    }
    c.label(strf("%s %s", inplace ? "in-place" : "sequential", other ? "foreign identifiers" : comp_name(comp)));
    c.nontrivial = other || to_size > 1;
    c.summary = (inplace ? m.text() : s.text()) + strf(" header byte %02x on %zu builds", patch[0], g_nvts);
}

// ---------------------------------------------------------------------------
// C12: memory allocation failures and release
// ---------------------------------------------------------------------------

static void c12(Src &src, Case &c)
{
    Cfg cfg;
    cfg.vt = dyn();
    cfg.comp = src.chance(1, 3) ? COMP_HEATSHRINK : COMP_LZMA;
    if (cfg.comp == COMP_HEATSHRINK) { cfg.window = (int)src.range(4, 15); cfg.lookahead = (int)src.range(3, (u64)cfg.window - 1); }
    else if (src.below(10) == 9) cfg.comp = src.flip() ? COMP_NONE : COMP_CRLE;
    bool inplace = src.flip();
    SeqPatch s;
    InPatch m;
    size_t max = src.below(8) == 7 ? 5000 : 400;
    if (inplace) m = gen_in(src, cfg.comp, max, cfg.window, cfg.lookahead);
    else s = gen_seq(src, cfg.comp, max, cfg.window, cfg.lookahead);
    const Bytes &patch = inplace ? m.patch : s.patch;
    const Bytes &to = inplace ? m.to : s.to;
    std::vector<size_t> chunks = gen_chunks(src, patch.size(), false);
    size_t abandon = src.flip() ? (size_t)src.below(chunks.size() + 1) : chunks.size();
    long total = 0;
    u64 faults = 0;
    bool more = true;
    for (long k = -1; more; k++) {
        vt_alloc_reset(k);
        vt_alloc_fail_on = k >= 0 && src.below(3) == 2;
        int res, err = 0;
        Bytes got;
        size_t upto = k < 0 ? chunks.size() : chunks.size();
        if (inplace) {
            MemDev d;
            Src none = Src::from_values({});
            mem_setup(d, m, none, true);
            Obj o(cfg.vt->inp_size, 0xff);
            cfg.vt->inp_init(o.p, mem_read, mem_write, mem_erase, NULL, NULL, patch.size(), &d);
            size_t at = 0;
            for (size_t i = 0; i < upto; i++) { Feed f(patch.data() + at, chunks[i]); err = cfg.vt->inp_process(o.p, f.p, chunks[i]); at += chunks[i]; if (err) break; }
            res = cfg.vt->inp_finalize(o.p);
            got.assign(d.mem.begin(), d.mem.begin() + (long)to.size());
        } else {
            SeqDev d;
            d.from = &s.from;
            d.to_limit = to.size();
            Obj o(cfg.vt->seq_size, 0xff);
            cfg.vt->seq_init(o.p, seq_from_read, seq_from_seek, patch.size(), seq_to_write, &d);
            size_t at = 0;
            for (size_t i = 0; i < upto; i++) { Feed f(patch.data() + at, chunks[i]); err = cfg.vt->seq_process(o.p, f.p, chunks[i]); at += chunks[i]; if (err) break; }
            res = cfg.vt->seq_finalize(o.p);
            got = d.to;
        }
        if (err) res = err;
        CHECK(vt_alloc_live == 0, "%ld blocks are left allocated after finalize (allocation failure %ld)", vt_alloc_live, k);
        CHECK(vt_lzma_live == 0, "%ld lzma streams are left after finalize (allocation failure %ld)", vt_lzma_live, k);
        CHECK(vt_alloc_bad == 0, "a block was freed twice (allocation failure %ld)", k);
        if (k < 0) {
            CHECK(res == (int)to.size(), "result %d (%s), expected %zu", res, cfg.vt->error_as_string(res), to.size());
            total = vt_alloc_count;
        } else if (vt_alloc_count > k) {
            faults++;
            // The allocation was refused: an error, or nothing but success.
            CHECK(res < 0 || (res == (int)to.size() && got == to), "allocation %ld failed, result is %d", k, res);
            if (vt_alloc_fail_on) c.label("all later allocations fail as well");
            if (res < 0) c.label(strf("error %d", -res));
        }
        if (k + 1 >= total || k >= 150) more = false;
    }
    // Giving up halfway, after a callback that fails or with a damaged patch,
    // releases everything as well.
    for (int round = 0; round < 3; round++) {
        static const char *const kinds[] = {"giving up", "a failing callback", "a damaged patch"};
        SeqDev d;
        MemDev e;
        Bytes data = patch;
        size_t at = 0, upto = round == 0 ? abandon : chunks.size();
        long long fail_at = round == 1 ? (long long)src.below(src.flip() ? 8 : 60) : -1;
        int err = 0;
        if (round == 2) mutate_bytes(src, data, src.flip() ? 1 : 0);
        if (round == 2) { chunks = gen_chunks(src, data.size(), false); upto = chunks.size(); }
        vt_alloc_reset(-1);
        if (inplace) {
            mem_setup(e, m, src, true);
            e.strict = round != 2;
            if (round == 2) e.flash = false;
            e.fail_op = fail_at;
            Obj o(cfg.vt->inp_size, 0xff);
            cfg.vt->inp_init(o.p, mem_read, mem_write, mem_erase, NULL, NULL, data.size(), &e);
            for (size_t i = 0; i < upto && (err >= 0 || round == 0); i++) { Feed f(data.data() + at, chunks[i]); err = cfg.vt->inp_process(o.p, f.p, chunks[i]); at += chunks[i]; }
            err = cfg.vt->inp_finalize(o.p);
        } else {
            d.from = &s.from;
            d.strict = round != 2;
            d.fail_call = fail_at;
            Obj o(cfg.vt->seq_size, 0xff);
            cfg.vt->seq_init(o.p, seq_from_read, seq_from_seek, data.size(), seq_to_write, &d);
            for (size_t i = 0; i < upto && (err >= 0 || round == 0); i++) { Feed f(data.data() + at, chunks[i]); err = cfg.vt->seq_process(o.p, f.p, chunks[i]); at += chunks[i]; }
            err = cfg.vt->seq_finalize(o.p);
        }
        if (round == 1 && (inplace ? e.failed : d.failed)) c.label("callback fails");
        CHECK(vt_alloc_live == 0 && vt_lzma_live == 0 && vt_alloc_bad == 0, "finalize after %s (%zu of %zu bytes) leaves memory allocated (%ld blocks, %ld streams, %ld bad)",
              kinds[round], at, data.size(), vt_alloc_live, vt_lzma_live, vt_alloc_bad);
    }
    c.label(comp_name(cfg.comp));
    c.nontrivial = faults > 0;
    c.summary = (inplace ? m.text() : s.text()) + strf(" allocations=%ld faults=%llu", total, (unsigned long long)faults);
}

// ---------------------------------------------------------------------------
// C13: independent contexts
// ---------------------------------------------------------------------------

struct Ctx {
    bool inplace;
    bool whole = false;         // applied by one call of the callback functions
    Cfg cfg;
    SeqPatch s;
    InPatch m;
    SeqDev sd;
    MemDev md;
    Obj *o = nullptr;
    std::vector<size_t> chunks;
    size_t next = 0, at = 0;
    bool started = false;
    bool finished = false;
    int again = 0;              // times to apply once more, in the same place
    MemDev md0;                 // the memory before
    bool busy = false;          // inside of a call of the library
    u8 fill = 0;
    const Bytes &patch() const { return inplace ? m.patch : s.patch; }
    size_t to_size() const { return inplace ? m.to.size() : s.to.size(); }
};

// Called before and after what a callback does.  May run other contexts.
static std::function<void()> g_inside;

#define INSIDE(call) if (g_inside) g_inside(); int res = (call); if (g_inside) g_inside(); return res
static int w_from_read(void *a, uint8_t *b, size_t n) { INSIDE(seq_from_read(a, b, n)); }
static int w_from_seek(void *a, int o) { INSIDE(seq_from_seek(a, o)); }
static int w_to_write(void *a, const uint8_t *b, size_t n) { INSIDE(seq_to_write(a, b, n)); }
static int w_patch_read(void *a, uint8_t *b, size_t n) { INSIDE(seq_patch_read(a, b, n)); }
static int w_mem_read(void *a, void *d, uintptr_t s, size_t n) { INSIDE(mem_read(a, d, s, n)); }
static int w_mem_write(void *a, uintptr_t d, void *s, size_t n) { INSIDE(mem_write(a, d, s, n)); }
static int w_mem_erase(void *a, uintptr_t d, size_t n) { INSIDE(mem_erase(a, d, n)); }
static int w_mem_patch_read(void *a, uint8_t *b, size_t n) { INSIDE(mem_patch_read(a, b, n)); }
static int w_step_set(void *a, int s) { INSIDE(mem_step_set(a, s)); }
static int w_step_get(void *a, int *s) { INSIDE(mem_step_get(a, s)); }

// Does the next call of a context.
static void ctx_step(Ctx &x, size_t i, size_t n)
{
    const vt &v = *x.cfg.vt;
    int res;
    x.busy = true;
    if (x.whole) {
        if (x.inplace) {
            x.md.patch = &x.m.patch;
            res = v.inp_callbacks(w_mem_read, w_mem_write, w_mem_erase, w_step_set, w_step_get, w_mem_patch_read, x.patch().size(), &x.md);
        } else {
            x.sd.patch = &x.s.patch;
            res = v.seq_callbacks(w_from_read, w_from_seek, w_patch_read, x.patch().size(), w_to_write, &x.sd);
        }
        CHECK(res == (int)x.to_size(), "context %zu of %zu: the callback function returned %d (%s), expected %zu", i, n, res, v.error_as_string(res), x.to_size());
        x.finished = true;
    } else if (!x.started) {
        // Also in the memory of a context that is done with.
        if (!x.o) x.o = new Obj(x.inplace ? v.inp_size : v.seq_size, x.fill);
        x.started = true;
        if (x.inplace) v.inp_init(x.o->p, w_mem_read, w_mem_write, w_mem_erase, w_step_set, w_step_get, x.patch().size(), &x.md);
        else v.seq_init(x.o->p, w_from_read, w_from_seek, x.patch().size(), w_to_write, &x.sd);
    } else if (x.next < x.chunks.size()) {
        size_t k = x.chunks[x.next++];
        Feed f(x.patch().data() + x.at, k);
        res = x.inplace ? v.inp_process(x.o->p, f.p, k) : v.seq_process(x.o->p, f.p, k);
        CHECK(res == 0, "context %zu of %zu: process at %zu returned %d (%s)", i, n, x.at, res, v.error_as_string(res));
        x.at += k;
    } else {
        res = x.inplace ? v.inp_finalize(x.o->p) : v.seq_finalize(x.o->p);
        CHECK(res == (int)x.to_size(), "context %zu of %zu: finalize returned %d (%s), expected %zu", i, n, res, v.error_as_string(res), x.to_size());
        x.finished = true;
    }
    x.busy = false;
    if (x.finished) {
        if (x.inplace) compare_bytes(Bytes(x.md.mem.begin(), x.md.mem.begin() + (long)x.m.to.size()), x.m.to, "memory of an interleaved context");
        else compare_bytes(x.sd.to, x.s.to, "to-data of an interleaved context");
        if (x.again > 0) {
            // Once more, with the same arguments.
            x.again--;
            x.md = x.md0;
            x.sd = SeqDev();
            x.sd.from = &x.s.from;
            x.sd.to_limit = x.s.to.size();
            x.next = x.at = 0;
            x.started = x.finished = false;
        } else {
            delete x.o;
            x.o = nullptr;
        }
    }
}

// Threads of which one runs at a time, the others wait for their turn.
struct Turns {
    pthread_mutex_t mutex = PTHREAD_MUTEX_INITIALIZER;
    std::vector<pthread_cond_t> conds;
    size_t turn = 0;
    explicit Turns(size_t n) : conds(n) { for (auto &x : conds) pthread_cond_init(&x, NULL); }
    void wait(size_t me) { pthread_mutex_lock(&mutex); while (turn != me) pthread_cond_wait(&conds[me], &mutex); pthread_mutex_unlock(&mutex); }
    void give(size_t to) { pthread_mutex_lock(&mutex); turn = to; pthread_cond_signal(&conds[to]); pthread_mutex_unlock(&mutex); }
};

struct ThreadArg { std::vector<Ctx> *v; size_t me; Turns *turns; std::function<size_t()> *pick; };

static void *ctx_thread(void *p)
{
    ThreadArg *a = (ThreadArg *)p;
    Ctx &x = (*a->v)[a->me];
    a->turns->wait(a->me);
    while (!x.finished) {
        ctx_step(x, a->me, a->v->size());
        if (!x.finished) {
            size_t to = (*a->pick)();
            if (to != a->me) { a->turns->give(to); a->turns->wait(a->me); }
        }
    }
    a->turns->give((*a->pick)());       // the number of contexts when all are done
    return NULL;
}

static void c13(Src &src, Case &c)
{
    size_t n = (size_t)src.range(2, 5);
    // How contexts are switched: between calls, also nested inside of
    // callbacks, or at any callback (threads).
    static const char *const modes[] = { "between calls", "nested in callbacks", "at any callback" };
    u64 mode = src.below(3);
    std::vector<Ctx> v(n);
    std::string t;
    int same = src.flip() ? pick_comp(src) : -1;
    for (auto &x : v) {
        x.cfg = pick_cfg(src);
        if (same >= 0) {
            x.cfg.comp = same;
            x.cfg.vt = base();
            x.cfg.window = 8;
            x.cfg.lookahead = 7;
        }
        x.inplace = src.below(3) == 2;
        if (x.inplace) x.m = gen_in(src, x.cfg.comp, rarely(src, 500, 90000), x.cfg.window, x.cfg.lookahead);
        else x.s = gen_seq(src, x.cfg.comp, src.below(10) == 9 ? rarely(src, 6000, 140000) : 600, x.cfg.window, x.cfg.lookahead);
        x.chunks = gen_chunks(src, x.patch().size());
        if (x.chunks.size() > 3000) x.chunks.assign(1, x.patch().size());
        x.whole = src.below(4) == 3;
        t += (x.inplace ? x.m.text() : x.s.text()).substr(0, 90) + "; ";
    }
    for (auto &x : v) {
        if (x.inplace) mem_setup(x.md, x.m, src, true);
        else { x.sd.from = &x.s.from; x.sd.to_limit = x.s.to.size(); }
        x.fill = (u8)src.below(256);
        x.md0 = x.md;
        x.again = src.below(4) == 3 ? (int)src.range(1, 3) : 0;
    }
    Rng r(src.seed());
    // Large patches have many callbacks: switch less often.
    size_t work = 0;
    for (auto &x : v) work += x.patch().size() + x.to_size();
    u64 rate = 1 + work / (mode == 1 ? 1500 : 4000);
    size_t switches = 0, inside = 0, last = n;
    u64 style = src.below(3);
    size_t rr = 0;
    std::vector<size_t> free_ones;
    if (mode == 2) {
        Turns turns(n + 1);
        size_t current = 0;
        std::function<size_t()> pick = [&]() {
            free_ones.clear();
            for (size_t i = 0; i < n; i++) if (!v[i].finished) free_ones.push_back(i);
            size_t to = free_ones.empty() ? n : style == 0 ? free_ones[rr++ % free_ones.size()] : free_ones[r.below(free_ones.size())];
            if (to != current) switches++;
            current = to;
            return to;
        };
        g_inside = [&]() {
            if (r.below(rate)) return;
            size_t me = current, to = pick();
            if (to != me) { inside++; turns.give(to); turns.wait(me); }
        };
        std::vector<pthread_t> threads(n);
        std::vector<ThreadArg> args(n);
        turns.turn = n;
        for (size_t i = 0; i < n; i++) {
            args[i] = ThreadArg{ &v, i, &turns, &pick };
            CHECK(pthread_create(&threads[i], NULL, ctx_thread, &args[i]) == 0, "no thread");
        }
        current = n;
        turns.give(pick());
        turns.wait(n);
        for (auto &x : threads) pthread_join(x, NULL);
        g_inside = nullptr;
    } else {
        size_t depth = 0;
        if (mode == 1)
            g_inside = [&]() {
                if (depth >= n || r.below(rate)) return;
                free_ones.clear();
                for (size_t i = 0; i < n; i++) if (!v[i].finished && !v[i].busy) free_ones.push_back(i);
                if (free_ones.empty()) return;
                size_t i = free_ones[r.below(free_ones.size())];
                inside++;
                depth++;
                ctx_step(v[i], i, n);
                depth--;
            };
        for (;;) {
            free_ones.clear();
            for (size_t i = 0; i < n; i++) if (!v[i].finished) free_ones.push_back(i);
            if (free_ones.empty()) break;
            size_t i = style == 0 ? free_ones[rr++ % free_ones.size()] : free_ones[r.below(free_ones.size())];
            if (i != last) { switches++; last = i; }
            int burst = style == 2 ? 1 + (int)r.below(4) : 1;
            while (burst-- && !v[i].finished) ctx_step(v[i], i, n);
        }
        g_inside = nullptr;
    }
    c.label(strf("%zu contexts", n));
    c.label(modes[mode]);
    if (inside) c.label("switched inside of a call");
    c.nontrivial = switches + inside > n + 1;
    c.summary = strf("%zu contexts, %s, %zu switches, %zu inside of calls: ", n, modes[mode], switches, inside) + t;
}

// ---------------------------------------------------------------------------
// C14: little memory
// ---------------------------------------------------------------------------

static void c14(Src &src, Case &c)
{
    Cfg cfg = pick_cfg(src);
    bool inplace = src.below(3) == 2;
    SeqPatch s;
    InPatch m;
    size_t max = src.below(8) == 7 ? rarely(src, 8000, 140000) : 500;
    if (inplace) m = gen_in(src, cfg.comp, max, cfg.window, cfg.lookahead);
    else s = gen_seq(src, cfg.comp, max, cfg.window, cfg.lookahead);
    const Bytes &patch = inplace ? m.patch : s.patch;
    size_t to_size = inplace ? m.to.size() : s.to.size();
    std::vector<size_t> chunks = gen_chunks(src, patch.size());
    size_t largest = 0;
    // With the low level functions, or with pieces of the library's choice.
    bool callbacks = src.below(4) == 3;
    int res = 0;
    vt_alloc_reset(-1);
    if (callbacks) {
        largest = 4096;
        if (inplace) {
            MemDev d;
            mem_setup(d, m, src, true);
            d.patch = &patch;
            res = cfg.vt->inp_callbacks(mem_read, mem_write, mem_erase, mem_step_set, mem_step_get, mem_patch_read, patch.size(), &d);
        } else {
            SeqDev d;
            d.from = &s.from;
            d.to_limit = to_size;
            d.patch = &patch;
            res = cfg.vt->seq_callbacks(seq_from_read, seq_from_seek, seq_patch_read, patch.size(), seq_to_write, &d);
        }
    } else {
        MemDev d;
        SeqDev e;
        if (inplace) mem_setup(d, m, src, true);
        e.from = &s.from;
        e.to_limit = to_size;
        Obj o(inplace ? cfg.vt->inp_size : cfg.vt->seq_size, gen_fill(src));
        if (inplace) cfg.vt->inp_init(o.p, mem_read, mem_write, mem_erase, mem_step_set, mem_step_get, patch.size(), &d);
        else cfg.vt->seq_init(o.p, seq_from_read, seq_from_seek, patch.size(), seq_to_write, &e);
        size_t at = 0;
        for (size_t n : chunks) {
            Feed f(patch.data() + at, n);
            res = inplace ? cfg.vt->inp_process(o.p, f.p, n) : cfg.vt->seq_process(o.p, f.p, n);
            CHECK(res == 0, "process at %zu returned %d (%s)", at, res, cfg.vt->error_as_string(res));
            at += n;
            largest = std::max(largest, n);
        }
        res = inplace ? cfg.vt->inp_finalize(o.p) : cfg.vt->seq_finalize(o.p);
    }
    CHECK(res == (int)to_size, "result %d (%s), expected %zu", res, cfg.vt->error_as_string(res), to_size);
    long bound = 0;
    if (cfg.comp == COMP_HEATSHRINK && cfg.vt->dynamic) bound = (1L << cfg.window) + 512;
    else if (cfg.comp == COMP_LZMA) bound = 2 * (long)largest + 1024;
    CHECK(vt_alloc_peak <= bound, "%s: %ld bytes are allocated at once for pieces of at most %zu bytes, the limit is %ld",
          comp_name(cfg.comp), vt_alloc_peak, largest, bound);
    if (bound == 0) CHECK(vt_alloc_count == 0, "%s: %ld allocations", comp_name(cfg.comp), vt_alloc_count);
    c.label(comp_name(cfg.comp));
    if (callbacks) c.label("callbacks");
    c.nontrivial = to_size > 300 || vt_alloc_peak > 0;
    c.summary = (inplace ? m.text() : s.text()) + strf(" largest piece=%zu peak=%ld", largest, vt_alloc_peak);
}

const char *g_cli_path = getenv("VT_CLI") ? getenv("VT_CLI") : "./detools-cli";

const Prop g_props[] = {
    {"C01", "sequential", c01_all, 60},
    {"C02", "inplace", c02, 60},
    {"C03", "resume", c03, 60},
    {"C04", "dump", c04, 60},
    {"C05", "corrupt-seq", c05, 60},
    {"C06", "corrupt-inplace", c06, 60},
    {"C07", "cut", c07, 60},
    {"C08", "faults", c08, 60},
    {"C09", "files", c09, 60},
    {"C10", "heatshrink", c10, 60},
    {"C11", "configs", c11, 60},
    {"C12", "alloc", c12, 60},
    {"C13", "interleave", c13, 60},
    {"C14", "memory", c14, 60},
};
const size_t g_nprops = sizeof(g_props) / sizeof(g_props[0]);
