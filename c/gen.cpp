#include "gen.hpp"

const char *comp_name(int c)
{
    switch (c) {
    case COMP_NONE: return "none";
    case COMP_LZMA: return "lzma";
    case COMP_CRLE: return "crle";
    case COMP_HEATSHRINK: return "heatshrink";
    default: return "?";
    }
}

const struct vt *vt_named(const char *name)
{
    for (size_t i = 0; i < g_nvts; i++)
        if (!strcmp(g_vts[i]->name, name)) return g_vts[i];
    fail("no variant %s", name);
}

u8 gen_fill(Src &src)
{
    static const u8 f[] = {0x00, 0xff, 0xa5, 0x01};
    return f[src.below(4)];
}

Bytes gen_data(Src &src, size_t size)
{
    Bytes b(size);
    u64 kind = src.below(8);
    switch (kind) {
    case 0:                                     // constant
        std::fill(b.begin(), b.end(), (u8)src.below(256));
        break;
    case 1: {                                   // random
        Rng r(src.seed());
        for (auto &x : b) x = (u8)r.next();
        break;
    }
    case 2: {                                   // small alphabet
        u64 n = src.range(2, 6);
        Rng r(src.seed());
        for (auto &x : b) x = (u8)(r.below(n));
        break;
    }
    case 3: {                                   // periodic
        u64 p = src.range(1, 300);
        Rng r(src.seed());
        for (size_t i = 0; i < size; i++) b[i] = i < p ? (u8)r.next() : b[i - p];
        break;
    }
    case 4: {                                   // runs
        Rng r(src.seed());
        size_t i = 0;
        while (i < size) {
            size_t n = 1 + r.below(1u << r.below(11));
            u8 v = (u8)r.below(4) * 85;
            for (; n && i < size; n--) b[i++] = v;
        }
        break;
    }
    case 5: {                                   // copies of itself with edits
        Rng r(src.seed());
        size_t i = 0;
        while (i < size) {
            size_t n = 1 + r.below(200);
            if (i > 8 && r.below(3)) {
                size_t o = r.below(i);
                for (; n && i < size; n--) b[i++] = b[o++];
            } else {
                for (; n && i < size; n--) b[i++] = (u8)r.next();
            }
        }
        break;
    }
    case 6: {                                   // firmware like words
        Rng r(src.seed());
        for (size_t i = 0; i < size; i++)
            b[i] = (i & 3) == 3 ? 0x08 : (i & 3) == 2 ? (u8)r.below(3) : (u8)r.next();
        break;
    }
    default: {                                  // erased flash with islands
        Rng r(src.seed());
        std::fill(b.begin(), b.end(), 0xff);
        for (size_t i = 0; i < size; i += 1 + r.below(300)) b[i] = (u8)r.next();
        break;
    }
    }
    return b;
}

void put_size(Bytes &out, long long v)
{
    bool neg = v < 0;
    u64 m = neg ? (u64)(-v) : (u64)v;
    u8 first = (u8)(m & 0x3f) | (neg ? 0x40 : 0);
    m >>= 6;
    if (m) first |= 0x80;
    out.push_back(first);
    while (m) {
        u8 b = (u8)(m & 0x7f);
        m >>= 7;
        if (m) b |= 0x80;
        out.push_back(b);
    }
}

void put_usize(Bytes &out, u64 v)
{
    do {
        u8 b = (u8)(v & 0x7f);
        v >>= 7;
        if (v) b |= 0x80;
        out.push_back(b);
    } while (v);
}

Bytes crle_encode(Src &src, const Bytes &in)
{
    Bytes out;
    u64 policy = src.below(4);
    u64 min_run = policy == 0 ? 6 : src.range(1, 40);
    u64 max_scatter = policy == 2 ? src.range(1, 300) : (u64)-1;
    u64 max_run = policy == 3 ? src.range(1, 300) : (u64)-1;
    size_t i = 0, start = 0;
    auto scatter = [&](size_t a, size_t b) {
        while (a < b) {
            size_t n = (size_t)std::min<u64>(b - a, max_scatter);
            out.push_back(0);
            put_usize(out, n);
            out.insert(out.end(), in.begin() + (long)a, in.begin() + (long)(a + n));
            a += n;
        }
    };
    while (i < in.size()) {
        size_t j = i + 1;
        while (j < in.size() && in[j] == in[i]) j++;
        if (j - i >= min_run) {
            scatter(start, i);
            while (i < j) {
                u64 n = std::min<u64>(j - i, max_run);
                out.push_back(1);
                put_usize(out, n);
                out.push_back(in[i]);
                i += n;
            }
            start = i;
        }
        i = j;
    }
    scatter(start, in.size());
    return out;
}

struct BitOut {
    Bytes out;
    int n = 0;
    u8 cur = 0;
    void put(u32 v, int bits)
    {
        for (int i = bits - 1; i >= 0; i--) {
            cur = (u8)((cur << 1) | ((v >> i) & 1));
            if (++n == 8) { out.push_back(cur); n = 0; cur = 0; }
        }
    }
    void flush() { if (n) { out.push_back((u8)(cur << (8 - n))); n = 0; cur = 0; } }
};

Bytes heatshrink_encode(Src &src, const Bytes &in, int window, int lookahead, bool header)
{
    BitOut o;
    u64 lit_pct = src.below(4) == 0 ? src.below(101) : 10;
    u64 min_match = src.range(1, 5);
    bool vary = src.flip();
    Rng r(src.seed());
    size_t W = (size_t)1 << window, L = (size_t)1 << lookahead;
    std::vector<int> head(1 << 16, -1);
    std::vector<int> prev(in.size(), -1);
    auto hash = [&](size_t i) { return ((u32)in[i] * 2654435761u ^ (u32)in[i + 1] * 40503u ^ (u32)in[i + 2] * 97u) & 0xffff; };
    if (header) o.out.push_back((u8)(((window - 4) << 4) | (lookahead - 3)));
    size_t i = 0;
    auto index = [&](size_t k) {
        if (k + 2 < in.size()) { u32 h = hash(k); prev[k] = head[h]; head[h] = (int)k; }
    };
    while (i < in.size()) {
        size_t best = 0, off = 0;
        if (r.below(100) >= lit_pct) {
            // nearby candidates, then the hash chain
            for (size_t d = 1; d <= 4 && d <= i && d <= W; d++) {
                size_t n = 0;
                while (n < L && i + n < in.size() && in[i + n] == in[i + n - d]) n++;
                if (n > best) { best = n; off = d; }
            }
            if (i + 2 < in.size()) {
                int c = head[hash(i)];
                for (int tries = 0; c >= 0 && tries < 16; tries++, c = prev[(size_t)c]) {
                    size_t d = i - (size_t)c;
                    if (d > W) break;
                    size_t n = 0;
                    while (n < L && i + n < in.size() && in[i + n] == in[i + n - d]) n++;
                    if (n > best || (n == best && vary && r.below(2))) { best = n; off = d; }
                }
            }
        }
        if (best >= min_match) {
            if (vary && best > 1 && r.below(4) == 0) best = 1 + r.below(best);
            o.put(0, 1);
            o.put((u32)(off - 1), window);
            o.put((u32)(best - 1), lookahead);
            for (size_t k = 0; k < best; k++) index(i + k);
            i += best;
        } else {
            o.put(1, 1);
            o.put(in[i], 8);
            index(i);
            i++;
        }
    }
    o.flush();
    return o.out;
}

Bytes lzma_encode(Src &src, const Bytes &in)
{
    lzma_stream s = LZMA_STREAM_INIT;
    lzma_options_lzma opt;
    lzma_lzma_preset(&opt, 1);
    u64 mode = src.below(4);
    opt.dict_size = 1u << 16;
    if (mode != 0) {
        opt.dict_size = 1u << src.range(12, 20);
        opt.lc = (u32)src.below(5);
        opt.lp = (u32)src.below(5 - opt.lc);
        opt.pb = (u32)src.below(5);
        opt.mode = src.flip() ? LZMA_MODE_NORMAL : LZMA_MODE_FAST;
        opt.nice_len = (u32)src.range(8, 273);
        opt.mf = src.flip() ? LZMA_MF_BT4 : LZMA_MF_HC4;
        opt.depth = (u32)src.below(20);
    }
    if (lzma_alone_encoder(&s, &opt) != LZMA_OK) fail("harness: lzma encoder");
    Bytes out(in.size() + in.size() / 2 + 4096);
    s.next_in = in.data();
    s.avail_in = in.size();
    s.next_out = out.data();
    s.avail_out = out.size();
    if (lzma_code(&s, LZMA_FINISH) != LZMA_STREAM_END) fail("harness: lzma encode");
    out.resize(out.size() - s.avail_out);
    lzma_end(&s);
    return out;
}

Bytes compress(Src &src, int comp, const Bytes &in, int window, int lookahead)
{
    switch (comp) {
    case COMP_NONE: return in;
    case COMP_LZMA: return lzma_encode(src, in);
    case COMP_CRLE: return crle_encode(src, in);
    case COMP_HEATSHRINK: return heatshrink_encode(src, in, window, lookahead, true);
    default: fail("harness: compression");
    }
}

static void gen_noise(Src &src, Bytes &diff)
{
    u64 kind = src.below(5);
    if (kind == 0 || diff.empty()) return;                      // exact copy
    if (kind == 4) { std::fill(diff.begin(), diff.end(), (u8)src.below(256)); return; }
    Rng r(src.seed());
    if (kind == 1)
        for (size_t n = 0; n < 1 + diff.size() / 64; n++) diff[r.below(diff.size())] = (u8)r.next();
    else if (kind == 2)
        for (auto &x : diff) x = (u8)r.next();
    else
        for (size_t i = 0; i < diff.size(); i += 4) diff[i] = (u8)r.below(8);
}

std::string SeqPatch::text() const
{
    return strf("sequential/%s from=%zu to=%zu ops=%d patch=%zu [%s]", comp_name(comp),
                from.size(), to.size(), nops, patch.size(), hexdump(patch, 40).c_str());
}

SeqPatch gen_seq(Src &src, int comp, size_t max_size, int window, int lookahead)
{
    SeqPatch p;
    p.comp = comp;
    // A large case is mostly large.
    bool large = max_size > 60000 && src.below(3) != 0;
    p.from = gen_data(src, large && src.flip() ? src.range(max_size / 2, max_size) : src.logsize(max_size));
    size_t nops = (size_t)src.range(1, 1 + src.logsize(12));
    long long pos = 0;
    Bytes body;
    put_size(body, 0);                                          // no data format patch
    size_t budget = (size_t)(large ? src.range(max_size / 2, max_size) : src.logsize(max_size));
    if (budget == 0 && src.below(4)) budget = 1 + src.below(100);
    size_t done_ops = 0;
    for (size_t op = 0; op < nops; op++) {
        p.op_ends.push_back(body.size());
        size_t left = budget - p.to.size();
        bool last = (op + 1 == nops);
        size_t avail = (size_t)((long long)p.from.size() - pos);
        size_t d, e;
        if (last) {
            // Reach the budget exactly: diff as far as chosen, then extra.
            d = (size_t)src.below(std::min(left, avail) + 1);
            if (src.flip()) d = std::min(left, avail);
            e = left - d;
        } else {
            d = (size_t)src.logsize(std::min(left, avail));
            e = (size_t)src.logsize(left - d);
            if (src.below(4) == 0) e = 0;
        }
        done_ops++;
        Bytes diff(d, 0);
        gen_noise(src, diff);
        put_size(body, (long long)d);
        body.insert(body.end(), diff.begin(), diff.end());
        for (size_t i = 0; i < d; i++) p.to.push_back((u8)(diff[i] + p.from[(size_t)pos + i]));
        pos += (long long)d;
        Bytes extra = gen_data(src, e);
        put_size(body, (long long)e);
        body.insert(body.end(), extra.begin(), extra.end());
        p.to.insert(p.to.end(), extra.begin(), extra.end());
        long long target = src.flip() ? pos : (long long)src.below(p.from.size() + 1);
        if (last && src.flip()) target = 0;
        put_size(body, target - pos);
        if (target != pos) p.adj_used = true;
        if (d) p.diff_used = true;
        if (e) p.extra_used = true;
        pos = target;
        if (p.to.size() == budget) break;
    }
    p.nops = (int)done_ops;
    p.header.push_back((u8)((TYPE_SEQ << 4) | comp));
    put_size(p.header, (long long)p.to.size());
    p.patch = p.header;
    // An empty target ends at the header; the compressed stream is then empty.
    if (!p.to.empty()) {
        p.payload = body;
        Bytes z = compress(src, comp, body, window, lookahead);
        p.patch.insert(p.patch.end(), z.begin(), z.end());
    }
    return p;
}

std::string InPatch::text() const
{
    return strf("in-place/%s memory=%zu segment=%zu shift=%zu from=%zu to=%zu ops=%d patch=%zu [%s]",
                comp_name(comp), memory, segment, shift, from.size(), to.size(), nops,
                patch.size(), hexdump(patch, 40).c_str());
}

InPatch gen_in(Src &src, int comp, size_t max_memory, int window, int lookahead,
               bool allow_zero_shift)
{
    InPatch p;
    p.comp = comp;
    size_t maxseg = std::max<size_t>(1, src.below(4) == 3 ? max_memory : max_memory / 4);
    p.segment = (size_t)std::max<u64>(1, src.logsize(maxseg));
    if (src.flip()) { size_t s = 1; while (s * 2 <= p.segment) s *= 2; p.segment = s; }
    // Now and then hundreds of segments, so that there are hundreds of steps.
    bool many = src.below(16) == 15;
    if (many) p.segment = std::max<size_t>(1, std::min<size_t>(p.segment, max_memory / 300));
    size_t maxn = std::max<size_t>(1, std::min<size_t>(max_memory / p.segment, many ? 700 : 24));
    size_t n = (size_t)src.range(1, maxn);
    p.memory = n * p.segment;
    size_t k = allow_zero_shift ? (size_t)src.below(n + 1) : (size_t)src.range(1, n);
    if (k > 3 && src.flip()) k = (size_t)src.range(1, 3);
    p.shift = k * p.segment;
    size_t room = p.memory - p.shift;
    // Keep most from-data inside the shifted area.
    size_t from_size = (size_t)src.below(p.memory + 1);
    if (src.below(8) && from_size > room) from_size = room - (size_t)src.below(std::min<size_t>(room, 16) + 1);
    p.from = gen_data(src, from_size);
    size_t to_size = (size_t)src.below(p.memory + 1);
    if (to_size == 0 && src.below(4)) to_size = std::min<size_t>(p.memory, 1);
    size_t usable_end = std::min(p.from.size(), room);          // from-offsets kept after the shift
    Bytes body;
    for (size_t seg = 0; seg * p.segment < to_size; seg++) {
        size_t left = std::min(p.segment, to_size - seg * p.segment);
        size_t origin = std::max(p.segment * (seg + 1), p.shift);       // memory address
        long long lo = (long long)(origin - p.shift), hi = (long long)usable_end;
        long long pos = lo;
        put_size(body, 0);
        size_t nops = (size_t)src.range(1, 1 + src.logsize(5));
        for (size_t op = 0; op < nops; op++) {
            bool last = (op + 1 == nops);
            size_t avail = pos < hi ? (size_t)(hi - pos) : 0;
            size_t d, e;
            if (last) {
                d = src.flip() ? std::min(left, avail) : (size_t)src.below(std::min(left, avail) + 1);
                e = left - d;
            } else {
                d = (size_t)src.logsize(std::min(left, avail));
                e = (size_t)src.logsize(left - d);
            }
            Bytes diff(d, 0);
            gen_noise(src, diff);
            put_size(body, (long long)d);
            body.insert(body.end(), diff.begin(), diff.end());
            for (size_t i = 0; i < d; i++) p.to.push_back((u8)(diff[i] + p.from[(size_t)pos + i]));
            pos += (long long)d;
            Bytes extra = gen_data(src, e);
            put_size(body, (long long)e);
            body.insert(body.end(), extra.begin(), extra.end());
            p.to.insert(p.to.end(), extra.begin(), extra.end());
            left -= d + e;
            long long target = pos;
            if (hi > lo && src.flip()) target = lo + (long long)src.below((u64)(hi - lo) + 1);
            if (left == 0) target = src.flip() ? pos : 0;
            put_size(body, target - pos);
            pos = target;
            if (d) p.diff_used = true;
            p.nops++;
            if (left == 0) break;
        }
    }
    p.header.push_back((u8)((TYPE_INPLACE << 4) | comp));
    put_size(p.header, (long long)p.memory);
    put_size(p.header, (long long)p.segment);
    put_size(p.header, (long long)p.shift);
    put_size(p.header, (long long)p.from.size());
    put_size(p.header, (long long)p.to.size());
    p.patch = p.header;
    if (!p.to.empty()) {
        p.payload = body;
        Bytes z = compress(src, comp, body, window, lookahead);
        p.patch.insert(p.patch.end(), z.begin(), z.end());
    }
    return p;
}

// Tens of thousands of tiny segments, so that there are as many steps.
InPatch gen_in_many(Src &src, int comp, int window, int lookahead)
{
    InPatch p;
    p.comp = comp;
    p.segment = (size_t)src.range(1, 3);
    size_t n = (size_t)src.range(33000, 70000);
    p.memory = n * p.segment;
    p.shift = p.segment * (size_t)(src.flip() ? src.range(1, 3) : src.below(n));
    size_t room = p.memory - p.shift;
    Rng r(src.seed());
    p.from.resize(src.flip() ? room : (size_t)src.below(room + 1));
    for (u8 &b : p.from) b = (u8)(r.below(4) * 37);
    size_t to_size = p.memory - (size_t)src.below(src.flip() ? p.segment : p.memory);
    Bytes body;
    for (size_t seg = 0; seg * p.segment < to_size; seg++) {
        size_t left = std::min(p.segment, to_size - seg * p.segment);
        size_t pos = std::max(p.segment * (seg + 1), p.shift) - p.shift;
        size_t avail = pos < p.from.size() ? p.from.size() - pos : 0;
        size_t d = r.below(3) ? std::min(left, avail) : (size_t)r.below(std::min(left, avail) + 1);
        put_size(body, 0);
        put_size(body, (long long)d);
        for (size_t i = 0; i < d; i++) {
            u8 v = r.below(3) ? 0 : (u8)r.below(256);
            body.push_back(v);
            p.to.push_back((u8)(v + p.from[pos + i]));
        }
        put_size(body, (long long)(left - d));
        for (size_t i = d; i < left; i++) {
            u8 v = (u8)r.below(256);
            body.push_back(v);
            p.to.push_back(v);
        }
        put_size(body, 0);
        if (d) p.diff_used = true;
        p.nops++;
    }
    p.header.push_back((u8)((TYPE_INPLACE << 4) | comp));
    put_size(p.header, (long long)p.memory);
    put_size(p.header, (long long)p.segment);
    put_size(p.header, (long long)p.shift);
    put_size(p.header, (long long)p.from.size());
    put_size(p.header, (long long)p.to.size());
    p.patch = p.header;
    p.payload = body;
    Bytes z = compress(src, comp, body, window, lookahead);
    p.patch.insert(p.patch.end(), z.begin(), z.end());
    return p;
}

std::vector<size_t> gen_chunks(Src &src, size_t total, bool allow_empty)
{
    std::vector<size_t> c;
    u64 kind = src.below(7);
    size_t left = total;
    auto take = [&](size_t n) {
        n = std::min(n, left);
        c.push_back(n);
        left -= n;
    };
    switch (kind) {
    case 0:
        take(total);
        break;
    case 1:                                         // byte by byte
        if (total <= 70000) while (left) take(1); else take(total);
        break;
    case 2: {                                       // fixed
        size_t n = (size_t)std::max<u64>(1, src.logsize(std::max<size_t>(total, 1)));
        if (total / n > 70000) n = total / 70000 + 1;
        while (left) take(n);
        break;
    }
    case 3:                                         // one split
        take((size_t)src.below(total + 1));
        if (left) take(left);
        break;
    case 4: {                                       // header byte by byte, then blocks
        for (int i = 0; i < 24 && left; i++) take(1);
        size_t n = (size_t)std::max<u64>(1, src.logsize(600));
        if (total / n > 70000) n = total / 70000 + 1;
        while (left) take(n);
        break;
    }
    case 5: {                                       // small random chunks
        Rng r(src.seed());
        u64 m = src.range(1, 40);
        if (total / m > 70000) m = total / 70000 + 1;
        bool empties = allow_empty && src.flip();
        while (left) {
            if (empties && r.below(5) == 0) c.push_back(0);
            take(1 + r.below(m));
        }
        break;
    }
    default: {                                      // log sized random chunks
        Rng r(src.seed());
        while (left) take(1 + r.below((u64)1 << r.below(14)));
        break;
    }
    }
    if (c.empty()) c.push_back(0);
    return c;
}

// ---- sequential device ---------------------------------------------------

static bool seq_inject(SeqDev *d, char kind)
{
    CHECK(d->magic == 0x5e9d3a, "callback invoked with the wrong user argument");
    u64 k = d->calls++;
    if (d->kinds) d->kinds->push_back(kind);
    if (d->fail_call >= 0 && (long long)k == d->fail_call) { d->failed = true; return true; }
    return false;
}

int seq_from_read(void *arg, uint8_t *buf, size_t size)
{
    SeqDev *d = (SeqDev *)arg;
    if (seq_inject(d, 'a')) return d->fail_code;
    d->reads++;
    if (d->pos < 0 || (u64)d->pos + size > d->from->size()) {
        d->oob++;
        if (d->file_like) return size ? -1 : 0;
        if (d->strict)
            fail("from-data read of %zu bytes at %lld is outside the %zu byte from-data", size, d->pos, d->from->size());
        return -1;
    }
    if (size) memcpy(buf, d->from->data() + d->pos, size);
    d->pos += (long long)size;
    return 0;
}

int seq_from_seek(void *arg, int offset)
{
    SeqDev *d = (SeqDev *)arg;
    if (seq_inject(d, 'b')) return d->fail_code;
    d->seeks++;
    long long p = d->pos + offset;
    if (d->file_like) {
        if (p < 0) { d->oob++; return -1; }
        d->pos = p;
        return 0;
    }
    if (p < 0 || p > (long long)d->from->size()) {
        d->oob++;
        if (d->strict) fail("seek by %d from %lld leaves the %zu byte from-data", offset, d->pos, d->from->size());
        return -1;
    }
    d->pos = p;
    return 0;
}

int seq_to_write(void *arg, const uint8_t *buf, size_t size)
{
    SeqDev *d = (SeqDev *)arg;
    if (seq_inject(d, 'c')) return d->fail_code;
    if (d->failed) d->writes_after_fail++;
    d->writes++;
    if (d->to.size() + size > d->to_limit)
        fail("wrote %zu bytes beyond the declared to-size %zu", d->to.size() + size - d->to_limit, d->to_limit);
    d->to.insert(d->to.end(), buf, buf + size);
    return 0;
}

int seq_patch_read(void *arg, uint8_t *buf, size_t size)
{
    SeqDev *d = (SeqDev *)arg;
    if (seq_inject(d, 'd')) return d->fail_code;
    d->patch_piece = std::max(d->patch_piece, size);
    if (d->patch_pos + size > d->patch->size()) {
        if (d->strict) fail("patch read beyond the end of the patch");
        return -1;
    }
    memcpy(buf, d->patch->data() + d->patch_pos, size);
    d->patch_pos += size;
    return 0;
}

int seq_state_write(void *arg, const void *buf, size_t size)
{
    SeqDev *d = (SeqDev *)arg;
    if (seq_inject(d, 'e')) return d->fail_code;
    const u8 *p = (const u8 *)buf;
    d->state.insert(d->state.end(), p, p + size);
    return 0;
}

int seq_state_read(void *arg, void *buf, size_t size)
{
    SeqDev *d = (SeqDev *)arg;
    if (seq_inject(d, 'f')) return d->fail_code;
    if (d->state_pos + size > d->state.size()) {
        if (d->strict) fail("restore reads %zu bytes of state, more than the dump wrote", size);
        return -1;
    }
    memcpy(buf, d->state.data() + d->state_pos, size);
    d->state_pos += size;
    return 0;
}

// ---- memory device ---------------------------------------------------------

static bool mem_inject(MemDev *d, char kind)
{
    CHECK(d->magic == 0xfa51d3, "callback invoked with the wrong user argument");
    u64 k = d->calls++;
    if (d->kinds) d->kinds->push_back(kind);
    if (d->fail_op >= 0 && (long long)k == d->fail_op) { d->failed = true; return true; }
    return false;
}

static bool mem_outside(MemDev *d, const char *what, u64 addr, u64 size)
{
    if (addr > d->mem.size() || size > d->mem.size() - addr) {
        d->oob++;
        if (d->strict)
            fail("%s of %llu bytes at address %lld is outside the %zu byte memory", what,
                 (unsigned long long)size, (long long)addr, d->mem.size());
        return true;
    }
    return false;
}

// Returns 0 run fully, 1 do not run (power lost before), 2 run partially.
static int mem_power(MemDev *d)
{
    if (d->crashed) return 1;
    u64 k = d->ops++;
    if (d->crash_op >= 0 && (long long)k == d->crash_op) {
        d->crashed = true;
        return d->crash_mode == 0 ? 1 : d->crash_mode == 1 ? 2 : 0;
    }
    return 0;
}

int mem_read(void *arg, void *dst, uintptr_t src, size_t size)
{
    MemDev *d = (MemDev *)arg;
    if (mem_inject(d, 'g')) return d->fail_code;
    if (d->file_like) {
        if (size && (src > d->mem.size() || size > d->mem.size() - src)) { d->oob++; return -1; }
        if (size) memcpy(dst, d->mem.data() + src, size);
        d->reads++;
        return 0;
    }
    if (mem_outside(d, "memory read", src, size)) return -1;
    if (d->crashed) return -1;
    d->reads++;
    if (size) memcpy(dst, d->mem.data() + src, size);
    return 0;
}

int mem_write(void *arg, uintptr_t dst, void *src, size_t size)
{
    MemDev *d = (MemDev *)arg;
    if (mem_inject(d, 'h')) return d->fail_code;
    if (d->file_like) {
        if (dst > ((u64)1 << 24) || size > ((u64)1 << 24)) fail("memory write of %zu bytes at %llu is far outside of the memory", size, (unsigned long long)dst);
        if (size && dst + size > d->mem.size()) d->mem.resize(dst + size, 0);
        if (size) memcpy(d->mem.data() + dst, src, size);
        d->writes++;
        d->ops++;
        return 0;
    }
    if (mem_outside(d, "memory write", dst, size)) return -1;
    if (d->failed) d->after_fail_mutations++;
    int p = mem_power(d);
    if (p == 1) return -1;
    d->writes++;
    size_t n = size;
    Rng r(d->crash_seed);
    if (p == 2) n = r.below(size + 1);
    for (size_t i = 0; i < n; i++) {
        if (d->flash && !d->erased[dst + i])
            fail("memory write at address %llu hits a byte that was not erased since it was last written",
                 (unsigned long long)(dst + i));
        d->mem[dst + i] = ((u8 *)src)[i];
        d->erased[dst + i] = 0;
    }
    if (p == 2 && n < size) { d->mem[dst + n] = (u8)r.next(); d->erased[dst + n] = 0; }
    return d->crashed ? -1 : 0;
}

int mem_erase(void *arg, uintptr_t addr, size_t size)
{
    MemDev *d = (MemDev *)arg;
    if (mem_inject(d, 'i')) return d->fail_code;
    if (d->file_like) { d->erases++; return 0; }
    if (mem_outside(d, "memory erase", addr, size)) return -1;
    if (d->failed) d->after_fail_mutations++;
    int p = mem_power(d);
    if (p == 1) return -1;
    d->erases++;
    if (d->flash) {
        Rng r(d->crash_seed);
        for (size_t i = 0; i < size; i++) {
            if (p == 2) { d->mem[addr + i] = (u8)r.next(); d->erased[addr + i] = 0; }
            else { d->mem[addr + i] = 0xff; d->erased[addr + i] = 1; }
        }
    }
    return d->crashed ? -1 : 0;
}

int mem_step_set(void *arg, int step)
{
    MemDev *d = (MemDev *)arg;
    if (mem_inject(d, 'j')) return d->fail_code;
    if (d->failed) d->after_fail_mutations++;
    int p = mem_power(d);
    if (p == 1) return -1;
    if (p == 2) { if (d->crash_seed & 1) return -1; }       // atomically done or not
    d->steps_set++;
    d->step = step;
    if (step == 0) d->committed = true;
    return d->crashed ? -1 : 0;
}

int mem_step_get(void *arg, int *step)
{
    MemDev *d = (MemDev *)arg;
    if (mem_inject(d, 'k')) return d->fail_code;
    if (d->crashed) return -1;
    *step = d->step;
    return 0;
}

int mem_patch_read(void *arg, uint8_t *buf, size_t size)
{
    MemDev *d = (MemDev *)arg;
    if (mem_inject(d, 'l')) return d->fail_code;
    if (d->crashed) return -1;
    if (d->patch_pos + size > d->patch->size()) {
        if (d->strict) fail("patch read beyond the end of the patch");
        return -1;
    }
    memcpy(buf, d->patch->data() + d->patch_pos, size);
    d->patch_pos += size;
    return 0;
}

// ---- reference decoder -------------------------------------------------------

Bytes ref_heatshrink(const Bytes &bits, int window, int lookahead, size_t max_out)
{
    Bytes out;
    size_t pos = 0, n = bits.size() * 8;
    auto get = [&](int k) {
        u32 v = 0;
        for (int i = 0; i < k; i++, pos++) v = (v << 1) | ((bits[pos >> 3] >> (7 - (pos & 7))) & 1u);
        return v;
    };
    while (out.size() < max_out) {
        if (pos + 1 > n) break;
        if (get(1)) {
            if (pos + 8 > n) break;
            out.push_back((u8)get(8));
        } else {
            if (pos + (size_t)(window + lookahead) > n) break;
            size_t off = get(window) + 1, cnt = get(lookahead) + 1;
            for (size_t i = 0; i < cnt && out.size() < max_out; i++)
                out.push_back(off <= out.size() ? out[out.size() - off] : 0);
        }
    }
    return out;
}

struct RefStream {
    const Bytes *in = nullptr;
    size_t pos = 0;
    int comp = 0;
    bool trailing_checked = false;
    Bytes buf;                      // fully decoded (heatshrink, lzma, none)
    size_t bpos = 0;
    size_t max = 0;
    // crle state
    u64 left = 0;
    bool rep = false;
    u8 val = 0;
    std::string err;

    bool open(const Bytes &patch, size_t at, int c, size_t max_out)
    {
        in = &patch;
        pos = at;
        comp = c;
        max = max_out;
        Bytes rest(patch.begin() + (long)at, patch.end());
        if (c == COMP_NONE) { buf = rest; return true; }
        if (c == COMP_CRLE) return true;
        if (c == COMP_HEATSHRINK) {
            if (rest.empty()) return true;
            int w = ((rest[0] >> 4) & 0xf) + 4, l = (rest[0] & 0xf) + 3;
            rest.erase(rest.begin());
            buf = ref_heatshrink(rest, w, l, max_out);
            return true;
        }
        if (c == COMP_LZMA) {
            lzma_stream s = LZMA_STREAM_INIT;
            if (lzma_alone_decoder(&s, UINT64_MAX) != LZMA_OK) fail("harness: lzma decoder");
            s.next_in = rest.data();
            s.avail_in = rest.size();
            u8 tmp[4096];
            for (;;) {
                s.next_out = tmp;
                s.avail_out = sizeof(tmp);
                lzma_ret r = lzma_code(&s, LZMA_RUN);
                size_t n = sizeof(tmp) - s.avail_out;
                buf.insert(buf.end(), tmp, tmp + n);
                if (r != LZMA_OK || buf.size() > max_out || n == 0) break;
            }
            lzma_end(&s);
            return true;
        }
        err = "compression";
        return false;
    }
    u64 steps_left = 0;
    bool *heavy = nullptr;
    bool get(u8 *b)
    {
        if (steps_left == 0) { *heavy = true; err = "too long"; return false; }
        steps_left--;
        if (comp != COMP_CRLE) {
            if (bpos >= buf.size()) { err = "end of data"; return false; }
            *b = buf[bpos++];
            return true;
        }
        while (left == 0) {
            if (pos >= in->size()) { err = "end of data"; return false; }
            u8 kind = (*in)[pos++];
            if (kind > 1) { err = "kind"; return false; }
            u64 v = 0;
            int sh = 0;
            u8 x;
            do {
                if (pos >= in->size() || sh > 56) { err = "crle size"; return false; }
                x = (*in)[pos++];
                v |= (u64)(x & 0x7f) << sh;
                sh += 7;
            } while (x & 0x80);
            left = v;
            rep = kind == 1;
            if (rep) {
                if (pos >= in->size()) { err = "end of data"; return false; }
                val = (*in)[pos++];
            }
        }
        left--;
        if (rep) { *b = val; return true; }
        if (pos >= in->size()) { err = "end of data"; return false; }
        *b = (*in)[pos++];
        return true;
    }
    bool size(long long *v)
    {
        u8 b;
        if (!get(&b)) return false;
        bool neg = b & 0x40;
        u64 m = b & 0x3f;
        int sh = 6;
        while (b & 0x80) {
            if (!get(&b)) return false;
            if (sh > 50) { err = "size"; return false; }
            m |= (u64)(b & 0x7f) << sh;
            sh += 7;
        }
        *v = neg ? -(long long)m : (long long)m;
        return true;
    }
};

static bool ref_header_size(const Bytes &p, size_t *pos, u64 *v)
{
    if (*pos >= p.size()) return false;
    u8 b = p[(*pos)++];
    u64 m = b & 0x3f;
    int sh = 6;
    while (b & 0x80) {
        if (*pos >= p.size() || sh > 50) return false;
        b = p[(*pos)++];
        m |= (u64)(b & 0x7f) << sh;
        sh += 7;
    }
    *v = m;
    return true;
}

RefResult ref_apply_seq(const Bytes &patch, const Bytes &from, size_t max_out)
{
    RefResult r;
    size_t pos = 0;
    if (patch.empty()) { r.why = "empty"; return r; }
    r.type = (patch[0] >> 4) & 7;
    r.comp = patch[0] & 0xf;
    pos = 1;
    if (r.type != TYPE_SEQ) { r.why = "type"; return r; }
    if (!ref_header_size(patch, &pos, &r.header_to)) { r.why = "header"; return r; }
    r.header_ok = true;
    RefStream s;
    s.steps_left = ((u64)1 << 24) + max_out * 2;
    s.heavy = &r.heavy;
    if (!s.open(patch, pos, r.comp, max_out * 8 + 65536)) { r.why = s.err; return r; }
    if (r.header_to == 0) { r.ok = true; return r; }
    long long v, at = 0;
    if (!s.size(&v)) { r.why = s.err; return r; }
    if (v > 0) { r.why = "data format"; return r; }
    while (r.to.size() < r.header_to) {
        for (int part = 0; part < 2; part++) {
            if (!s.size(&v)) { r.why = s.err; return r; }
            if (v < 0 || r.to.size() + (u64)v > r.header_to) { r.why = "bad size"; return r; }
            for (long long i = 0; i < v; i++) {
                u8 b;
                if (!s.get(&b)) { r.why = s.err; return r; }
                if (part == 0) {
                    if (at < 0 || at >= (long long)from.size()) { r.why = "from range"; return r; }
                    b = (u8)(b + from[(size_t)at++]);
                }
                r.to.push_back(b);
                if (r.to.size() > max_out) { r.why = "too big"; return r; }
            }
        }
        if (!s.size(&v)) { r.why = s.err; return r; }
        at += v;
        if (at < 0 || at > (long long)from.size()) { r.why = "seek"; return r; }
    }
    r.ok = true;
    return r;
}

RefResult ref_apply_in(const Bytes &patch, const Bytes &mem0, size_t max_out)
{
    RefResult r;
    size_t pos = 0;
    if (patch.empty()) { r.why = "empty"; return r; }
    r.type = (patch[0] >> 4) & 7;
    r.comp = patch[0] & 0xf;
    pos = 1;
    if (r.type != TYPE_INPLACE) { r.why = "type"; return r; }
    if (!ref_header_size(patch, &pos, &r.memory) || !ref_header_size(patch, &pos, &r.segment) ||
        !ref_header_size(patch, &pos, &r.shift) || !ref_header_size(patch, &pos, &r.from) ||
        !ref_header_size(patch, &pos, &r.header_to)) { r.why = "header"; return r; }
    r.header_ok = true;
    RefStream s;
    s.steps_left = ((u64)1 << 24) + max_out * 2;
    s.heavy = &r.heavy;
    if (!s.open(patch, pos, r.comp, max_out * 8 + 65536)) { r.why = s.err; return r; }
    if (r.header_to == 0) { r.ok = true; return r; }
    if (r.segment == 0 || r.shift > r.memory || r.memory > mem0.size() || r.header_to > r.memory) {
        r.why = "geometry";
        return r;
    }
    Bytes mem = mem0;
    if (r.shift != 0 && r.shift < r.segment) r.clean = false;
    u64 n = std::min(r.from, r.memory - r.shift);
    u64 segs = (n + r.segment - 1) / r.segment;
    for (u64 i = segs; i-- > 0;) {
        u64 a = i * r.segment;
        if (a + r.segment + r.shift > r.memory) { r.why = "shift geometry"; return r; }
        memmove(&mem[a + r.shift], &mem[a], r.segment);
    }
    u64 to_pos = 0, seg = 0;
    long long v;
    while (to_pos < r.header_to) {
        if (!s.size(&v)) { r.why = s.err; return r; }
        if (v > 0) { r.why = "data format"; return r; }
        long long at = (long long)std::max(r.segment * (seg + 1), r.shift);
        u64 base = seg * r.segment, left = std::min(r.segment, r.header_to - base), done = 0;
        seg++;
        while (true) {
            for (int part = 0; part < 2; part++) {
                if (!s.size(&v)) { r.why = s.err; return r; }
                if (v < 0 || done + (u64)v > left) { r.why = "bad size"; return r; }
                for (long long i = 0; i < v; i++) {
                    u8 b;
                    if (!s.get(&b)) { r.why = s.err; return r; }
                    if (part == 0) {
                        if (at < 0 || at >= (long long)r.memory) { r.why = "from range"; return r; }
                        if (at < (long long)std::max(r.segment * seg, r.shift)) r.clean = false;
                        b = (u8)(b + mem[(size_t)at++]);
                    }
                    mem[base + done++] = b;
                    to_pos++;
                }
            }
            if (!s.size(&v)) { r.why = s.err; return r; }
            at += v;
            if (done == left) break;
        }
    }
    r.to.assign(mem.begin(), mem.begin() + (long)r.header_to);
    r.ok = true;
    return r;
}
