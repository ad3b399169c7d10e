// Small property-testing engine: choice sequences, forked campaign workers,
// shrinking over the recorded choices and replay of a saved choice file.
//
// A case is a pure function of a sequence of 64 bit choices.  In campaign mode
// the choices come from a splitmix stream seeded by (seed, property, index);
// in replay mode they come from a file.  Every failure is an immediate _exit
// of the (forked) process, so sanitizer aborts, hangs, crashes and oracle
// violations all look the same to the parent.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <string>
#include <vector>
#include <map>
#include <algorithm>
#include <functional>

typedef uint64_t u64;
typedef uint32_t u32;
typedef uint8_t u8;
typedef std::vector<u8> Bytes;

static inline u64 splitmix(u64 &s)
{
    u64 z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}

struct Rng {
    u64 s;
    explicit Rng(u64 seed) : s(seed * 0x2545F4914F6CDD1Dull + 0x1234567) {}
    u64 next() { return splitmix(s); }
    u64 below(u64 n) { return n <= 1 ? 0 : next() % n; }
};

struct Src {
    bool random;
    bool guided = false;       // given values first, then random ones
    u64 state;
    std::vector<u64> values;   // recorded (random) or given (replay)
    std::vector<u64> bounds;   // of the values, in a guided campaign
    size_t pos;

    static Src from_seed(u64 seed)
    {
        Src s;
        s.random = true;
        s.state = seed;
        s.pos = 0;
        return s;
    }
    static Src from_values(const std::vector<u64> &v)
    {
        Src s;
        s.random = false;
        s.state = 0;
        s.values = v;
        s.pos = 0;
        return s;
    }
    // Uniform in [0, n).  Zero is the simplest choice everywhere.
    u64 below(u64 n)
    {
        u64 v;
        if (n == 0) n = 1;
        if (guided) {
            v = pos < values.size() ? values[pos] % n : splitmix(state) % n;
            if (pos < values.size()) values[pos] = v;
            else values.push_back(v);
            bounds.push_back(n);
            pos++;
        } else if (random) {
            v = splitmix(state) % n;
            values.push_back(v);
            pos++;
        } else if (pos < values.size()) {
            v = values[pos++];
            if (v >= n) v %= n;
        } else {
            pos++;
            v = 0;
        }
        return v;
    }
    // Inclusive range.
    u64 range(u64 lo, u64 hi) { return lo + below(hi - lo + 1); }
    bool flip() { return below(2) != 0; }
    // true with probability num / den; false is the simple value.
    bool chance(u64 num, u64 den) { return below(den) >= den - num; }
    // Log-uniform in [0, max].
    u64 logsize(u64 max)
    {
        int bits = 0;
        while (bits < 62 && ((u64)1 << bits) <= max) bits++;
        u64 k = below((u64)bits + 1);
        if (k == 0) return 0;
        u64 lo = (u64)1 << (k - 1);
        u64 hi = std::min<u64>(((u64)1 << k) - 1, max);
        return range(lo, hi);
    }
    u64 seed() { return below((u64)1 << 32); }
};

// Per case report, filled in by the property function.
struct Case {
    bool nontrivial = false;
    std::string summary;                    // a written out sample
    std::vector<std::string> labels;
    void label(const std::string &l) { labels.push_back(l); }
};

[[noreturn]] void fail(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
#define CHECK(cond, ...) do { if (!(cond)) fail(__VA_ARGS__); } while (0)

std::string hexdump(const Bytes &b, size_t max = 48);
std::string strf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));

typedef void (*prop_fn_t)(Src &src, Case &c);

struct Prop {
    const char *id;
    const char *name;
    prop_fn_t fn;
    unsigned long cpu_limit_s;      // CPU time one case may use.
};

extern const Prop g_props[];
extern const size_t g_nprops;
extern const char *g_scratch;       // Scratch directory of this worker.
extern int g_tier_thorough;
