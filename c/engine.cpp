#include "engine.hpp"
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <time.h>
#include <errno.h>

const char *g_scratch = "/tmp";
int g_tier_thorough = 0;

static const int MAX_WORKERS = 64;
static const size_t MSG = 4096;

struct Slot {
    volatile u64 current;
    volatile u64 done;
    volatile u64 nontrivial;
    volatile int in_case;
    char msg[MSG];
    char samples[8][600];
    volatile int nsamples;
    char labels[64][56];
    volatile u64 label_counts[64];
    volatile int nlabels;
    double slowest_cpu;
    u64 slowest;
};

static Slot *g_slots;
static Slot *g_slot;            // this process' slot
static u64 *g_hashes;           // one per case
static int g_workers;

void fail(const char *fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    if (g_slot) {
        vsnprintf(g_slot->msg, MSG, fmt, ap);
    } else {
        vfprintf(stderr, fmt, ap);
        fputc('\n', stderr);
    }
    va_end(ap);
    _exit(99);
}

std::string strf(const char *fmt, ...)
{
    char buf[2048];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof(buf), fmt, ap);
    va_end(ap);
    return buf;
}

std::string hexdump(const Bytes &b, size_t max)
{
    std::string s;
    char t[4];
    for (size_t i = 0; i < b.size() && i < max; i++) {
        snprintf(t, sizeof(t), "%02x", b[i]);
        s += t;
    }
    if (b.size() > max) s += strf("..(%zu)", b.size());
    return s;
}

static u64 case_seed(u64 seed, const char *id, u64 index)
{
    u64 h = 1469598103934665603ull;
    for (const char *p = id; *p; p++) h = (h ^ (u8)*p) * 1099511628211ull;
    u64 s = seed * 0x9E3779B97F4A7C15ull ^ h;
    splitmix(s);
    s += index * 0xD1342543DE82EF95ull;
    return splitmix(s);
}

static void set_cpu_timer(unsigned long seconds)
{
    struct itimerval it;
    memset(&it, 0, sizeof(it));
    it.it_value.tv_sec = (time_t)seconds;
    setitimer(ITIMER_PROF, &it, NULL);     // SIGPROF kills by default
    it.it_value.tv_sec = (time_t)seconds * 2;
    setitimer(ITIMER_REAL, &it, NULL);     // and so does SIGALRM
}

static u64 hash_values(const std::vector<u64> &v)
{
    u64 h = 0xcbf29ce484222325ull;
    for (u64 x : v) { h ^= x; h *= 0x100000001b3ull; h ^= h >> 29; }
    return h ? h : 1;
}

static double now()
{
    struct timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return (double)ts.tv_sec + (double)ts.tv_nsec * 1e-9;
}

static double cpu_time()
{
    struct timespec ts;
    clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &ts);
    return (double)ts.tv_sec + (double)ts.tv_nsec * 1e-9;
}

static void account(u64 i, const Src &src, const Case &c, double cpu)
{
    if (cpu > g_slot->slowest_cpu) { g_slot->slowest_cpu = cpu; g_slot->slowest = i; }
    g_slot->done = g_slot->done + 1;
    if (c.nontrivial) {
        g_slot->nontrivial = g_slot->nontrivial + 1;
        g_hashes[i] = hash_values(src.values);
        if (g_slot->nsamples < 8) {
            snprintf(g_slot->samples[g_slot->nsamples], 600, "%s", c.summary.c_str());
            g_slot->nsamples = g_slot->nsamples + 1;
        }
    }
    for (auto &l : c.labels) {
        int k;
        for (k = 0; k < g_slot->nlabels; k++)
            if (!strcmp(g_slot->labels[k], l.c_str())) break;
        if (k == g_slot->nlabels) {
            if (k >= 64) continue;
            snprintf(g_slot->labels[k], 56, "%s", l.c_str());
            g_slot->nlabels = k + 1;
        }
        g_slot->label_counts[k] = g_slot->label_counts[k] + 1;
    }
}

static void worker(const Prop &p, u64 seed, u64 cases, int w, double deadline)
{
    for (u64 i = (u64)w; i < cases; i += (u64)g_workers) {
        if (now() > deadline) break;
        g_slot->current = i;
        g_slot->in_case = 1;
        Src src = Src::from_seed(case_seed(seed, p.id, i));
        Case c;
        double start = cpu_time();
        set_cpu_timer(p.cpu_limit_s);
        p.fn(src, c);
        set_cpu_timer(0);
        g_slot->in_case = 0;
        account(i, src, c, cpu_time() - start);
    }
}

// ---- coverage guided campaigns ----------------------------------------------

// What the code under test, compiled with -fsanitize-coverage, did in a case:
// how often every edge was taken, and how close the operands of its comparisons
// were.
static std::vector<std::pair<u8 *, u8 *>> *g_counters;
static const size_t SEEN = 1u << 22;
static u8 *g_seen;
static bool g_watch;
static size_t g_fresh;
static u64 g_compared;            // a measure of work that is always the same

static void feature(u64 h)
{
    h ^= h >> 31;
    h *= 0x9E3779B97F4A7C15ull;
    h ^= h >> 29;
    h %= SEEN * 8;
    u8 bit = (u8)(1u << (h & 7));
    if (!(g_seen[h >> 3] & bit)) { g_seen[h >> 3] |= bit; g_fresh++; }
}

extern "C" {
void __sanitizer_cov_8bit_counters_init(u8 *start, u8 *stop)
{
    if (!g_counters) g_counters = new std::vector<std::pair<u8 *, u8 *>>;
    if (start != stop) g_counters->push_back({start, stop});
}
void __sanitizer_cov_pcs_init(const uintptr_t *, const uintptr_t *) {}

static inline void compared(void *pc, u64 a, u64 b)
{
    if (!g_watch) return;
    g_compared++;
    u64 d = a > b ? a - b : b - a;
    feature((u64)(uintptr_t)pc * 128 + (d < 4 ? d + (a > b ? 70 : 80) : 64 - (u64)__builtin_clzll(d)));
}
#define COMPARE(NAME, TYPE) \
    __attribute__((no_sanitize("address", "undefined"))) \
    void NAME(TYPE a, TYPE b) { compared(__builtin_return_address(0), a, b); }
COMPARE(__sanitizer_cov_trace_cmp1, uint8_t)
COMPARE(__sanitizer_cov_trace_cmp2, uint16_t)
COMPARE(__sanitizer_cov_trace_cmp4, uint32_t)
COMPARE(__sanitizer_cov_trace_cmp8, uint64_t)
COMPARE(__sanitizer_cov_trace_const_cmp1, uint8_t)
COMPARE(__sanitizer_cov_trace_const_cmp2, uint16_t)
COMPARE(__sanitizer_cov_trace_const_cmp4, uint32_t)
COMPARE(__sanitizer_cov_trace_const_cmp8, uint64_t)
void __sanitizer_cov_trace_switch(u64 v, u64 *cases)
{
    for (u64 i = 0; i < cases[0]; i++)
        compared((u8 *)__builtin_return_address(0) + i, v, cases[2 + i]);
}
}

static void watch_begin()
{
    g_fresh = 0;
    g_compared = 0;
    if (g_counters) for (auto &r : *g_counters) memset(r.first, 0, (size_t)(r.second - r.first));
    g_watch = true;
}

static size_t watch_end()
{
    g_watch = false;
    u64 base = 1ull << 60;
    if (g_counters) for (auto &r : *g_counters) {
        for (u8 *p = r.first; p < r.second; p++) {
            u8 n = *p;
            if (!n) continue;
            int bucket = n < 4 ? n : n < 8 ? 4 : n < 16 ? 5 : n < 32 ? 6 : n < 128 ? 7 : 8;
            feature(base + (u64)(p - r.first) * 16 + (u64)bucket);
        }
        base += 1ull << 40;
    }
    return g_fresh;
}

struct Kept {
    std::vector<u64> values, bounds;
    u64 used;
};

static u64 other_value(Rng &rng, u64 old, u64 n)
{
    switch (rng.below(7)) {
    case 0: return 0;
    case 1: return n - 1;
    case 2: return (old + 1) % n;
    case 3: return (old + n - 1) % n;
    case 4: return ((u64)1 << rng.below(64)) % n;
    case 5: return (((u64)1 << rng.below(64)) - 1) % n;
    default: return rng.next() % n;
    }
}

// A case near a kept one.
static std::vector<u64> vary(Rng &rng, std::vector<Kept> &corpus)
{
    size_t k = rng.below(2) ? corpus.size() - 1 - rng.below(std::min<size_t>(corpus.size(), 64))
                            : (size_t)rng.below(corpus.size());
    Kept &from = corpus[k];
    from.used++;
    std::vector<u64> v = from.values;
    size_t n = v.size();
    if (n == 0) return v;
    u64 times = (u64)1 << rng.below(4);
    for (u64 t = 0; t < times; t++) {
        size_t i = (size_t)rng.below(n);
        v[i] = other_value(rng, v[i], from.bounds[i]);
    }
    if (rng.below(4) == 0) {
        const Kept &other = corpus[(size_t)rng.below(corpus.size())];
        size_t at = (size_t)rng.below(n), len = (size_t)(1 + rng.below(32));
        if (other.values.size()) {
            size_t o = rng.below(2) ? std::min(at, other.values.size() - 1) : (size_t)rng.below(other.values.size());
            std::vector<u64> piece(other.values.begin() + (long)o,
                                   other.values.begin() + (long)std::min(o + len, other.values.size()));
            switch (rng.below(3)) {
            case 0: v.insert(v.begin() + (long)at, piece.begin(), piece.end()); break;
            case 1: std::copy(piece.begin(), piece.begin() + (long)std::min(piece.size(), v.size() - at), v.begin() + (long)at); break;
            default: v.resize(at); v.insert(v.end(), other.values.begin() + (long)o, other.values.end());
            }
        }
    }
    u64 cut = rng.below(6);
    if (cut == 0) v.resize((size_t)rng.below(v.size() + 1));       // the rest is random
    else if (cut == 1) {
        size_t at = (size_t)rng.below(v.size()), len = (size_t)(1 + rng.below(8));
        v.erase(v.begin() + (long)at, v.begin() + (long)std::min(at + len, v.size()));
    }
    return v;
}

// Where the parent finds what the case was made from.
struct Plan {
    u64 state;
    u64 size;
    u64 values[(1u << 20)];
};
static Plan *g_plan;

static void guided_worker(const Prop &p, u64 seed, u64 cases, int w, double deadline)
{
    std::vector<Kept> corpus;
    u64 work = 0, fresh_cases = 0;
    Rng rng(case_seed(seed ^ 0x67756964, p.id, (u64)w));
    for (u64 i = (u64)w; i < cases; i += (u64)g_workers) {
        if (now() > deadline) break;
        Src src = Src::from_seed(case_seed(seed, p.id, i));
        src.guided = true;
        bool varied = !corpus.empty() && (i / (u64)g_workers) % 4 != 0;
        if (varied) src.values = vary(rng, corpus);
        if (src.values.size() > sizeof(g_plan->values) / 8) src.values.resize(sizeof(g_plan->values) / 8);
        g_plan->state = src.state;
        g_plan->size = src.values.size();
        std::copy(src.values.begin(), src.values.end(), g_plan->values);
        g_slot->current = i;
        g_slot->in_case = 1;
        Case c;
        double start = cpu_time();
        set_cpu_timer(p.cpu_limit_s);
        watch_begin();
        p.fn(src, c);
        size_t fresh = watch_end();
        set_cpu_timer(0);
        start = cpu_time() - start;
        g_slot->in_case = 0;
        src.values.resize(std::min(src.values.size(), src.pos));
        if (!varied) { work += std::min<u64>(g_compared, 100000); fresh_cases++; }
        if (fresh) {
            c.label("something new");
            // What takes much longer than others is not worth being varied.
            if (src.values.size() < 20000 && g_compared <= 4 * work / fresh_cases + 1000) corpus.push_back({src.values, src.bounds, 0});
        }
        if (varied) c.label("varied");
        account(i, src, c, start);
    }
}

static const char *status_text(int st, char *buf, size_t n)
{
    if (WIFEXITED(st)) snprintf(buf, n, "exit %d", WEXITSTATUS(st));
    else if (WIFSIGNALED(st))
        snprintf(buf, n, "%s", WTERMSIG(st) == SIGPROF ? "CPU limit exceeded (no termination)"
                               : WTERMSIG(st) == SIGALRM ? "time limit exceeded (no termination)"
                                                         : strsignal(WTERMSIG(st)));
    else snprintf(buf, n, "status %d", st);
    return buf;
}

static std::string g_errlog;

// Run one choice vector in a child.  Returns true if it failed.
static bool run_child(const Prop &p, const std::vector<u64> &v, std::string *msg,
                      std::vector<u64> *used, unsigned long cpu)
{
    static u64 *area = NULL;
    static const size_t AREA = 1u << 22;
    if (!area)
        area = (u64 *)mmap(NULL, AREA * 8, PROT_READ | PROT_WRITE,
                           MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    g_slots[0].msg[0] = 0;
    area[0] = 0;
    fflush(NULL);
    pid_t pid = fork();
    if (pid == 0) {
        g_slot = &g_slots[0];
        int fd = open(g_errlog.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
        if (fd >= 0) { dup2(fd, 2); dup2(fd, 1); }
        Src src = Src::from_values(v);
        Case c;
        set_cpu_timer(cpu);
        p.fn(src, c);
        set_cpu_timer(0);
        snprintf(g_slot->msg, MSG, "%s", c.summary.c_str());
        size_t n = std::min<size_t>(src.pos, AREA - 1);
        area[0] = n;
        _exit(0);
    }
    int st;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    if (used) *used = v;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
        if (msg) *msg = g_slots[0].msg;
        return false;
    }
    if (msg) {
        char b[128];
        *msg = status_text(st, b, sizeof(b));
        if (g_slots[0].msg[0]) { *msg += ": "; *msg += g_slots[0].msg; }
        else {
            FILE *f = fopen(g_errlog.c_str(), "r");
            if (f) {
                char line[512];
                int n = 0;
                while (n < 400 && fgets(line, sizeof(line), f)) {
                    n++;
                    if (strstr(line, "ERROR: ") || strstr(line, "runtime error") ||
                        strstr(line, "SUMMARY") || strstr(line, "WARNING: Mem")) {
                        *msg += " | ";
                        line[strcspn(line, "\n")] = 0;
                        *msg += line;
                    }
                }
                fclose(f);
            }
        }
    }
    return true;
}

static std::vector<u64> shrink(const Prop &p, std::vector<u64> best, double budget, unsigned long cpu)
{
    double end = now() + budget;
    bool progress = true;
    auto better = [&](std::vector<u64> &cand) {
        while (!cand.empty() && cand.back() == 0) cand.pop_back();
        if (cand == best) return false;
        if (cand.size() > best.size()) return false;
        if (run_child(p, cand, NULL, NULL, cpu)) { best = cand; return true; }
        return false;
    };
    while (progress && now() < end) {
        progress = false;
        // Remove blocks.
        for (size_t len = std::max<size_t>(best.size() / 2, 1); len >= 1 && now() < end; len /= 2) {
            for (size_t i = 0; i + len <= best.size() && now() < end;) {
                std::vector<u64> c = best;
                c.erase(c.begin() + (long)i, c.begin() + (long)(i + len));
                if (better(c)) progress = true; else i += len;
            }
            if (len == 1) break;
        }
        // Lower single values.
        for (size_t i = 0; i < best.size() && now() < end; i++) {
            if (best[i] == 0) continue;
            std::vector<u64> c = best;
            c[i] = 0;
            if (better(c)) { progress = true; continue; }
            u64 lo = 0, hi = i < best.size() ? best[i] : 0;
            while (hi - lo > 1 && i < best.size() && now() < end) {
                u64 mid = lo + (hi - lo) / 2;
                c = best;
                c[i] = mid;
                if (better(c)) { progress = true; hi = mid; } else lo = mid;
            }
        }
    }
    return best;
}

// Runs cases after each other in one fresh child, as a worker does.
static bool run_cases(const Prop &p, u64 seed, const std::vector<u64> &cases, std::string *msg, size_t *count)
{
    g_slots[0].msg[0] = 0;
    g_slots[0].current = 0;
    fflush(NULL);
    pid_t pid = fork();
    if (pid == 0) {
        g_slot = &g_slots[0];
        int fd = open(g_errlog.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
        if (fd >= 0) { dup2(fd, 2); dup2(fd, 1); }
        std::string dir = std::string(g_scratch) + "/h";
        mkdir(dir.c_str(), 0700);
        g_scratch = strdup(dir.c_str());
        for (size_t n = 0; n < cases.size(); n++) {
            g_slot->current = n + 1;
            Src src = Src::from_seed(case_seed(seed, p.id, cases[n]));
            Case c;
            set_cpu_timer(p.cpu_limit_s);
            p.fn(src, c);
            set_cpu_timer(0);
        }
        _exit(0);
    }
    int st;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    *count = (size_t)g_slots[0].current;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return false;
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) return false;
    char b[128];
    *msg = status_text(st, b, sizeof(b));
    if (g_slots[0].msg[0]) { *msg += ": "; *msg += g_slots[0].msg; }
    return msg->find("harness: ") == std::string::npos;
}

// A case that only fails after others of its worker: the cases it takes.
static bool history(const Prop &p, u64 seed, u64 index, u64 step, double budget, std::vector<u64> *best, std::string *msg)
{
    double deadline = now() + budget;
    std::vector<u64> all;
    for (u64 i = index % step; i <= index; i += step) all.push_back(i);
    best->clear();
    size_t count;
    for (size_t n = 2; best->empty(); n *= 4) {
        if (now() > deadline) return false;
        std::vector<u64> part(all.end() - (long)std::min(n, all.size()), all.end());
        if (run_cases(p, seed, part, msg, &count)) best->assign(part.begin(), part.begin() + (long)count);
        else if (n >= all.size()) return false;
    }
    for (size_t size = (best->size() - 1) / 2; size >= 1; size /= 2) {
        size_t i = 0;
        while (i + 1 < best->size() && now() < deadline) {
            std::vector<u64> part(best->begin(), best->begin() + (long)i);
            part.insert(part.end(), best->begin() + (long)std::min(i + size, best->size() - 1), best->end());
            if (run_cases(p, seed, part, msg, &count)) best->assign(part.begin(), part.begin() + (long)count);
            else i += size;
        }
    }
    for (int i = 0; i < 2; i++)
        if (!run_cases(p, seed, *best, msg, &count) || msg->find("(no termination)") != std::string::npos) return false;
    return true;
}

// A replay file has the choices of a case, or a seed and the numbers of cases.
static bool load_replay(const char *path, std::string *id, std::vector<u64> *v, std::vector<u64> *sequence)
{
    FILE *f = fopen(path, "r");
    if (!f) return false;
    char line[1 << 16];
    bool in = false;
    while (fgets(line, sizeof(line), f)) {
        char name[64];
        if (sscanf(line, "property %63s", name) == 1) { *id = name; continue; }
        if (!strncmp(line, "choices", 7)) { in = true; continue; }
        if (!strncmp(line, "sequence", 8)) {
            char *p = line + 8, *e;
            for (;;) {
                u64 x = strtoull(p, &e, 10);
                if (e == p) break;
                sequence->push_back(x);
                p = e;
            }
            in = true;
            continue;
        }
        if (in && line[0] != '#') {
            char *p = line, *e;
            for (;;) {
                u64 x = strtoull(p, &e, 10);
                if (e == p) break;
                v->push_back(x);
                p = e;
            }
        }
    }
    fclose(f);
    return in;
}

static void save_replay(const char *path, const Prop &p, u64 seed, u64 index,
                        const std::vector<u64> &v, const std::string &msg)
{
    FILE *f = fopen(path, "w");
    if (!f) return;
    std::string m = msg;
    std::replace(m.begin(), m.end(), '\n', ' ');
    fprintf(f, "# replay: see /verif/DESIGN.md (run_check.py --replay FILE)\n");
    fprintf(f, "property %s\n", p.id);
    fprintf(f, "# seed %llu case %llu\n", (unsigned long long)seed, (unsigned long long)index);
    fprintf(f, "# failure: %s\n", m.c_str());
    fprintf(f, "choices\n");
    for (size_t i = 0; i < v.size(); i++)
        fprintf(f, "%llu%c", (unsigned long long)v[i], (i % 16 == 15) ? '\n' : ' ');
    fprintf(f, "\n");
    fclose(f);
}

static std::string json_escape(const std::string &s)
{
    std::string o;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof(b), "\\u%04x", c); o += b; }
        else o += (char)c;
    }
    return o;
}

static const Prop *find_prop(const std::string &id)
{
    for (size_t i = 0; i < g_nprops; i++)
        if (id == g_props[i].id || id == g_props[i].name) return &g_props[i];
    return NULL;
}

#ifndef ENGINE_NO_MAIN
int main(int argc, char **argv)
{
    std::string id, replay, out = "result.json", replay_out = "replay.txt", scratch = "/tmp";
    u64 seed = 1, cases = 1000;
    double wall = 300, shrink_s = 40;
    int workers = 8;
    int one = -1;
    bool guided = false;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--prop") id = val();
        else if (a == "--seed") seed = strtoull(val().c_str(), NULL, 10);
        else if (a == "--cases") cases = strtoull(val().c_str(), NULL, 10);
        else if (a == "--wall") wall = atof(val().c_str());
        else if (a == "--shrink") shrink_s = atof(val().c_str());
        else if (a == "--workers") workers = atoi(val().c_str());
        else if (a == "--out") out = val();
        else if (a == "--replay-out") replay_out = val();
        else if (a == "--replay") replay = val();
        else if (a == "--scratch") scratch = val();
        else if (a == "--guided") guided = true;
        else if (a == "--thorough") g_tier_thorough = 1;
        else if (a == "--one") one = atoi(val().c_str());
        else { fprintf(stderr, "bad argument %s\n", a.c_str()); return 2; }
    }
    g_workers = std::min(workers, MAX_WORKERS);
    g_scratch = strdup(scratch.c_str());
    mkdir(scratch.c_str(), 0700);
    g_errlog = scratch + "/child.err";
    g_slots = (Slot *)mmap(NULL, sizeof(Slot) * MAX_WORKERS, PROT_READ | PROT_WRITE,
                           MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    signal(SIGPIPE, SIG_IGN);
    setvbuf(stdout, NULL, _IOLBF, 0);

    if (!replay.empty()) {
        std::vector<u64> v;
        std::string rid, msg;
        std::vector<u64> sequence;
        if (!load_replay(replay.c_str(), &rid, &v, &sequence)) { fprintf(stderr, "cannot read %s\n", replay.c_str()); return 2; }
        const Prop *p = find_prop(id.empty() ? rid : id);
        if (!p) { fprintf(stderr, "unknown property\n"); return 2; }
        bool f;
        size_t count;
        if (sequence.size() > 2) {
            g_tier_thorough = (int)sequence[1];
            f = run_cases(*p, sequence[0], std::vector<u64>(sequence.begin() + 2, sequence.end()), &msg, &count);
        }
        else f = run_child(*p, v, &msg, NULL, p->cpu_limit_s);
        printf("%s: %s\n", f ? "FAILED" : "ok", msg.c_str());
        return f ? 1 : 0;
    }

    const Prop *p = find_prop(id);
    if (!p) { fprintf(stderr, "unknown property %s\n", id.c_str()); return 2; }

    if (one >= 0) {
        Src src = Src::from_seed(case_seed(seed, p->id, (u64)one));
        Case c;
        p->fn(src, c);
        printf("nontrivial %d: %s\n", c.nontrivial, c.summary.c_str());
        return 0;
    }

    g_hashes = (u64 *)mmap(NULL, (cases + 1) * 8, PROT_READ | PROT_WRITE,
                           MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    std::vector<Plan *> plans;
    if (guided) {
        seed ^= 0x6775696465ull << 16;     // other cases than those of a random campaign
        for (int w = 0; w < g_workers; w++)
            plans.push_back((Plan *)mmap(NULL, sizeof(Plan), PROT_READ | PROT_WRITE,
                                         MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
        g_seen = (u8 *)calloc(SEEN, 1);
    }
    u64 fail_worker = 0;
    double t0 = now();
    double deadline = t0 + wall;
    std::vector<pid_t> pids((size_t)g_workers, 0);
    fflush(NULL);
    for (int w = 0; w < g_workers; w++) {
        pid_t pid = fork();
        if (pid == 0) {
            g_slot = &g_slots[w];
            std::string err = scratch + strf("/worker%d.err", w);
            int fd = open(err.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
            if (fd >= 0) { dup2(fd, 2); dup2(fd, 1); }
            std::string dir = scratch + strf("/w%d", w);
            mkdir(dir.c_str(), 0700);
            g_scratch = strdup(dir.c_str());
            if (guided) { g_plan = plans[(size_t)w]; guided_worker(*p, seed, cases, w, deadline); }
            else worker(*p, seed, cases, w, deadline);
            _exit(0);
        }
        pids[(size_t)w] = pid;
    }
    int failures = 0;
    u64 fail_index = ~0ull;
    std::string fail_msg;
    std::string infra;
    for (int n = 0; n < g_workers; n++) {
        int st;
        pid_t pid = waitpid(-1, &st, 0);
        if (pid < 0) { if (errno == EINTR) { n--; continue; } break; }
        int w = -1;
        for (int k = 0; k < g_workers; k++) if (pids[(size_t)k] == pid) w = k;
        if (w < 0) { n--; continue; }
        pids[(size_t)w] = 0;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
        if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL && failures == 0) { infra = "worker killed"; continue; }
        if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) continue;
        char b[128];
        if (!g_slots[w].in_case) { infra = strf("worker died outside a case: %s", status_text(st, b, sizeof(b))); continue; }
        failures++;
        if (g_slots[w].current < fail_index) {
            fail_index = g_slots[w].current;
            fail_worker = (u64)w;
            fail_msg = std::string(status_text(st, b, sizeof(b)));
            if (g_slots[w].msg[0]) { fail_msg += ": "; fail_msg += g_slots[w].msg; }
        }
        // Stop the others; one counterexample is enough.
        for (int k = 0; k < g_workers; k++) if (pids[(size_t)k] > 0) kill(pids[(size_t)k], SIGKILL);
    }
    double t1 = now();

    // Aggregate.
    u64 done = 0, nontriv = 0;
    std::map<std::string, u64> labels;
    std::vector<std::string> samples;
    double slowest_cpu = 0;
    u64 slowest = 0;
    for (int w = 0; w < g_workers; w++) {
        if (g_slots[w].slowest_cpu > slowest_cpu) { slowest_cpu = g_slots[w].slowest_cpu; slowest = g_slots[w].slowest; }
        done += g_slots[w].done;
        nontriv += g_slots[w].nontrivial;
        for (int k = 0; k < g_slots[w].nlabels; k++) labels[g_slots[w].labels[k]] += g_slots[w].label_counts[k];
    }
    for (int s = 0; s < 8 && samples.size() < 8; s++)
        for (int w = 0; w < g_workers && samples.size() < 8; w++)
            if (s < g_slots[w].nsamples) samples.push_back(g_slots[w].samples[s]);
    std::vector<u64> hs;
    for (u64 i = 0; i < cases; i++) if (g_hashes[i]) hs.push_back(g_hashes[i]);
    std::sort(hs.begin(), hs.end());
    u64 distinct = (u64)(std::unique(hs.begin(), hs.end()) - hs.begin());

    int violations = 0;
    std::string flaky;
    if (failures) {
        // Regenerate the choices by a recording run in a child: a failing
        // case never returns, so record them from the generator instead.
        Src src = Src::from_seed(case_seed(seed, p->id, fail_index));
        // The random stream is replayed value by value: a Src in replay mode
        // reduces any value modulo the bound, and splitmix output modulo the
        // same bound is what random mode produced.
        std::vector<u64> raw;
        if (guided) raw.assign(plans[fail_worker]->values, plans[fail_worker]->values + plans[fail_worker]->size);
        u64 s = src.state;
        for (int i = 0; i < 20000; i++) raw.push_back(splitmix(s));
        std::string msg;
        int ok = 0;
        // A hang takes its time: it is repeated less, and is made smaller
        // with less time for every attempt.
        bool hang = fail_msg.find("(no termination)") != std::string::npos;
        int repeats = hang ? 1 : 3;
        for (int i = 0; i < repeats; i++) if (run_child(*p, raw, &msg, NULL, p->cpu_limit_s)) ok++;
        if (fail_msg.find("harness: ") != std::string::npos || msg.find("harness: ") != std::string::npos) {
            infra = fail_msg;
        } else if (ok == repeats) {
            std::vector<u64> best = shrink(*p, raw, shrink_s, hang ? 5 : p->cpu_limit_s);
            ok = 0;
            for (int i = 0; i < repeats; i++) if (run_child(*p, best, &msg, NULL, p->cpu_limit_s)) ok++;
            if (ok != repeats) {
                best = raw;
                if (hang) msg = fail_msg;
                else run_child(*p, best, &msg, NULL, p->cpu_limit_s);
            }
            violations = 1;
            save_replay(replay_out.c_str(), *p, seed, fail_index, best, msg);
            fail_msg = msg;
        } else {
            flaky = strf("case %llu failed in the campaign (%s) but only %d of %d replays failed",
                         (unsigned long long)fail_index, fail_msg.c_str(), ok, repeats);
            // It may take what the worker did before.
            std::vector<u64> cases_;
            if (!guided && !hang && history(*p, seed, fail_index, (u64)g_workers, shrink_s + 20, &cases_, &msg)) {
                fail_msg = strf("after %zu other cases: %s", cases_.size() - 1, msg.c_str());
                FILE *f = fopen(replay_out.c_str(), "w");
                if (f) {
                    fprintf(f, "# replay: see /verif/DESIGN.md (run_check.py --replay FILE)\nproperty %s\n# cases after each other in one process\n"
                            "sequence %llu %d", p->id, (unsigned long long)seed, g_tier_thorough);
                    for (u64 i : cases_) fprintf(f, " %llu", (unsigned long long)i);
                    fprintf(f, "\n");
                    fclose(f);
                }
                violations = 1;
                flaky.clear();
            }
        }
    }

    FILE *f = fopen(out.c_str(), "w");
    if (!f) return 2;
    fprintf(f, "{\"requested\": %llu, \"evaluations\": %llu, \"nontrivial\": %llu, \"distinct_nontrivial\": %llu,\n",
            (unsigned long long)cases, (unsigned long long)done, (unsigned long long)nontriv, (unsigned long long)distinct);
    fprintf(f, " \"violations\": %d, \"message\": \"%s\", \"flaky\": \"%s\", \"infra\": \"%s\", \"wall_s\": %.2f,\n"
            " \"slowest_case_cpu_s\": %.2f, \"slowest_case\": %llu,\n \"labels\": {",
            violations, json_escape(fail_msg).c_str(), json_escape(flaky).c_str(), json_escape(infra).c_str(), t1 - t0,
            slowest_cpu, (unsigned long long)slowest);
    bool first = true;
    for (auto &kv : labels) {
        fprintf(f, "%s\"%s\": %llu", first ? "" : ", ", json_escape(kv.first).c_str(), (unsigned long long)kv.second);
        first = false;
    }
    fprintf(f, "},\n \"samples\": [");
    for (size_t i = 0; i < samples.size(); i++)
        fprintf(f, "%s\"%s\"", i ? ", " : "", json_escape(samples[i]).c_str());
    fprintf(f, "]}\n");
    fclose(f);
    return violations ? 1 : 0;
}
#endif
