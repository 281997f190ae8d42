// Parallel searches under ThreadSanitizer, with scheduling noise from the allocator.
#include "common.hpp"
static std::atomic<unsigned> noise_level{0};
static std::atomic<unsigned long long> noise_count{0}, noise_hits{0};
static void noise() {
    unsigned n = noise_level.load(std::memory_order_relaxed);
    if (!n) return;
    unsigned long long c = noise_count.fetch_add(1, std::memory_order_relaxed) * 0x9E3779B97F4A7C15ull;
    c ^= c >> 31;
    if (c % n == 0) {
        noise_hits.fetch_add(1, std::memory_order_relaxed);
        if (c & 64) std::this_thread::yield(); else usleep(c >> 40 & 15);
    }
}
#ifndef VP_PLAIN
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *));
static void on_malloc(const volatile void *, size_t) { noise(); }
static void on_free(const volatile void *) { noise(); }
#endif

#include "find_embedding/find_embedding.hpp"

struct Quiet : find_embedding::LocalInteraction {
    void displayOutputImpl(int, const std::string &) const override {}
    void displayErrorImpl(int, const std::string &) const override {}
    bool cancelledImpl() const override { return false; }
};

struct Problem {
    vp::Edges S, T;
    uint64_t seed;
    int threads, tries, patience, hint, verbose;
    std::vector<int> shape;
};

static Problem make(vp::Rng &r) {
    Problem p;
    p.S = vp::source(r);
    p.T = vp::target(r);
#ifdef VP_PLAIN
    // small problems only: this build runs under valgrind
    while (vp::nodes(p.S) > 9) p.S = vp::source(r);
    while (vp::nodes(p.T) > 40) p.T = vp::target(r);
#endif
    p.seed = r.next();
    p.threads = r.range(2, 9);
    p.tries = r.range(1, 3);
    p.patience = r.below(4);
    p.hint = r.below(5);
    p.verbose = r.chance(.2) ? r.range(1, 3) : 0;
    return p;
}

typedef std::vector<std::vector<int>> Chains;
static std::string solve(const Problem &p, int threads, Chains &out, int &ok) {
    graph::input_graph S, T;
    for (auto &e : p.S) S.push_back(e.first, e.second);
    for (auto &e : p.T) T.push_back(e.first, e.second);
    find_embedding::optional_parameters o;
    o.localInteractionPtr.reset(new Quiet());
    o.seed(p.seed);
    o.threads = threads;
    o.tries = p.tries;
    o.max_no_improvement = 3;
    o.chainlength_patience = p.patience;
    o.return_overlap = true;
    o.timeout = 60;
    o.verbose = p.verbose;
    vp::Rng r(p.seed);
    int n = vp::nodes(p.S), m = vp::nodes(p.T);
    if (p.hint == 1) o.fixed_chains[r.below(n)] = {p.T[r.below((int)p.T.size())].first};
    if (p.hint == 2)
        for (int v = 0; v < n; v++)
            if (r.chance(.5)) {
                std::vector<int> d;
                for (int q = 0; q < m; q++)
                    if (r.chance(.7)) d.push_back(q);
                if (d.size()) o.restrict_chains[v] = d;
            }
    if (p.hint == 3)
        for (int v = 0; v < n; v++)
            if (r.chance(.5)) o.initial_chains[v] = {p.T[r.below((int)p.T.size())].second};
    out.clear();
    ok = 0;
    try {
        ok = find_embedding::findEmbedding(S, T, o, out);
    } catch (const minorminer::MinorMinerException &e) {
        return e.what();
    }
    return "";
}

static std::string show(const Chains &c) {
    std::string s;
    for (auto &x : c) { s += "["; for (int q : x) s += std::to_string(q) + " "; s += "]"; }
    return s;
}

int main(int argc, char **argv) {
    uint64_t seed = strtoull(argv[1], 0, 10);
    long long lo = atoll(argv[2]), hi = atoll(argv[3]), step = atoll(argv[4]);
#ifndef VP_PLAIN
    __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
#endif
    long long rounds = 0, success = 0, excs = 0, concurrent = 0;
    for (long long i = lo; i < hi; i += step) {
        printf("CASE %lld\n", i);
        fflush(stdout);
        vp::Rng r(seed * 1000003 + i);
        static const unsigned levels[] = {0, 10, 30, 100, 1000};
        noise_level = levels[r.below(5)];
#ifdef VP_PLAIN
        {
            Problem p = make(r);
            Chains a;
            int ok;
            std::string e = solve(p, r.chance(.6) ? 1 : r.range(2, 4), a, ok);
            rounds++;
            success += ok;
            excs += !e.empty();
            uint64_t h = 14695981039346656037ull;
            for (auto &c : a) for (int q : c) h = vp::hash(h, q + 1);
            if (ok) printf("SIG %016llx\n", (unsigned long long)h);
            continue;
        }
#endif
        if (r.chance(.7)) {
            // one search with worker threads, repeated under other noise
            Problem p = make(r);
            Chains a, b;
            int oa, ob;
            std::string ea = solve(p, p.threads, a, oa);
            noise_level = levels[r.below(5)];
            std::string eb = solve(p, p.threads, b, ob);
            rounds += 2;
            success += oa;
            excs += !ea.empty();
            if (a != b || oa != ob || ea != eb)
                vp::violation(i, "schedule-dependent", "threads=" + std::to_string(p.threads) + " first " + ea + show(a) + " then " + eb + show(b));
            uint64_t h = 14695981039346656037ull;
            for (auto &c : a) for (int q : c) h = vp::hash(h, q + 1);
            if (oa) printf("SIG %016llx\n", (unsigned long long)vp::hash(h, p.threads));
        } else {
            // several searches at once, each compared with the same search alone
            int k = r.range(2, 5);
            std::vector<Problem> ps;
            for (int j = 0; j < k; j++) ps.push_back(make(r));
            std::vector<Chains> alone(k), together(k);
            std::vector<int> oa(k), ot(k);
            std::vector<std::string> ea(k), et(k);
            std::vector<int> th(k);
            for (int j = 0; j < k; j++) th[j] = r.chance(.5) ? 1 : ps[j].threads % 3 + 2;
            for (int j = 0; j < k; j++) ea[j] = solve(ps[j], th[j], alone[j], oa[j]);
            noise_level = levels[r.below(5)];
            std::vector<std::thread> ts;
            for (int j = 0; j < k; j++)
                ts.emplace_back([&, j] { et[j] = solve(ps[j], th[j], together[j], ot[j]); });
            for (auto &t : ts) t.join();
            for (int j = 0; j < k; j++) {
                rounds += 2;
                concurrent++;
                success += oa[j];
                if (alone[j] != together[j] || oa[j] != ot[j] || ea[j] != et[j])
                    vp::violation(i, "concurrent-differs", "alone " + ea[j] + show(alone[j]) + " together " + et[j] + show(together[j]));
                uint64_t h = 14695981039346656037ull;
                for (auto &c : alone[j]) for (int q : c) h = vp::hash(h, q + 1);
                if (oa[j]) printf("SIG %016llx\n", (unsigned long long)vp::hash(h, 100 + th[j]));
            }
        }
    }
    vp::stat("searches", rounds);
    vp::stat("embedded", success);
    vp::stat("exceptions", excs);
    vp::stat("concurrent_searches", concurrent);
    vp::stat("allocations_seen", (long long)noise_count.load());
    vp::stat("delays_injected", (long long)noise_hits.load());
    printf("END %lld\n", rounds);
    return 0;
}
