// Clique and biclique searches straight on the C++ core: faulty lattices, many requests on one object in any order.
//   busq SEED LO HI STEP BASES MODE      MODE: cliques, bicliques or both
#include "common.hpp"
#include <algorithm>
#include <cstring>
#include <fstream>
#include <memory>
#include <sstream>
#include "busclique/util.hpp"
#include "busclique/topo_cache.hpp"
#include "busclique/find_clique.hpp"
#include "busclique/find_biclique.hpp"
#include "busclique/small_cliques.hpp"

typedef std::vector<size_t> Nodes;
typedef std::vector<std::pair<size_t, size_t>> Links;
typedef std::vector<std::vector<size_t>> Emb;

struct Base {
    char family;
    size_t m, n, t;
    std::vector<uint8_t> voff, hoff;
    Nodes nodes;
    Links edges;
    std::string name;
};

static std::vector<Base> load(const char *path) {
    std::ifstream f(path);
    std::vector<Base> out;
    Base b;
    size_t k, x, y;
    while (f >> b.family >> b.m >> b.n >> b.t) {
        b.voff.clear(), b.hoff.clear(), b.nodes.clear(), b.edges.clear();
        for (f >> k; k--;) { f >> x; b.voff.push_back(x); }
        for (f >> k; k--;) { f >> x; b.hoff.push_back(x); }
        for (f >> k; k--;) { f >> x; b.nodes.push_back(x); }
        for (f >> k; k--;) { f >> x >> y; b.edges.push_back({x, y}); }
        b.name = std::string(1, b.family) + std::to_string(b.m) + "x" + std::to_string(b.n) + "x" + std::to_string(b.t);
        out.push_back(b);
    }
    return out;
}

static long long evals = 0, found = 0, masks = 0, faulty = 0;

struct Graph {
    Nodes nodes;
    Links edges;
    std::map<size_t, std::set<size_t>> adj;
    std::string text(const std::string &name) const {
        std::ostringstream o;
        o << name << " nodes";
        for (auto v : nodes) o << " " << v;
        o << " edges";
        for (auto &e : edges) o << " " << e.first << "-" << e.second;
        return o.str();
    }
};

static std::string show(const Emb &e) {
    std::ostringstream o;
    for (auto &c : e) { o << "["; for (auto q : c) o << q << " "; o << "]"; }
    return o.str();
}

// "" or what is wrong; sides: the first s0 chains against the rest, or all pairs when s0 is -1
static std::string faults(const Emb &e, const Graph &g, long s0) {
    std::map<size_t, size_t> owner;
    for (size_t i = 0; i < e.size(); i++) {
        if (e[i].empty()) return "empty";
        for (auto q : e[i]) {
            if (!g.adj.count(q)) return "unknown";
            if (!owner.insert({q, i}).second) return "overlap";
        }
        std::set<size_t> mine(e[i].begin(), e[i].end()), seen = {e[i][0]};
        std::vector<size_t> todo = {e[i][0]};
        while (todo.size()) {
            size_t q = todo.back();
            todo.pop_back();
            for (auto w : g.adj.at(q))
                if (mine.count(w) && seen.insert(w).second) todo.push_back(w);
        }
        if (seen.size() != mine.size()) return "broken";
    }
    std::set<std::pair<size_t, size_t>> have;
    for (auto &ed : g.edges) {
        auto a = owner.find(ed.first), b = owner.find(ed.second);
        if (a != owner.end() && b != owner.end()) {
            have.insert({a->second, b->second});
            have.insert({b->second, a->second});
        }
    }
    for (size_t i = 0; i < e.size(); i++)
        for (size_t j = s0 < 0 ? i + 1 : (size_t)s0; j < e.size(); j++)
            if (s0 < 0 || (long)i < s0)
                if (!have.count({i, j})) return "missing-edge";
    return "";
}

static size_t longest(const Emb &e, size_t n) {
    size_t l = 0;
    for (size_t i = 0; i < e.size() && i < n; i++) l = std::max(l, e[i].size());
    return l;
}

static Graph damage(vp::Rng &r, const Base &b) {
    Graph g;
    double pn = 0, pe = 0;
    switch (r.below(6)) {
        case 0: break;
        case 1: pn = 2. / (b.nodes.size() + 1); break;
        case 2: pe = 3. / (b.edges.size() + 1); break;
        case 3: pn = .05 * r.below(4); pe = .02 * r.below(4); break;
        case 4: pe = .1 * r.below(9); break;
        default: pn = .1 * r.below(10); pe = .1 * r.below(5);
    }
    for (auto v : b.nodes)
        if (!r.chance(pn)) { g.nodes.push_back(v); g.adj[v]; }
    for (auto e : b.edges)
        if (g.adj.count(e.first) && g.adj.count(e.second) && !r.chance(pe)) {
            g.edges.push_back(e);
            g.adj[e.first].insert(e.second);
            g.adj[e.second].insert(e.first);
        }
    return g;
}

template <class S>
static void play(long long i, vp::Rng &r, const Base &b, const Graph &g, const S &spec, uint32_t seed, const std::string &mode, size_t bound) {
    using namespace busclique;
    auto fresh = [&] {
        auto t = std::unique_ptr<topo_cache<S>>(new topo_cache<S>(spec, g.nodes, g.edges));
        t->set_mask_bound(bound);
        return t;
    };
    auto bad = [&](const std::string &key, const std::string &msg) {
        vp::violation(i, key, msg + " seed=" + std::to_string(seed) + " bound=" + std::to_string(bound) + " in " + g.text(b.name));
    };
    auto topo = fresh();
    Emb one;
    short_clique(spec, g.nodes, g.edges, one);
    std::string f = faults(one, g, -1);
    if (f.size() || (one.empty() && g.nodes.size()) || longest(one, one.size()) > 1) bad("short-" + f, show(one));
    uint64_t sig = 14695981039346656037ull;
    size_t top = 3 * (size_t)(1 + sqrt(g.nodes.size()));
    int ops = r.range(1, 4);
    for (int k = 0; k < ops; k++) {
        int what = mode == "cliques" ? r.below(2) : mode == "bicliques" ? 2 : r.below(4);
        evals++;
        if (what == 0) {
            size_t n = r.chance(.4) ? r.range(1, 6) : r.range(1, (int)top);
            Emb e, e2;
            bool ok = find_clique(*topo, n, e);
            bool ok2 = find_clique(*fresh(), n, e2);
            if (ok != ok2 || e != e2) bad("history", "find_clique(" + std::to_string(n) + ") on a used object: " + show(e) + " on a new one: " + show(e2));
            if (!ok) continue;
            f = faults(e, g, -1);
            if (e.size() < n) bad("small", "find_clique(" + std::to_string(n) + ") returned " + show(e));
            else if (f.size()) bad("invalid-" + f, "find_clique(" + std::to_string(n) + "): " + show(e));
            found++;
            sig = vp::hash(vp::hash(sig, n), longest(e, n));
        } else if (what == 1) {
            std::vector<Emb> all, all2;
            best_cliques(*topo, all, one);
            best_cliques(*fresh(), all2, one);
            if (all != all2) bad("history", "best_cliques differs on a used object and a new one");
            for (size_t l = 0; l < all.size(); l++) {
                if (all[l].empty()) continue;
                f = faults(all[l], g, -1);
                if (f.size()) bad("invalid-" + f, "best_cliques at chain length " + std::to_string(l) + ": " + show(all[l]));
                if (longest(all[l], all[l].size()) > l) bad("chainlength", "best_cliques at chain length " + std::to_string(l) + ": " + show(all[l]));
                found++;
                sig = vp::hash(sig, l * 1000 + all[l].size());
            }
        } else if (what == 2) {
            std::vector<std::pair<std::pair<size_t, size_t>, Emb>> all, all2;
            best_bicliques(*topo, all);
            best_bicliques(*fresh(), all2);
            std::sort(all.begin(), all.end());
            std::sort(all2.begin(), all2.end());
            if (all != all2) bad("history", "best_bicliques differs on a used object and a new one");
            size_t step = all.size() > 60 ? r.range(1, (int)(all.size() / 60 + 1)) : 1;
            for (size_t x = 0; x < all.size(); x += step) {
                auto &z = all[x];
                std::string k2 = std::to_string(z.first.first) + "," + std::to_string(z.first.second);
                sig = vp::hash(sig, z.first.first * 1000 + z.first.second);
                if (z.second.empty()) continue;
                f = faults(z.second, g, z.first.first);
                if (z.second.size() != z.first.first + z.first.second) bad("sides", "K_" + k2 + ": " + show(z.second));
                else if (f.size()) bad("invalid-" + f, "K_" + k2 + ": " + show(z.second));
                found++;
            }
        } else {
            // exactly as large as promised: an overrun is for the sanitizer to see
            size_t n = topo->serialize(serialize_size_tag(), nullptr);
            std::unique_ptr<uint8_t[]> buf(new uint8_t[n]), buf2(new uint8_t[n]);
            memset(buf.get(), 0xAA, n);
            memset(buf2.get(), 0x55, n);
            topo->serialize(serialize_write_tag(), buf.get());
            fresh()->serialize(serialize_write_tag(), buf2.get());
            if (memcmp(buf.get(), buf2.get(), n)) bad("serialize", "two identical graphs serialize differently");
            for (size_t x = 0; x < n; x++) sig = vp::hash(sig, buf[x]);
            for (auto q : topo->fragment_nodes()) sig = vp::hash(sig, q);
            for (auto e : topo->fragment_edges()) sig = vp::hash(sig, e.first ^ e.second << 20);
            Nodes copy = g.nodes;
            for (auto q : topo->topo.fragment_nodes(copy)) sig = vp::hash(sig, q);
        }
    }
    printf("SIG %016llx\n", (unsigned long long)sig);
}

int main(int argc, char **argv) {
    uint64_t seed = strtoull(argv[1], 0, 10);
    long long lo = atoll(argv[2]), hi = atoll(argv[3]), step = atoll(argv[4]);
    std::vector<Base> bases = load(argv[5]);
    std::string mode = argv[6];
    size_t cap = argc > 7 ? strtoull(argv[7], 0, 10) : 1000000;
    for (long long i = lo; i < hi; i += step) {
        printf("CASE %lld\n", i);
        fflush(stdout);
        vp::Rng r(seed * 1000003 + i);
        const Base *b = &r.pick(bases);
        while (b->nodes.size() > cap) b = &r.pick(bases);
        Graph g = damage(r, *b);
        if (g.nodes.empty()) continue;
        faulty += g.nodes.size() < b->nodes.size() || g.edges.size() < b->edges.size();
        static const size_t bounds[] = {64, 64, 0, 1, 2, 7, 300};
        size_t bound = bounds[r.below(g.nodes.size() > 300 ? 6 : 7)];
        uint32_t s = (uint32_t)(r.chance(.3) ? 0 : r.next());
        if (b->family == 'c') play(i, r, *b, g, busclique::chimera_spec(b->m, b->n, (uint8_t)b->t, s), s, mode, bound);
        else if (b->family == 'p') play(i, r, *b, g, busclique::pegasus_spec(b->m, b->voff, b->hoff, s), s, mode, bound);
        else play(i, r, *b, g, busclique::zephyr_spec(b->m, (uint8_t)b->t, s), s, mode, bound);
        fflush(stdout);
    }
    vp::stat("embeddings_checked", found);
    vp::stat("faulty_graphs", faulty);
    printf("END %lld\n", evals);
    return 0;
}
