// Random histories of operations on the real embedding class; every invariant recomputed after each operation.
#include "common.hpp"
#include <functional>
#include <queue>
#include <sstream>
#include "find_embedding/find_embedding.hpp"
using namespace find_embedding;
using std::map;
using std::string;
using std::vector;

struct Quiet : LocalInteraction {
    void displayOutputImpl(int, const string &) const override {}
    void displayErrorImpl(int, const string &) const override {}
    bool cancelledImpl() const override { return false; }
};

struct ChainSnap {
    map<int, std::pair<int, int>> data;  // qubit -> parent, references
    map<int, int> links;
    bool operator==(const ChainSnap &o) const { return data == o.data && links == o.links; }
};
typedef vector<ChainSnap> Snap;

static long long N_ops = 0, N_steal = 0, N_built = 0, N_over = 0, N_fixed = 0, N_masked = 0, N_moved = 0, N_shortened = 0, N_checks = 0;

template <class EP>
struct Run {
    typedef embedding<EP> E;
    long long idx;
    vp::Rng &r;
    parameter_processor &pp;
    EP ep;
    int nv, nf, nq, nr;
    vector<std::set<int>> qadj;
    vector<std::set<int>> vadj;
    string hist;
    bool failed = false;

    Run(long long i, vp::Rng &r, parameter_processor &pp)
            : idx(i), r(r), pp(pp),
              ep(pp.params, pp.num_vars - pp.num_fixed, pp.num_fixed, pp.problem_qubits - pp.problem_reserved, pp.problem_reserved,
                 pp.var_nbrs, pp.qubit_nbrs),
              nv(ep.num_vars()), nf(ep.num_fixed()), nq(ep.num_qubits()), nr(ep.num_reserved()), qadj(nq + nr), vadj(nv + nf) {
        for (int q = 0; q < nq + nr; q++)
            for (int p : ep.qubit_neighbors(q)) { qadj[q].insert(p); qadj[p].insert(q); }
        for (int u = 0; u < nv; u++)
            for (int v : ep.var_neighbors(u)) { vadj[u].insert(v); vadj[v].insert(u); }
    }

    void bad(const char *key, const string &msg) {
        if (failed) return;
        failed = true;
        vp::violation(idx, key, msg + " | history: " + hist.substr(hist.size() > 900 ? hist.size() - 900 : 0));
    }

    Snap snap(const E &e) {
        Snap s(nv + nf);
        for (int v = 0; v < nv + nf; v++) {
            const chain &c = e.get_chain(v);
            for (auto &q : c) s[v].data[q] = {c.parent(q), c.refcount(q)};
            for (int x = 0; x < nv + nf; x++)
                if (c.get_link(x) != -1) s[v].links[x] = c.get_link(x);
        }
        return s;
    }

    void check(const E &e, const char *op, const E *other = nullptr) {
        N_checks++;
        Snap s = snap(e);
        vector<int> w(nq + nr, 0);
        for (int v = 0; v < nv + nf; v++) {
            ChainSnap &c = s[v];
            if (c.data.size() != e.get_chain(v).size() || c.data.size() != e.chainsize(v)) return bad("size", string("chain size of ") + std::to_string(v) + " after " + op);
            map<int, int> refs;
            for (auto &d : c.data) {
                if (d.first < 0 || d.first >= nq + nr) return bad("range", string("qubit out of range after ") + op);
                w[d.first]++;
                if (!e.has_qubit(v, d.first)) return bad("has_qubit", op);
                if (!c.data.count(d.second.first)) return bad("parent-missing", string("parent of a qubit of chain ") + std::to_string(v) + " is not in it after " + op);
                refs[d.second.first]++;
                if (d.second.first != d.first && !qadj[d.first].count(d.second.first))
                    return bad("parent-not-adjacent", string("chain ") + std::to_string(v) + " after " + op);
                if (v < nv && d.first >= nq) return bad("reserved-qubit", string("free chain uses a reserved qubit after ") + op);
            }
            for (auto &l : c.links) {
                if (!c.data.count(l.second)) return bad("link-outside", string("link of chain ") + std::to_string(v) + " to " + std::to_string(l.first) + " after " + op);
                refs[l.second]++;
                if (l.first == v) continue;
                auto o = s[l.first].links.find(v);
                if (o == s[l.first].links.end()) return bad("link-one-sided", std::to_string(v) + " -> " + std::to_string(l.first) + " after " + op);
                if (!vadj[v].count(l.first)) return bad("link-unrelated", string("link between variables that are not coupled after ") + op);
                if (o->second != l.second && !qadj[l.second].count(o->second)) return bad("link-not-adjacent", std::to_string(v) + " -> " + std::to_string(l.first) + " after " + op);
            }
            for (auto &d : c.data)
                if (refs[d.first] != d.second.second)
                    return bad("refcount", string("qubit of chain ") + std::to_string(v) + " has " + std::to_string(d.second.second) + " references, counted " + std::to_string(refs[d.first]) + " after " + op);
            for (auto &d : c.data) {
                int q = d.first;
                size_t n = 0;
                while (c.data[q].first != q && n++ <= c.data.size()) q = c.data[q].first;
                if (n > c.data.size()) return bad("cycle", string("chain ") + std::to_string(v) + " after " + op);
                if (v < nv && c.links.count(v) && q != c.links[v]) return bad("two-roots", string("chain ") + std::to_string(v) + " after " + op);
            }
        }
        for (int q = 0; q < nq + nr; q++)
            if (w[q] != e.weight(q)) return bad("weight", "qubit " + std::to_string(q) + " has weight " + std::to_string(e.weight(q)) + ", used by " + std::to_string(w[q]) + " chains after " + op);
        if (nq && e.max_weight() != *std::max_element(w.begin(), w.begin() + nq)) return bad("max_weight", op);
        // statistics: overlap histogram, or chain-length histogram
        vector<int> st;
        int emb = e.statistics(st);
        int W = 0;
        for (int q = 0; q < nq; q++) W = std::max(W, w[q]);
        vector<int> want;
        if (W > 1) {
            want.assign(W - 1, 0);
            for (int q = 0; q < nq; q++) if (w[q] > 1) want[w[q] - 2]++;
            N_over++;
        } else {
            size_t m = 0;
            for (int v = 0; v < nv; v++) m = std::max(m, s[v].data.size());
            want.assign(m + 1, 0);
            for (int v = 0; v < nv; v++) want[s[v].data.size()]++;
        }
        if (emb != (W <= 1) || st != want) return bad("statistics", op);
        for (int u = 0; u < nv; u++) {
            bool l = s[u].links.count(u);
            for (int v : vadj[u]) l = l && s[u].links.count(v);
            if (l != e.linked(u)) return bad("linked", op);
        }
    }

    // shortest paths from the chain of v under random weights
    void paths(const E &e, int v, vector<int> &parent, vector<distance_t> &dist, vector<int> &vis) {
        vis.assign(nq, 0);
        vector<int> wt(nq);
        for (int &x : wt) x = r.range(1, 4);
        typedef std::pair<long, int> T;
        std::priority_queue<T, vector<T>, std::greater<T>> pq;
        map<int, long> best;
        for (auto &q : e.get_chain(v)) {
            parent[q] = -1;
            if (v >= nv) {
                for (int p : ep.qubit_neighbors(q))
                    if (p < nq && !best.count(p)) { best[p] = wt[p]; parent[p] = q; pq.push({wt[p], p}); }
            } else { best[q] = 0; pq.push({0, q}); }
        }
        while (!pq.empty()) {
            auto [d, q] = pq.top();
            pq.pop();
            if (vis[q]) continue;
            vis[q] = 1;
            dist[q] = d;
            for (int p : ep.qubit_neighbors(q))
                if (p < nq && !vis[p] && (!best.count(p) || best[p] > d + wt[p])) { best[p] = d + wt[p]; parent[p] = q; pq.push({best[p], p}); }
        }
    }

    bool build(E &e, int u) {
        vector<vector<int>> parents(nv + nf, vector<int>(nq + nr, -1)), vis(nv + nf, vector<int>(nq, 0));
        vector<vector<distance_t>> dist(nv + nf, vector<distance_t>(nq + nr, 0));
        vector<int> roots;
        for (int v : ep.var_neighbors(u, shuffle_first{}))
            if (e.chainsize(v)) paths(e, v, parents[v], dist[v], vis[v]);
        for (int q = 0; q < nq; q++) {
            bool ok = ep.accepts_qubit(u, q);
            for (int v : ep.var_neighbors(u))
                if (e.chainsize(v) && !vis[v][q]) ok = false;
            if (ok) roots.push_back(q);
        }
        if (roots.empty()) return false;
        int q = roots[r.below(roots.size())];
        if (r.chance(.8)) e.construct_chain_steiner(u, q, parents, dist, vis);
        else e.construct_chain(u, q, parents);
        N_built++;
        for (int v : vadj[u])
            if (e.chainsize(v) && (e.get_chain(u).get_link(v) == -1 || e.get_chain(v).get_link(u) == -1))
                bad("not-linked", "new chain of " + std::to_string(u) + " is not linked to " + std::to_string(v));
        if (!e.has_qubit(u, q) && r.chance(0)) bad("root", "");
        return true;
    }

    void go(bool hints) {
        map<int, vector<int>> none;
        E e(ep, pp.params.fixed_chains, hints ? pp.params.initial_chains : none);
        check(e, "construction");
        E copy(ep);
        uint64_t h = 7;
        int steps = r.range(5, 60);
        for (int k = 0; k < steps && !failed; k++) {
            N_ops++;
            int u = r.below(nv);
            Snap before = snap(e);
            size_t total = 0, utot;
            std::set<int> uni;
            bool over = false;
            for (int v = 0; v < nv; v++)
                for (auto &d : before[v].data) { total++; if (!uni.insert(d.first).second) over = true; }
            (void)utot;
            const char *op = "";
            int o = r.below(8);
            hist += " " + std::to_string(o) + ":" + std::to_string(u);
            if (o <= 1 || !e.chainsize(u)) {
                op = "construct";
                if (e.chainsize(u)) e.tear_out(u);
                check(e, "tear_out");
                for (int v = 0; v < nv + nf; v++)
                    if (v != u && (e.get_chain(v).get_link(u) != -1)) bad("tear_out-link", "link left behind");
                if (e.chainsize(u)) bad("tear_out-left", "chain not empty");
                build(e, u);
            } else if (o == 2) {
                op = "tear_out";
                e.tear_out(u);
                if (e.chainsize(u)) bad("tear_out-left", "chain not empty");
            } else if (o == 3) {
                op = "freeze/thaw";
                int n = e.freeze_out(u);
                if (n != (int)before[u].data.size() || e.chainsize(u)) bad("freeze", "freeze_out reported " + std::to_string(n));
                check(e, "freeze_out");
                if (r.chance(.3)) {   // try something else in between, as the search does
                    if (build(e, u)) { check(e, "construct after freeze"); e.tear_out(u); }
                }
                e.thaw_back(u);
                if (!(snap(e) == before)) bad("thaw", "thaw_back(" + std::to_string(u) + ") did not restore the chain");
            } else if (o == 4 || o == 5) {
                op = o == 4 ? "steal_all" : "flip_back";
                int target = o == 5 ? r.below(5) : 0;
                if (o == 4) e.steal_all(u); else e.flip_back(u, target);
                N_steal++;
                Snap after = snap(e);
                std::set<int> uni2;
                size_t total2 = 0;
                for (int v = 0; v < nv; v++)
                    for (auto &d : after[v].data) { total2++; uni2.insert(d.first); }
                if (!(after == before)) N_moved++;
                if (total2 > total) bad("steal-grew", op);
                if (!over && (uni2 != uni || total2 != total)) bad("steal-lost", string(op) + " lost or invented qubits");
                for (int v = 0; v < nv + nf; v++) {
                    if (before[v].data.empty() != after[v].data.empty()) bad("steal-empty", string(op) + " emptied chain " + std::to_string(v));
                    std::set<int> k1, k2;
                    for (auto &l : before[v].links) k1.insert(l.first);
                    for (auto &l : after[v].links) k2.insert(l.first);
                    if (k1 != k2) bad("steal-links", string(op) + " changed which chains are linked to " + std::to_string(v));
                    if (v >= nv && !(before[v].data.size() == after[v].data.size())) bad("steal-fixed", string(op) + " changed a fixed chain");
                    if (o == 5 && target && v != u && vadj[u].count(v) && after[v].data.size() > std::max(before[v].data.size(), (size_t)target))
                        bad("flip-bound", "flip_back grew a chain beyond its target");
                    if (o == 5 && v != u)
                        for (auto &d : after[v].data)
                            if (!before[v].data.count(d.first) && !ep.accepts_qubit(v, d.first)) bad("domain", "flip_back put a qubit outside the domain of its chain");
                }
                if (o == 4)
                    for (auto &d : after[u].data)
                        if (!before[u].data.count(d.first) && !ep.accepts_qubit(u, d.first)) bad("domain", "steal_all put a qubit outside the domain of its chain");
            } else if (o == 6) {
                op = "copy";
                copy = e;
                check(copy, "copy (the copy)");
                if (!(snap(copy) == before)) bad("copy", "operator= made a different embedding");
                if (!(copy == e)) bad("copy-equal", "operator== says the copy differs");
                Snap c0 = snap(copy);
                int v = r.below(nv);
                if (e.chainsize(v)) e.tear_out(v);
                build(e, v);
                if (!(snap(copy) == c0)) bad("copy-shared", "changing the original changed the copy");
                check(copy, "change of the original");
                if (r.chance(.5)) e = copy;
            } else {
                op = "find short chain";
                int n = e.freeze_out(u);
                if (!build(e, u) || (int)e.chainsize(u) > n) {
                    if (e.chainsize(u)) e.tear_out(u);
                    e.thaw_back(u);
                    if (!(snap(e) == before)) bad("thaw", "thaw_back did not restore the chain");
                } else N_shortened++;
            }
            check(e, op);
            for (int v = nv; v < nv + nf; v++) {
                std::set<int> a, b;
                for (auto &d : before[v].data) a.insert(d.first);
                for (auto &q : e.get_chain(v)) b.insert(q);
                if (a != b) bad("fixed-changed", op);
            }
            for (int v = 0; v < nv; v++) h = vp::hash(h, e.chainsize(v) * 131 + v);
        }
        if (!failed) printf("SIG %016llx\n", (unsigned long long)h);
    }
};

int main(int argc, char **argv) {
    uint64_t seed = strtoull(argv[1], 0, 10);
    long long lo = atoll(argv[2]), hi = atoll(argv[3]), step = atoll(argv[4]);
    for (long long i = lo; i < hi; i += step) {
        printf("CASE %lld\n", i);
        fflush(stdout);
        vp::Rng r(seed * 1000003 + i);
        vp::Edges S = vp::source(r), T = vp::target(r);
        graph::input_graph sg, tg;
        for (auto &e : S) sg.push_back(e.first, e.second);
        for (auto &e : T) tg.push_back(e.first, e.second);
        int n = vp::nodes(S), m = vp::nodes(T);
        optional_parameters o;
        o.localInteractionPtr.reset(new Quiet());
        o.seed(r.next());
        int kind = r.below(4);
        bool hints = r.chance(.4);
        if (kind & 1) {
            std::set<int> used;
            for (int k = r.range(1, std::max(1, n / 2)); k--;) {
                vector<int> c;
                int q = r.below(m);
                for (int j = r.range(1, 2); j--; q = r.below(m))
                    if (used.insert(q).second) c.push_back(q);
                if (c.size()) o.fixed_chains[r.below(n)] = c;
            }
            if ((int)o.fixed_chains.size() >= n) o.fixed_chains.erase(o.fixed_chains.begin());
        }
        if (kind & 2)
            for (int v = 0; v < n; v++)
                if (r.chance(.5)) {
                    vector<int> d;
                    for (int q = 0; q < m; q++) if (r.chance(.6)) d.push_back(q);
                    if (d.size()) o.restrict_chains[v] = d;
                }
        if (hints)
            for (int v = 0; v < n; v++)
                if (r.chance(.5)) {
                    vector<int> c;
                    for (int k = r.range(1, 4); k--;) c.push_back(T[r.below(T.size())].first);
                    o.initial_chains[v] = c;
                }
        try {
            parameter_processor pp(sg, tg, o);
            if (kind == 0) Run<embedding_problem<fixed_handler_none, domain_handler_universe, output_handler<false>>>(i, r, pp).go(hints);
            else if (kind == 1) { N_fixed++; Run<embedding_problem<fixed_handler_hival, domain_handler_universe, output_handler<false>>>(i, r, pp).go(hints); }
            else if (kind == 2) { N_masked++; Run<embedding_problem<fixed_handler_none, domain_handler_masked, output_handler<false>>>(i, r, pp).go(hints); }
            else { N_fixed++; N_masked++; Run<embedding_problem<fixed_handler_hival, domain_handler_masked, output_handler<false>>>(i, r, pp).go(hints); }
        } catch (const minorminer::MinorMinerException &e) {
        }
    }
    vp::stat("operations", N_ops);
    vp::stat("states_checked", N_checks);
    vp::stat("chains_built", N_built);
    vp::stat("steals", N_steal);
    vp::stat("steals_that_moved_qubits", N_moved);
    vp::stat("overlapping_states", N_over);
    vp::stat("chains_replaced_after_freeze", N_shortened);
    vp::stat("histories_with_fixed_chains", N_fixed);
    vp::stat("histories_with_domains", N_masked);
    printf("END %lld\n", N_ops);
}
