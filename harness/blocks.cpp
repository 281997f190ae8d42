// The search's building blocks against reference models: queues, components, adjacency, parameter translation, variable orders.
#include "common.hpp"
#include <algorithm>
#include <sstream>
#include "find_embedding/find_embedding.hpp"
using namespace find_embedding;
using std::map;
using std::string;
using std::vector;

// which parts to compile, all by default
#ifndef PARTS
#define PARTS 31
#endif
#define PART(k) ((PARTS) & (k))

struct Quiet : LocalInteraction {
    void displayOutputImpl(int, const string &) const override {}
    void displayErrorImpl(int, const string &) const override {}
    bool cancelledImpl() const override { return false; }
};

static long long N_evals = 0, N_q = 0, N_pops = 0, N_comp = 0, N_multi = 0, N_nbr = 0, N_param = 0, N_rej = 0, N_order = 0, N_min = 0, N_reset = 0;
static long long IDX;
static void bad(const char *k, const string &m) { vp::violation(IDX, k, m); }
template <class T> static string str(const T &c) {
    std::ostringstream s;
    int n = 0;
    for (auto &x : c) { if (n++ > 40) { s << "..."; break; } s << x << ","; }
    return s.str();
}

// -- queues ---------------------------------------------------------------------------------------------------------
#if PART(1)
template <class P, class TAG>
static void queue_history(vp::Rng &r) {
    typedef priority_node<P, TAG> N;
    bool minq = std::is_same<TAG, min_heap_tag>::value;
    int cap = r.chance(.1) ? r.range(1, 3) : r.range(1, 120);
    std::multimap<std::pair<P, int>, int> model;
    auto history = [&](auto &q, auto &&move_me) -> bool {
        string h;
        int budget = cap;
        P spread = r.chance(.3) ? 3 : (r.chance(.5) ? 20 : 1000000);
        for (int k = r.range(1, 4 * cap + 10); k--;) {
            N_evals++;
            int o = r.below(100);
            if (o < 55 && budget > 0) {
                P d = (P)(r.next() % (uint64_t)spread);
                if (r.chance(.02)) d = std::numeric_limits<P>::max() - (P)r.below(2);
                int dirt = r.chance(.3) ? (int)(r.next()) : r.below(4);
                int node = r.below(1000);
                q.emplace(node, dirt, d);
                model.insert({{d, dirt}, node});
                budget--;
                h += "+(" + std::to_string(d) + "," + std::to_string(dirt) + ")";
            } else if (o < 97 || !move_me.second) {
                if (q.empty() != model.empty()) { bad("queue_empty", string("empty() is ") + (q.empty() ? "true" : "false") + " with " + std::to_string(model.size()) + " elements: " + h); return false; }
                if (model.empty()) continue;
                auto t = q.top();
                auto key = minq ? model.begin()->first : std::prev(model.end())->first;
                if (t.dist != key.first || t.dirt != key.second) {
                    bad("queue_order", "top is (" + std::to_string(t.dist) + "," + std::to_string(t.dirt) + "), reference has (" + std::to_string(key.first) + "," + std::to_string(key.second) + "): " + h.substr(0, 700));
                    return false;
                }
                auto range = model.equal_range(key);
                auto it = range.first;
                while (it != range.second && it->second != t.node) ++it;
                if (it == range.second) { bad("queue_element", "top returns a node that is not in the queue: " + h.substr(0, 700)); return false; }
                model.erase(it);
                q.pop();
                N_pops++;
                h += "-";
            } else if (o < 99) {
                move_me.first(0);
                model.clear();
                budget = cap;
                N_reset++;
                h = "";
            }
        }
        while (!model.empty()) {
            if (q.empty()) { bad("queue_lost", "queue is empty with " + std::to_string(model.size()) + " elements left: " + h.substr(0, 700)); return false; }
            auto t = q.top();
            auto it = minq ? model.begin() : std::prev(model.end());
            if (t.dist != it->first.first || t.dirt != it->first.second) { bad("queue_order", "draining: top is not the first element: " + h.substr(0, 700)); return false; }
            model.erase(it);
            q.pop();
            N_pops++;
        }
        if (!q.empty()) { bad("queue_empty", "queue not empty after draining: " + h.substr(0, 700)); return false; }
        return true;
    };
    N_q++;
    pairing_queue<N> a(cap);
    auto reset = [&](int) { a.reset(); };
    if (!history(a, std::make_pair(reset, true))) return;
    a.reset();
    pairing_queue<N> b(std::move(a));
    auto resetb = [&](int) { b.reset(); };
    if (!history(b, std::make_pair(resetb, true))) return;
    std::priority_queue<N> s;
    auto none = [](int) {};
    history(s, std::make_pair(none, false));
}

// -- graphs ---------------------------------------------------------------------------------------------------------
#endif

struct G {
    int n;
    vp::Edges e;
    vector<std::set<int>> adj;
    vector<int> comp;
    int ncomp = 0;
    graph::input_graph g;
};
static G random_graph(vp::Rng &r) {
    G x;
    x.n = r.range(1, r.chance(.5) ? 8 : 45);
    double p = r.chance(.4) ? 1.1 / x.n : (r.chance(.5) ? .08 : .3);
    x.e = vp::gnp(r, x.n, p);
    for (auto &e : x.e) if (r.chance(.5)) std::swap(e.first, e.second);
    for (int i = x.e.size(); i--;) std::swap(x.e[i], x.e[r.below(i + 1)]);
    size_t m = x.e.size();
    for (size_t i = 0; i < m; i++) if (r.chance(.1)) x.e.push_back(r.chance(.5) ? x.e[i] : vp::Edges{{x.e[i].second, x.e[i].first}}[0]);
    vector<int> deg(x.n, 0);
    for (auto &e : x.e) { deg[e.first]++; deg[e.second]++; }
    for (int v = 0; v < x.n; v++) if (!deg[v] || r.chance(.05)) x.e.push_back({v, v});  // isolated nodes arrive as self-loops
    x.adj.resize(x.n);
    for (auto &e : x.e) if (e.first != e.second) { x.adj[e.first].insert(e.second); x.adj[e.second].insert(e.first); }
    x.comp.assign(x.n, -1);
    for (int v = 0; v < x.n; v++) if (x.comp[v] < 0) {
        vector<int> st{v};
        x.comp[v] = x.ncomp;
        while (st.size()) { int u = st.back(); st.pop_back(); for (int w : x.adj[u]) if (x.comp[w] < 0) { x.comp[w] = x.ncomp; st.push_back(w); } }
        x.ncomp++;
    }
    if (r.chance(.5)) {
        vector<int> A, B;
        for (auto &e : x.e) { A.push_back(e.first); B.push_back(e.second); }
        x.g = graph::input_graph(x.n, A, B);
    } else
        for (auto &e : x.e) x.g.push_back(e.first, e.second);
    return x;
}
static string show(const G &x) {
    std::ostringstream s;
    s << x.n << " nodes:";
    for (size_t i = 0; i < x.e.size() && i < 60; i++) s << " " << x.e[i].first << "-" << x.e[i].second;
    return s.str();
}
static bool same(const vector<vector<int>> &got, const vector<std::set<int>> &want, string &why) {
    if (got.size() != want.size()) { why = "wrong number of nodes"; return false; }
    for (size_t i = 0; i < want.size(); i++) {
        std::set<int> s(got[i].begin(), got[i].end());
        if (s.size() != got[i].size()) { why = "node " + std::to_string(i) + " lists a neighbour twice"; return false; }
        if (s != want[i]) { why = "node " + std::to_string(i) + " has neighbours " + str(s) + " instead of " + str(want[i]); return false; }
    }
    return true;
}
#if PART(2)
static void adjacency(vp::Rng &r) {
    G x = random_graph(r);
    string why;
    vector<int> relabel(x.n), flag(x.n), mask(x.n);
    for (int i = 0; i < x.n; i++) relabel[i] = i;
    for (int i = x.n; i--;) std::swap(relabel[i], relabel[r.below(i + 1)]);
    for (auto &f : flag) f = r.chance(.3);
    vector<char> keep(x.ncomp);
    for (auto &k : keep) k = r.chance(.6);
    for (int i = 0; i < x.n; i++) mask[i] = keep[x.comp[i]];
    // mode: 0 plain, 1 sources, 2 sinks
    auto want = [&](int mode, bool rel, bool msk) {
        vector<std::set<int>> w(x.n);
        for (int a = 0; a < x.n; a++)
            for (int b : x.adj[a]) {
                if (msk && !mask[a]) continue;
                if (mode == 1 && flag[b]) continue;  // no arcs into sources
                if (mode == 2 && flag[a]) continue;  // no arcs out of sinks
                w[rel ? relabel[a] : a].insert(rel ? relabel[b] : b);
            }
        return w;
    };
    auto go = [&](const char *n, const vector<vector<int>> &got, const vector<std::set<int>> &w) {
        N_nbr++;
        N_evals++;
        if (!same(got, w, why)) bad("neighbors", string(n) + ": " + why + " in " + show(x) + " flags " + str(flag) + " relabel " + str(relabel));
    };
    if (x.g.num_nodes() != (size_t)x.n || x.g.num_edges() != x.e.size()) bad("input_graph_size", show(x));
    for (size_t i = 0; i < x.e.size(); i++)
        if (x.g.a(i) != x.e[i].first || x.g.b(i) != x.e[i].second) { bad("input_graph_edge", "edge " + std::to_string(i) + " of " + show(x)); break; }
    go("get_neighbors", x.g.get_neighbors(), want(0, 0, 0));
    go("get_neighbors relabelled", x.g.get_neighbors(relabel), want(0, 1, 0));
    go("get_neighbors relabelled masked", x.g.get_neighbors(relabel, mask), want(0, 1, 1));
    go("get_neighbors_sources", x.g.get_neighbors_sources(flag), want(1, 0, 0));
    go("get_neighbors_sources relabelled", x.g.get_neighbors_sources(flag, relabel), want(1, 1, 0));
    go("get_neighbors_sources relabelled masked", x.g.get_neighbors_sources(flag, relabel, mask), want(1, 1, 1));
    go("get_neighbors_sinks", x.g.get_neighbors_sinks(flag), want(2, 0, 0));
    go("get_neighbors_sinks relabelled", x.g.get_neighbors_sinks(flag, relabel), want(2, 1, 0));
    go("get_neighbors_sinks relabelled masked", x.g.get_neighbors_sinks(flag, relabel, mask), want(2, 1, 1));
}
#endif

#if PART(4)
static void split(vp::Rng &r) {
    G x = random_graph(r);
    vector<int> res(x.n, 0);
    bool reserve = r.chance(.6);
    if (reserve) { double p = r.chance(.2) ? 1 : .4; for (auto &f : res) f = r.chance(p); }
    graph::components c = reserve ? graph::components(x.g, res) : graph::components(x.g);
    N_comp++;
    N_evals++;
    if (x.ncomp > 1) N_multi++;
    auto fail = [&](const string &m) { bad("components", m + " in " + show(x) + " reserved " + str(res)); };
    if ((int)c.size() != x.ncomp) return fail("found " + std::to_string(c.size()) + " components instead of " + std::to_string(x.ncomp));
    std::set<int> seen;
    for (int k = 0; k < (int)c.size(); k++) {
        const vector<int> &nd = c.nodes(k);
        if (k && nd.size() > c.nodes(k - 1).size()) return fail("components are not sorted by size");
        if (c.size(k) != nd.size()) return fail("size(" + std::to_string(k) + ") is " + std::to_string(c.size(k)) + " but it has " + std::to_string(nd.size()) + " nodes");
        int nres = 0;
        for (size_t j = 0; j < nd.size(); j++) {
            int v = nd[j];
            if (v < 0 || v >= x.n || !seen.insert(v).second || x.comp[v] != x.comp[nd[0]]) return fail("node " + std::to_string(v) + " is in the wrong component or in two");
            if (res[v]) nres++;
            else if (nres) return fail("a reserved node precedes an unreserved one");
        }
        if ((int)c.num_reserved(k) != nres) return fail("num_reserved is " + std::to_string(c.num_reserved(k)) + " instead of " + std::to_string(nres));
        // translation there and back
        vector<int> in(nd), lab, back;
        for (int i = in.size(); i--;) std::swap(in[i], in[r.below(i + 1)]);
        if (!c.into_component(k, in, lab)) return fail("into_component rejects a node of the component");
        for (size_t j = 0; j < lab.size(); j++) if (lab[j] < 0 || lab[j] >= (int)nd.size() || nd[lab[j]] != in[j]) return fail("into_component gives the wrong label");
        c.from_component(k, lab, back);
        if (back != in) return fail("from_component does not undo into_component");
        vector<int> junk;
        if (x.ncomp > 1) {
            int w = r.below(x.n);
            vector<int> one{w};
            if (c.into_component(k, one, junk) != (x.comp[w] == x.comp[nd[0]])) return fail("into_component misjudges node " + std::to_string(w));
        }
        junk.clear();
        vector<int> out{r.chance(.5) ? -1 - r.below(3) : x.n + r.below(3)};
        if (c.into_component(k, out, junk)) return fail("into_component accepts an unknown node");
        // edges
        vector<int> pos(x.n, -1);
        for (size_t j = 0; j < nd.size(); j++) pos[nd[j]] = j;
        vector<std::set<int>> w(nd.size()), ws(nd.size());
        for (size_t j = 0; j < nd.size(); j++)
            for (int y : x.adj[nd[j]]) { w[j].insert(pos[y]); if (!res[y]) ws[j].insert(pos[y]); }
        string why;
        if (!same(c.component_graph(k).get_neighbors(), w, why)) return fail("component_graph: " + why);
        if (!same(c.component_neighbors(k), ws, why)) return fail("component_neighbors: " + why);
    }
    if ((int)seen.size() != x.n) fail("nodes are missing from the components");
}

// -- parameters and orders ----------------------------------------------------------------------------------------------
#endif

#if PART(8)
template <class EP>
static void orders(vp::Rng &r, parameter_processor &pp, const string &what) {
    EP ep(pp.params, pp.num_vars - pp.num_fixed, pp.num_fixed, pp.problem_qubits - pp.problem_reserved, pp.problem_reserved, pp.var_nbrs, pp.qubit_nbrs);
    int n = ep.num_vars();
    VARORDER all[] = {VARORDER_SHUFFLE, VARORDER_DFS, VARORDER_BFS, VARORDER_PFS, VARORDER_RPFS};
    for (int k = 0; k < 10; k++) {
        VARORDER o = all[r.below(5)];
        vector<int> got = ep.var_order(o);
        N_order++;
        N_evals++;
        std::set<int> s(got.begin(), got.end());
        if ((int)got.size() != n || (int)s.size() != n || (n && (*s.begin() != 0 || *s.rbegin() != n - 1)))
            return bad("var_order", "order " + std::to_string((int)o) + " is not a permutation of the " + std::to_string(n) + " free variables: " + str(got) + " " + what);
        if (o != VARORDER_SHUFFLE) {
            // a search order finishes one component of the free variables before it starts the next
            vector<char> done(n, 0);
            for (int i = 0; i < n; i++) {
                bool touches = false, open = false;
                for (int v : ep.var_neighbors(got[i])) if (v < n && done[v]) touches = true;
                if (!touches)
                    for (int u = 0; u < n; u++) if (done[u]) for (int v : ep.var_neighbors(u)) if (v < n && !done[v]) open = true;
                if (!touches && open) return bad("var_order_search", "order " + std::to_string((int)o) + " leaves a component unfinished: " + str(got) + " " + what);
                done[got[i]] = 1;
            }
        }
        if (r.chance(.3)) {
            vector<int> kept = ep.var_order(VARORDER_KEEP);
            if (kept != got) return bad("var_order_keep", "KEEP changed the order " + what);
        }
    }
    // the weight table: starts at one, never decreases, and the largest path sum stays below the limit
    for (int mw : {1, 2, r.range(1, 63), 63, 70}) {
        ep.populate_weight_table(mw);
        for (int i = 0; i < 64; i++) {
            N_evals++;
            if (ep.weight(i) < (i ? ep.weight(i - 1) : 1)) return bad("weight_table", "weight(" + std::to_string(i) + ") decreases " + what);
        }
        if (ep.weight(64) != max_distance || ep.weight(1000) != max_distance) return bad("weight_table", "weight beyond the table is not max_distance");
    }
}
static void params(vp::Rng &r) {
    vp::Edges S = vp::source(r), T = vp::target(r);
    graph::input_graph sg, tg;
    for (auto &e : S) sg.push_back(e.first, e.second);
    for (auto &e : T) tg.push_back(e.first, e.second);
    int n = vp::nodes(S), m = vp::nodes(T);
    graph::components comps(tg);
    optional_parameters o;
    o.localInteractionPtr.reset(new Quiet());
    o.seed(r.next());
    bool fixed = r.chance(.6);
    auto qubit = [&]() { return comps.nodes(0)[r.below(comps.nodes(0).size())]; };
    if (fixed) {
        std::set<int> used;
        for (int k = r.range(1, std::max(1, n - 1)); k--;) {
            vector<int> c;
            for (int j = r.range(1, 3); j--;) { int q = qubit(); if (used.insert(q).second) c.push_back(q); }
            int v = r.below(n);
            if (c.size() && !o.fixed_chains.count(v)) o.fixed_chains[v] = c;
        }
    }
    for (int v = 0; v < n; v++) {
        if (r.chance(.4)) { vector<int> c; for (int k = r.range(1, 4); k--;) c.push_back(qubit()); o.initial_chains[v] = c; }
        if (r.chance(.4)) { vector<int> c; for (int k = r.range(1, 4); k--;) c.push_back(qubit()); o.restrict_chains[v] = c; }
    }
    auto fx = o.fixed_chains, in = o.initial_chains, re = o.restrict_chains;
    std::ostringstream w;
    w << "(" << n << " variables, " << m << " qubits, " << fx.size() << " fixed)";
    string what = w.str();
    parameter_processor pp(sg, tg, o);
    N_param++;
    N_evals++;
    auto fail = [&](const string &x) { bad("parameters", x + " " + what); };
    if (o.fixed_chains != fx || o.initial_chains != in || o.restrict_chains != re) return fail("the caller's parameters were changed");
    if ((int)pp.num_vars != n || (int)pp.num_qubits != m || pp.num_fixed != fx.size()) return fail("wrong counts");
    for (int v = 0; v < n; v++) {
        int i = pp.screw_vars.at(v);
        if (i < 0 || i >= n || pp.unscrew_vars.at(i) != v) return fail("screw_vars and unscrew_vars are not inverse permutations");
        if ((i >= n - (int)fx.size()) != (fx.count(v) > 0)) return fail("fixed variables are not numbered last");
    }
    auto chains = [&](map<int, vector<int>> &user, map<int, vector<int>> &internal, const char *k) {
        if (user.size() != internal.size()) { fail(string(k) + ": chains lost or invented"); return; }
        for (auto &kv : internal) {
            vector<int> back;
            pp.qub_components.from_component(0, kv.second, back);
            if (back != user[pp.unscrew_vars.at(kv.first)]) { fail(string(k) + ": chain of variable " + std::to_string(pp.unscrew_vars.at(kv.first)) + " became " + str(back)); return; }
        }
    };
    chains(fx, pp.params.fixed_chains, "fixed_chains");
    chains(in, pp.params.initial_chains, "initial_chains");
    chains(re, pp.params.restrict_chains, "restrict_chains");
    // adjacency as seen by the search: fixed variables have no outgoing arcs, reserved qubits no incoming ones
    vector<std::set<int>> va(n);
    for (auto &e : S)
        if (e.first != e.second) {
            if (!fx.count(e.first)) va[pp.screw_vars[e.first]].insert(pp.screw_vars[e.second]);
            if (!fx.count(e.second)) va[pp.screw_vars[e.second]].insert(pp.screw_vars[e.first]);
        }
    string why;
    if (!same(pp.var_nbrs, va, why)) return fail("source adjacency: " + why);
    std::set<int> reserved;
    for (auto &kv : fx) reserved.insert(kv.second.begin(), kv.second.end());
    vector<int> nd(pp.qub_components.nodes(0)), pos(m, -1);
    for (size_t j = 0; j < nd.size(); j++) pos[nd[j]] = j;
    vector<std::set<int>> qa(nd.size());
    for (auto &e : T)
        if (e.first != e.second && pos[e.first] >= 0) {
            if (!reserved.count(e.second)) qa[pos[e.first]].insert(pos[e.second]);
            if (!reserved.count(e.first)) qa[pos[e.second]].insert(pos[e.first]);
        }
    if (!same(pp.qubit_nbrs, qa, why)) return fail("target adjacency: " + why);
    // variable lists: fixed ones dropped, the others translated, unknown ones rejected
    vector<int> V;
    for (int k = r.range(0, 2 * n); k--;) V.push_back(r.below(n));
    vector<int> U = pp.input_vars(V), want;
    for (int v : V) if (!fx.count(v)) want.push_back(pp.screw_vars[v]);
    if (U != want) return fail("input_vars translated " + str(V) + " to " + str(U));
    V.push_back(r.chance(.5) ? n + r.below(3) : -1 - r.below(3));
    try {
        pp.input_vars(V);
        return fail("input_vars accepts an unknown variable");
    } catch (const minorminer::MinorMinerException &) { N_rej++; }
    map<int, vector<int>> junk{{0, {qubit()}}};
    if (r.chance(.5)) junk[r.chance(.5) ? n : -1] = {qubit()};
    else junk[r.below(n)].push_back(r.chance(.5) ? m : -1);
    try {
        pp.input_chains(junk);
        return fail("input_chains accepts an unknown variable or qubit");
    } catch (const minorminer::MinorMinerException &) { N_rej++; }
    if ((int)(pp.problem_qubits - pp.problem_reserved) > 0) {
        try {
            if (fixed && fx.size()) orders<embedding_problem<fixed_handler_hival, domain_handler_universe, output_handler<false>>>(r, pp, what);
            else orders<embedding_problem<fixed_handler_none, domain_handler_universe, output_handler<false>>>(r, pp, what);
        } catch (const minorminer::MinorMinerException &) { N_rej++; }
    }
}
#endif

#if PART(16)
static void minima(vp::Rng &r) {
    int n = r.range(1, 40), s = r.chance(.5) ? 3 : 1000;
    vector<distance_t> in(n);
    for (auto &x : in) x = r.chance(.05) ? max_distance : (distance_t)r.below(s);
    vector<int> out{7, 7}, want;
    collectMinima(in, out);
    auto lo = *std::min_element(in.begin(), in.end());
    for (int i = 0; i < n; i++) if (in[i] == lo) want.push_back(i);
    N_min++;
    N_evals++;
    std::sort(out.begin(), out.end());
    if (out != want) bad("minima", "collectMinima gives " + str(out) + " for " + str(in));
}
#endif

int main(int argc, char **argv) {
    uint64_t seed = strtoull(argv[1], nullptr, 10);
    long long lo = atoll(argv[2]), hi = atoll(argv[3]), step = atoll(argv[4]);
    for (long long i = lo; i < hi; i += step) {
        printf("CASE %lld\n", i);
        fflush(stdout);
        IDX = i;
        vp::Rng r(seed * 1000003 + i);
        long long before = N_evals;
        switch (i % 6) {
#if PART(1)
            case 0: queue_history<distance_t, min_heap_tag>(r); break;
            case 1: r.chance(.5) ? queue_history<int, max_heap_tag>(r) : queue_history<int, min_heap_tag>(r); break;
#endif
#if PART(2)
            case 2: adjacency(r); break;
#endif
#if PART(4)
            case 3: split(r); break;
#endif
#if PART(8)
            case 4: params(r); break;
#endif
            default:
#if PART(16)
                minima(r);
#endif
#if PART(2)
                adjacency(r);
#endif
#if PART(4)
                split(r);
#endif
                break;
        }
        printf("SIG %llx\n", (unsigned long long)vp::hash(r.next(), N_evals - before + 1000 * (i % 6)));
    }
    vp::stat("queue_histories", N_q);
    vp::stat("queue_pops_compared", N_pops);
    vp::stat("queue_resets", N_reset);
    vp::stat("component_splits", N_comp);
    vp::stat("component_splits_disconnected", N_multi);
    vp::stat("adjacency_comparisons", N_nbr);
    vp::stat("parameter_translations", N_param);
    vp::stat("rejected_as_expected", N_rej);
    vp::stat("variable_orders", N_order);
    vp::stat("minima", N_min);
    printf("END %lld\n", N_evals);
}
