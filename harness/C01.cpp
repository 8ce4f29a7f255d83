// C01: safe reads and writes are atomic.  Every interleaving of small read/write programs run by a
// server and one or two clients; each execution's history is checked for linearizability.
#include "common.hpp"
#include "forms.hpp"
using namespace vmc;

struct PW { int r, c, h, w; };

template <class T, int L>
struct St {
    Own<Server<T, L>> srv; Own<Client<T, L>> cl[3];
    std::vector<OpRec> hist; int ready = 0, done = 0; bool srv_up = false, over = false;
    int nextid = 1; int prog[4][3];
};

static const PW FULL{0, 0, 2, 2}, COL{0, 1, 2, 1}, ROW{1, 0, 1, 2}, CELL{1, 1, 1, 1};
// op menu: 0 write all, 1 read all, 2 write a column, 3 write a row, 4 read a row
struct M { char k; PW b; };
static const M MENU[] = {{'W', FULL}, {'R', FULL}, {'W', COL}, {'W', ROW}, {'R', ROW}};

template <class T, int L>
Scenario mk(const std::string& name, int nclients, int nops, int menu, int preempt, bool views, const std::vector<std::vector<int>>& fixed = {}) {
    Scenario s; s.name = name; s.bounds.preempt = preempt;
    static std::shared_ptr<St<T, L>> st;
    int np = nclients + 1;
    s.build = [=] {
        st = std::make_shared<St<T, L>>();
        for (int i = 0; i < np; ++i) for (int j = 0; j < nops; ++j) st->prog[i][j] = fixed.empty() ? -1 : fixed[i][j];
        spawn("server", [=] {
            auto& S = *st;
            { Atomic a;
              for (int i = 0; i < np; ++i) for (int j = 0; j < nops; ++j) if (S.prog[i][j] < 0) S.prog[i][j] = choose(menu, "operation");
              S.srv.reset(new Server<T, L>(2, 2, "t", "ns", false, VL::V0, false, true)); S.srv->run(); S.srv_up = true; ++S.ready; }
            block_until([np] { return st->ready == np; }, "everyone attached");
            for (int j = 0; j < nops; ++j) { const M& m = MENU[S.prog[0][j]]; int id = m.k == 'W' ? 1 + j : 0; do_op<T, L>(*S.srv, S.hist, 0, m.k, id, m.b.r, m.b.c, m.b.h, m.b.w, views); }
            ++S.done;
            block_until([np] { return st->done == np; }, "all operations done");
            { Atomic a;
              do_op<T, L>(*S.srv, S.hist, 0, 'R', 0, 0, 0, 2, 2, false);
              int n = S.srv->getNClients(); if (n != np - 1) fail("client counter is %d with %d clients attached", n, np - 1);
              S.over = true; }
            block_until([np] { for (int i = 1; i < np; ++i) if (status(i) != DONE) return false; return true; }, "clients gone");
            { Atomic a; S.srv.reset(); }
        });
        for (int i = 1; i < np; ++i) spawn("client" + std::to_string(i), [=] {
            auto& S = *st;
            block_until([] { return st->srv_up; }, "server up");
            { Atomic a; S.cl[i].reset(new Client<T, L>("t", "ns", false, VL::V0, true)); S.cl[i]->attach(); ++S.ready; }
            block_until([np] { return st->ready == np; }, "everyone attached");
            for (int j = 0; j < nops; ++j) { const M& m = MENU[S.prog[i][j]]; int id = m.k == 'W' ? 1 + i * nops + j : 0; do_op<T, L>(*S.cl[i], S.hist, i, m.k, id, m.b.r, m.b.c, m.b.h, m.b.w, views); }
            ++S.done;
            block_until([] { return st->over; }, "end");
            { Atomic a; S.cl[i].reset(); }
        });
    };
    s.finish = [=] {
        auto& S = *st; Model m0(2, 2);
        u64 o = 0; for (auto& r : S.hist) { o = o * 3 + r.ok + 1; for (double d : r.got) o = o * 1000003 + (u64)d; }
        outcome(o);
        for (size_t i = 0; i < S.hist.size(); ++i) if (!S.hist[i].ok) {
            bool overlap = false;
            for (size_t j = 0; j < S.hist.size(); ++j) if (j != i && S.hist[j].proc != S.hist[i].proc && S.hist[j].call < S.hist[i].ret && S.hist[i].call < S.hist[j].ret) overlap = true;
            if (!overlap) fail("an operation that overlaps no other one is refused: %s", hist_str(S.hist).c_str());
        }
        if (!linearizable(S.hist, m0, [](int id, int r, int c) { return (double)payload<T>(id, r, c); }))
            fail("reads are not explained by any order of the successful writes: %s", hist_str(S.hist).c_str());
        st.reset();
    };
    return s;
}

template <class T, int L> void add_types(std::vector<Scenario>& v, bool th) {
    std::string b = std::string(TN<T>::n()) + "-" + LN(L);
    for (int view = 0; view < 2; ++view)
        v.push_back(mk<T, L>("srv+1 " + b + (view ? " views" : " refs"), 1, th ? 2 : 2, 2, -1, view));
}

// large tensors: one participant's operation met by a whole operation of another at every point of it
struct Blk { int i, j, h, w; };
template <class T, int L> struct LargeSt { Own<Server<T, L>> s; Own<Client<T, L>> c; bool up = false, both = false, started = false, done = false, over = false, ok = false, wr = false, later = false, peerw = false, view = false; Blk b{}; int left = 0; };
template <class T, int L> Scenario large(int R, int C, bool srv_acts, int preempt, bool coarse) {
    Scenario s; s.name = "large tensor " + std::to_string(R) + "x" + std::to_string(C) + " " + TN<T>::n() + "-" + LN(L) + (srv_acts ? ", the server acts" : ", a client acts") + (coarse ? "" : ", every access");
    s.bounds.preempt = preempt; s.bounds.coarse = coarse; s.bounds.max_steps = 4000000;
    static std::shared_ptr<LargeSt<T, L>> st;
    // generation 0: everything is 0; generations 1 and 2 differ from it and from one another everywhere they can
    auto val = [](int gen, int i, int j) { if (std::is_same<T, bool>::value) return T(gen == 1); return gen ? T(gen * 100000 + i * 251 + j) : T(0); };
    auto desc = [=] { auto& S = *st; char x[200]; snprintf(x, 200, "%s of the block %dx%d at %d,%d of %dx%d%s by the %s, the other one %s all", S.wr ? "write" : "read", S.b.h, S.b.w, S.b.i, S.b.j, R, C, S.view ? " through a view" : "", srv_acts ? "server" : "client", S.peerw ? "writes" : "reads"); return std::string(x); };
    auto fill = [=](Tensor<T, L>& t, int gen, int i, int j) { for (int r = 0; r < t.rows(); ++r) for (int c = 0; c < t.cols(); ++c) t(r, c) = val(gen, i + r, j + c); };
    // which generations explain the region; 1 = generation 0, 2 = generation 1, 4 = generation 2
    auto gens = [=](const Tensor<T, L>& t, int i0, int j0, int h, int w, int ti, int tj) { int m = 7; for (int r = 0; r < h; ++r) for (int c = 0; c < w; ++c) { int k = 0; for (int g = 0; g < 3; ++g) if (t(i0 + r - ti, j0 + c - tj) == val(g, i0 + r, j0 + c)) k |= 1 << g; m &= k; } return m; };
    auto actor = [=](auto& P) {
        auto& S = *st; Tensor<T, L> t(S.b.h, S.b.w), k; fill(t, S.wr ? 1 : 2, S.b.i, S.b.j); k = t;
        S.started = true; event(1); bool ok;
        if (S.view) { auto v = helpers::createViewFrom<T, L>(t, 0, 0, S.b.h, S.b.w); ok = S.wr ? P.write(v, S.b.i, S.b.j) : P.read(v, S.b.i, S.b.j); }
        else if (S.wr) ok = P.write(TRef<T, L>(t), S.b.i, S.b.j); else { TRef<T, L> r(t); ok = P.read(r, S.b.i, S.b.j); }
        S.ok = ok; S.done = true; event(2 + ok);
        if ((S.wr || !ok) && t != k) fail("the caller's tensor is changed: %s", desc().c_str());
        if (!S.wr && ok && !(gens(t, S.b.i, S.b.j, S.b.h, S.b.w, S.b.i, S.b.j) & (S.peerw ? 5 : 1))) fail("a read returns a mixture of two writes: %s", desc().c_str());
    };
    auto peer = [=](auto& P) {
        auto& S = *st;
        if (S.later) block_until([] { return st->started; }, "the operation begins");
        Atomic a;
        bool inside = S.started && !S.done, begun = S.started, ended = S.done; Tensor<T, L> t(R, C); fill(t, 2, 0, 0);
        TRef<T, L> r(t); bool ok = S.peerw ? P.write(r, 0, 0) : P.read(r, 0, 0);
        if (!ok && !inside) fail("refused although nothing overlapped: peer of a %s", desc().c_str());
        if (!S.peerw && ok) { int m = gens(t, S.b.i, S.b.j, S.b.h, S.b.w, 0, 0) & (S.wr ? 3 : 1);
            if (!m) fail("a read returns a mixture of two writes: %s", desc().c_str());
            if (m == 2 && !begun) fail("written before the operation: %s", desc().c_str());
            if (m == 1 && ended && S.ok && S.wr) fail("a completed write is not seen: %s", desc().c_str()); }
        block_until([] { return st->done; }, "the operation returned");
        if (!S.ok && !inside) fail("refused although nothing overlapped: %s", desc().c_str());
        Tensor<T, L> n(R, C); TRef<T, L> rn(n); if (!P.read(rn, 0, 0)) fail("a read after all operations is refused: %s", desc().c_str());
        bool pw = S.peerw && ok, w = S.wr && S.ok;
        if (!(gens(n, S.b.i, S.b.j, S.b.h, S.b.w, 0, 0) & (w && pw ? 6 : w ? 2 : pw ? 4 : 1))) fail("the final tensor is a mixture of two writes: %s", desc().c_str());
        for (int i = 0; i < R; ++i) for (int j = 0; j < C; ++j) if (!(i >= S.b.i && i < S.b.i + S.b.h && j >= S.b.j && j < S.b.j + S.b.w) && n(i, j) != val(pw ? 2 : 0, i, j)) fail("the final tensor is wrong at %d,%d: %s", i, j, desc().c_str());
    };
    s.build = [=] {
        st = std::make_shared<LargeSt<T, L>>();
        spawn("server", [=] {
            auto& S = *st;
            { Atomic a; S.wr = choose(2, "read or write"); S.peerw = choose(2, "the peer reads or writes"); if (!S.wr && !S.peerw) S.wr = true; S.later = choose(2, "the peer waits"); S.view = choose(2, "reference or view");
              std::vector<Blk> q = {{0, 0, R, C}}; if (R > 1 && C > 1) q.push_back({1, 1, R - 1, C - 1}); if (R > 2) q.push_back({1, 0, R - 1, C}); if (C > 2) q.push_back({0, 1, R, C - 1});
              S.b = q[choose(q.size(), "block")];
              S.s.reset(new Server<T, L>(R, C, "t", "ns", false, VL::V0, false, true)); S.s->run(); S.up = true; }
            block_until([] { return st->both; }, "everyone is ready");
            if (srv_acts) actor(*S.s); else peer(*S.s);
            { Atomic a; ++S.left; }
            block_until([] { return st->over; }, "client gone");
            { Atomic a; S.s.reset(); }
        });
        spawn("client", [=] {
            auto& S = *st;
            block_until([] { return st->up; }, "server up");
            { Atomic a; S.c.reset(new Client<T, L>("t", "ns", false, VL::V0, true)); S.c->attach(); S.both = true; }
            if (srv_acts) peer(*S.c); else actor(*S.c);
            block_until([] { return st->left; }, "server done");
            { Atomic a; S.c.reset(); S.over = true; }
        });
    };
    s.finish = [=] { outcome(st->ok + 2 * st->done); st.reset(); };
    return s;
}

Registry vmc::registry() {
    Registry R;
    R.scenarios = [](bool th, std::vector<Scenario>& v) {
        v.push_back(mk<int, RowMajor>("srv+1 2ops each, all programs over 5 operations", 1, 2, 5, -1, false));
        v.push_back(mk<int, RowMajor>("srv+2 1op each, all programs over 5 operations", 2, 1, 5, -1, false));
        add_types<int, RowMajor>(v, th); add_types<int, ColMajor>(v, th);
        add_types<float, RowMajor>(v, th); add_types<float, ColMajor>(v, th);
        add_types<double, RowMajor>(v, th); add_types<double, ColMajor>(v, th);
        add_types<bool, RowMajor>(v, th); add_types<bool, ColMajor>(v, th);
        // every call form, block and shape, with a whole read or write at every point of it
        int acts = 1 << forms::PEER_READS | 1 << forms::PEER_WRITES;
        forms::add<int, RowMajor>(v, acts, th, true); forms::add<double, ColMajor>(v, acts, th, true);
        forms::add<int, ColMajor>(v, acts, th, false); forms::add<double, RowMajor>(v, acts, th, false);
        forms::add<float, RowMajor>(v, acts, th, false); forms::add<float, ColMajor>(v, acts, th, false);
        forms::add<bool, RowMajor>(v, acts, th, false); forms::add<bool, ColMajor>(v, acts, th, false);
        for (int a = 0; a < 2; ++a) {
            v.push_back(large<int, RowMajor>(70, 60, a, 2, true)); v.push_back(large<double, ColMajor>(60, 70, a, 2, true));
            v.push_back(large<bool, RowMajor>(150, 120, a, 2, true)); v.push_back(large<float, ColMajor>(1, 3000, a, 2, true)); v.push_back(large<int, RowMajor>(3000, 1, a, 2, true));
            if (th || a == 0) { v.push_back(large<int, RowMajor>(25, 20, a, 1, false)); v.push_back(large<double, ColMajor>(25, 20, a, 1, false)); }
        }
        if (th) {
            v.push_back(mk<double, ColMajor>("srv+2 2ops each, programs over 2 operations", 2, 2, 2, 3, false));
            v.push_back(mk<int, RowMajor>("srv+1 3ops each, programs over 3 operations", 1, 3, 3, -1, true));
        }
    };
    return R;
}
