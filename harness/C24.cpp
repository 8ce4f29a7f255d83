// C24: reads and writes never wait and never allocate, whatever the others do.
#include "common.hpp"
#include "jobs.hpp"
#include <EigenIPC/StringTensor.hpp>
#include <climits>
using namespace vmc;
namespace {
using SS = StringTensor<StrServer>; using SC = StringTensor<StrClient>;
struct Meter {                                       // what an operation cost
    u_int64_t a, b, s; const char* what; int me = self();
    explicit Meter(const char* w) : what(w) { b = blocking_calls(me); s = steps(me); a = allocations(me); }
    void done(bool heap, u_int64_t limit) {
        u_int64_t x = allocations(me) - a;
        if (blocking_calls(me) != b) fail("%s by P%d waits: %d potentially blocking calls", what, me, (int)(blocking_calls(me) - b));
        if (steps(me) - s > limit) fail("%s by P%d takes %d steps", what, me, (int)(steps(me) - s));
        if (heap && x) fail("%s by P%d allocates %d times", what, me, (int)x);
    }
};
// ---- whatever the others do
template <class T, int L> struct St { Own<Server<T, L>> s, s2; Own<Client<T, L>> c[3]; int ready = 0, work = 0, left = 0; bool over = false; };
// letters of the measured participant: w/r write/read by reference, v/u by view, o out of range write, p out of range read
template <class T, int L, class P> void measured(P& p, char o) {
    Tensor<T, L> t(2, 2); t.setConstant(T(1)); bool wr = o == 'w' || o == 'v' || o == 'o', out = o == 'o' || o == 'p', ok;
    if (o == 'v' || o == 'u') { auto v = helpers::createViewFrom<T, L>(t, 0, 0, 2, 2); Meter m(wr ? "a write" : "a read"); ok = wr ? p.write(v, 0, 0) : p.read(v, 0, 0); m.done(true, 60); }
    else { TRef<T, L> f(t); Meter m(wr ? "a write" : "a read"); ok = wr ? p.write(f, out, 0) : p.read(f, out, 0); m.done(true, 60); }
    if (out && ok) fail("a block outside the tensor is accepted");
    outcome(ok);
}
// letters of the others: w/r; h takes the lock and keeps it until all measured operations are done; H takes and gives back;
// d detach/attach; s stop/start; n count; x close; k stays away. Participants may be killed anywhere.
template <class T, int L, class P> void other(St<T, L>& S, P& p, char o, int workers) {
    constexpr bool srv = std::is_same<P, Server<T, L>>::value;
    Tensor<T, L> t(2, 2); t.setConstant(T(1)); TRef<T, L> f(t);
    switch (o) {
    case 'w': p.write(f, 0, 0); break;
    case 'r': p.read(f, 0, 0); break;
    case 'h': p.dataSemAcquire(); block_until([=, &S] { return S.work == workers; }, "the others are done"); p.dataSemRelease(); break;
    case 'H': p.dataSemAcquire(); point("holds the lock"); p.dataSemRelease(); break;
    case 'd': if constexpr (!srv) { p.detach(); p.attach(); } break;
    case 's': if constexpr (srv) { p.stop(); p.run(); } break;
    case 'S': if constexpr (srv) p.stop(); break;
    case 'x': p.close(); break;
    case 'n': if constexpr (srv) p.getNClients(); break;
    case 'f': if constexpr (srv) { S.s2.reset(new Server<T, L>(2, 2, "t", "ns", false, VL::V0, true, true)); S.s2->run(); } break;
    }
}
// progs[0] is the server's program; a program which starts with '!' is measured
template <class T, int L> Scenario mk(const std::string& name, std::vector<std::string> progs, int preempt, int crash = 0, bool safe = true) {
    Scenario s; s.name = name; s.bounds.preempt = preempt; s.bounds.crash = crash; s.bounds.max_steps = 40000; int n = progs.size(), workers = 0;
    s.bounds.crash_mask = 0;
    for (int i = 0; i < n; ++i) if (progs[i][0] == '!') ++workers; else s.bounds.crash_mask |= 1ull << i;
    static std::shared_ptr<St<T, L>> st;
    s.build = [=] {
        st = std::make_shared<St<T, L>>();
        for (int i = 0; i < n; ++i) spawn(i ? "client" + std::to_string(i) : "server", [=] {
            auto& S = *st;
            block_until([=] { return st->ready == i || (crashes_injected() && st->ready != n); }, "turn");
            if (st->ready != i) { if (progs[i][0] == '!') ++S.work; return; }        // somebody was killed before it all began
            { Atomic a;
              if (i == 0) { S.s.reset(new Server<T, L>(2, 2, "t", "ns", false, VL::V0, false, safe)); S.s->run(); }
              else { S.c[i - 1].reset(new Client<T, L>("t", "ns", false, VL::V0, safe)); S.c[i - 1]->attach(); }
              ++S.ready; }
            block_until([=] { return st->ready == n || crashes_injected(); }, "everyone ready");
            if (st->ready != n) { if (progs[i][0] == '!') ++S.work; if (i) S.c[i - 1].p = nullptr; else S.s.p = nullptr; return; }
            if (progs[i][0] == '!') { for (size_t k = 1; k < progs[i].size(); ++k) { if (i) measured<T, L>(*S.c[i - 1], progs[i][k]); else measured<T, L>(*S.s, progs[i][k]); } ++S.work; }
            else for (char o : progs[i]) { if (i) other<T, L>(S, *S.c[i - 1], o, workers); else other<T, L>(S, *S.s, o, workers); }
            ++S.left;
            block_until([=] { return st->left + crashes_injected() >= n; }, "all done");
            if (crashes_injected()) { if (i) S.c[i - 1].p = nullptr; else S.s.p = S.s2.p = nullptr; return; }     // leaks: the lock may be lost
            Atomic a;
            block_until([=] { return st->left == n + (n - 1 - i); }, "turn to leave");
            if (i) S.c[i - 1].reset(); else { S.s2.reset(); S.s.reset(); }
            ++S.left;
        });
    };
    s.stuck = [=] { auto& S = *st; if (S.work != workers) return std::string("a read or write never returns"); if (!crashes_injected()) return std::string("deadlock"); for (auto& c : S.c) c.p = nullptr; S.s.p = S.s2.p = nullptr; return std::string(); };
    s.finish = [=] { st.reset(); };
    return s;
}
// string lists: they hand out strings, which live on the heap, but they do not wait either
struct StS { Own<SS> s; Own<SC> c[2]; int ready = 0, work = 0, left = 0; };
Scenario mks(const std::string& name, std::vector<std::string> progs, int preempt, int crash = 0) {
    Scenario s; s.name = name; s.bounds.preempt = preempt; s.bounds.crash = crash; s.bounds.max_steps = 60000; int n = progs.size(), workers = 0;
    s.bounds.crash_mask = 0; for (int i = 0; i < n; ++i) if (progs[i][0] == '!') ++workers; else s.bounds.crash_mask |= 1ull << i;
    static std::shared_ptr<StS> st;
    s.build = [=] {
        st = std::make_shared<StS>();
        for (int i = 0; i < n; ++i) spawn(i ? "client" + std::to_string(i) : "server", [=] {
            auto& S = *st;
            block_until([=] { return st->ready == i || (crashes_injected() && st->ready != n); }, "turn");
            if (st->ready != i) { if (progs[i][0] == '!') ++S.work; return; }        // somebody was killed before it all began
            { Atomic a; if (i == 0) { S.s.reset(new SS(2, "t", "ns", false, VL::V0, false, true)); S.s->run(); } else { S.c[i - 1].reset(new SC("t", "ns", false, VL::V0, true)); S.c[i - 1]->run(); } ++S.ready; }
            block_until([=] { return st->ready == n || crashes_injected(); }, "everyone ready");
            if (st->ready != n) { if (progs[i][0] == '!') ++S.work; if (i) S.c[i - 1].p = nullptr; else S.s.p = nullptr; return; }
            auto go = [&](auto& p) {
                for (char o : progs[i]) { std::vector<std::string> v{"one", "twenty"}; std::string one = "some";
                    Meter m(o == 'w' || o == 'W' ? "a write of strings" : "a read of strings"); bool op = true, ok = false;
                    switch (o) { case 'w': ok = p.write(one, 1); break; case 'r': ok = p.read(one, 0); break; case 'W': ok = p.write(v, 0); break; case 'R': ok = p.read(v, 0); break; default: op = false; }
                    if (op && progs[i][0] == '!') { m.done(false, 3000); outcome(ok); }
                    if (o == 'h') { p.getSharedMem(); if constexpr (std::is_same<std::decay_t<decltype(p)>, SS>::value) {} }
                    if (o == 'x') p.close(); }
            };
            if (i) go(*S.c[i - 1]); else go(*S.s);
            if (progs[i][0] == '!') ++S.work;
            ++S.left;
            block_until([=] { return st->left + crashes_injected() >= n; }, "all done");
            if (crashes_injected()) { if (i) S.c[i - 1].p = nullptr; else S.s.p = nullptr; return; }
            Atomic a;
            block_until([=] { return st->left == n + (n - 1 - i); }, "turn to leave");
            if (i) S.c[i - 1].reset(); else S.s.reset();
            ++S.left;
        });
    };
    s.stuck = [=] { auto& S = *st; if (S.work != workers) return std::string("a read or write of strings never returns"); if (!crashes_injected()) return std::string("deadlock"); for (auto& c : S.c) c.p = nullptr; S.s.p = nullptr; return std::string(); };
    s.finish = [=] { st.reset(); };
    return s;
}
// ---- all call forms, types, layouts, shapes, positions; in every state of the lock and of the participants
const char* FORM[] = {"reference", "reference to a block", "view", "view with padding", "view with inner stride", "view of a block"};
template <class T, int L> struct Caller {
    int form, h, w; Tensor<T, L> t; T* buf; DStrides str{0, 0};
    Caller(int f, int h, int w) : form(f), h(h), w(w) {
        int in = L == RowMajor ? w : h, out = L == RowMajor ? h : w;
        if (f == 1 || f == 5) t.resize(h + 2, w + 2); else if (f == 3 || f == 4) t.resize(1, (2 * in + 2) * out); else t.resize(h, w);
        t.setConstant(T(1)); buf = t.data();
        str = f == 3 ? DStrides(in + 2, 1) : f == 4 ? DStrides(2 * in + 1, 2) : DStrides(in, 1);
    }
    template <class P> bool go(P& p, bool wr, int i, int j) {
        const char* n = wr ? "a write" : "a read"; bool ok; u_int64_t lim = 1000 + 40ull * h * w;
        if (form == 0) { TRef<T, L> r(t); Meter m(n); ok = wr ? p.write(r, i, j) : p.read(r, i, j); m.done(true, lim); }
        else if (form == 1) { TRef<T, L> r(t.block(1, 1, h, w)); Meter m(n); ok = wr ? p.write(r, i, j) : p.read(r, i, j); m.done(true, lim); }
        else if (form == 5) { auto v = helpers::createViewFrom<T, L>(t, 1, 1, h, w); Meter m(n); ok = wr ? p.write(v, i, j) : p.read(v, i, j); m.done(true, lim); }
        else { TensorView<T, L> v(buf, h, w, str); Meter m(n); ok = wr ? p.write(v, i, j) : p.read(v, i, j); m.done(true, lim); }
        return ok;
    }
};
const char* STATE[] = {"free", "held by the server", "held by another client", "server stopped", "client detached", "server gone"};
template <class T, int L> void alloc(PlainResult& r, bool th) {
    Enum E{r}; std::vector<std::pair<int, int>> shapes{{1, 1}, {1, 2}, {2, 1}, {2, 2}, {3, 2}, {2, 3}, {3, 3}, {1, 40}, {40, 1}, {17, 9}, {150, 120}, {1, 3000}, {3000, 1}};
    if (th) { shapes.push_back({4, 4}); shapes.push_back({5, 3}); shapes.push_back({60, 60}); }
    for (auto sh : shapes) for (int safe = 0; safe < 2; ++safe) for (int vl = 0; vl < 4; vl += 3) for (int state = 0; state < (sh.first * sh.second > 1000 ? vl ? 0 : 2 : 6); ++state)
    E.world([&] {
        int R = sh.first, C = sh.second, i = 0, j = 0, h = 0, w = 0, f = 0; bool wr = false, cl = false;
        E.desc = [&] { char b[300]; snprintf(b, 300, "%s of a %dx%d block at %d,%d of a %dx%d %s %s tensor by a %s (%s, safe %d, level %d, lock or state: %s)", wr ? "write" : "read", h, w, i, j, R, C,
            TN<T>::n(), LN(L), cl ? "client" : "server", FORM[f], safe, vl, STATE[state]); return std::string(b); };
        Own<Server<T, L>> S; S.reset(new Server<T, L>(R, C, "t", "ns", false, vl ? VL::V3 : VL::V0, false, safe)); S->run();
        Client<T, L> K("t", "ns", false, vl ? VL::V3 : VL::V0, safe), M("t", "ns", false, VL::V0, safe); K.attach(); M.attach();
        if (state == 1) S->dataSemAcquire(); if (state == 2) M.dataSemAcquire(); if (state == 3) S->stop(); if (state == 4) K.detach();
        if (state == 5) S->close();
        HeapGuard g;
        std::vector<int> hs, ws; for (int x : {1, 2, 3, R - 1, R, R + 1}) if (x >= 1 && std::find(hs.begin(), hs.end(), x) == hs.end()) hs.push_back(x);
        for (int x : {1, 2, 3, C - 1, C, C + 1}) if (x >= 1 && std::find(ws.begin(), ws.end(), x) == ws.end()) ws.push_back(x);
        if (R * C > 1000) { hs = {1, R}; ws = {1, C}; }
        for (int x : hs) for (int y : ws) for (f = 0; f < 6; ++f) for (int pos = 0; pos < (R * C > 1000 ? 2 : 7); ++pos) for (int k = 0; k < 4; ++k) {
            h = x; w = y; static const int PI[] = {0, 1, 0, -1, INT_MAX, 1, 0}, PJ[] = {0, 0, 1, 0, 0, 1, INT_MIN};
            i = PI[pos]; j = PJ[pos]; wr = k & 1; cl = k & 2;
            bool fits = i >= 0 && j >= 0 && (long)i + h <= R && (long)j + w <= C, refuse = (safe && (state == 1 || state == 2)) || (!cl && (state == 3 || state == 5)) || (cl && state == 4);
            Caller<T, L> c(f, h, w);
            bool ok = cl ? c.go(K, wr, i, j) : c.go(*S, wr, i, j);
            if (ok != (fits && !refuse) && !(cl && (state == 3 || state == 5))) fail(ok ? "accepted" : "refused");
            E.hit(ok);
        }
        if (state == 1) S->dataSemRelease(); if (state == 2) M.dataSemRelease(); if (state == 3) S->run();
        if (state == 4) K.attach();
    });
}
template <class T, int L> void add(std::vector<PlainJob>& v, bool th) { v.push_back({std::string("allocations with ") + TN<T>::n() + " " + LN(L) + " tensors", [=](PlainResult& r) { alloc<T, L>(r, th); }}); }
}
Registry vmc::registry() {
    Registry R;
    R.jobs = [](bool th, std::vector<PlainJob>& v) {
        add<float, RowMajor>(v, th); add<float, ColMajor>(v, th); add<double, RowMajor>(v, th); add<double, ColMajor>(v, th);
        add<int, RowMajor>(v, th); add<int, ColMajor>(v, th); add<bool, RowMajor>(v, th); add<bool, ColMajor>(v, th);
    };
    R.scenarios = [](bool th, std::vector<Scenario>& v) {
        const char* peers2[] = {"h", "H", "w", "r", "ww", "s", "S", "n", "x", "f"};
        for (auto p : peers2) v.push_back(mk<int, RowMajor>(std::string("client reads and writes, server ") + p, {p, "!wr"}, th ? -1 : 3));
        for (auto p : peers2) if (*p != 'f') v.push_back(mk<double, ColMajor>(std::string("client uses views, killed server ") + p, {p, "!vu"}, th ? 3 : 1, 1));
        const char* peersc[] = {"h", "H", "w", "r", "d", "x"};
        for (auto p : peersc) v.push_back(mk<float, RowMajor>(std::string("server reads and writes, client ") + p, {"!wr", p}, th ? -1 : 3));
        for (auto p : peersc) v.push_back(mk<bool, ColMajor>(std::string("server reads and writes, killed client ") + p, {"!wuo", p}, th ? 3 : 1, 1));
        for (auto p : {"h", "w", "s", "n"}) for (auto q : {"h", "w", "d", "x"}) {
            v.push_back(mk<int, ColMajor>(std::string("client among server ") + p + " and client " + q, {p, "!wup", q}, th ? 2 : 1));
            v.push_back(mk<int, ColMajor>(std::string("client among server ") + p + " and client " + q + ", one killed", {p, "!wr", q}, th ? 1 : 0, 1)); }
        v.push_back(mk<double, RowMajor>("everybody reads and writes", {"!wr", "!rw", "!vu"}, th ? 3 : 2));
        v.push_back(mk<double, RowMajor>("everybody reads and writes, a client holds the lock", {"!wr", "!rw", "h"}, th ? 3 : 2));
        v.push_back(mk<int, RowMajor>("unsafe access while the server holds the lock", {"h", "!wr", "!uv"}, 2, 0, false));
        for (auto p : {"W", "R", "rw", "x"}) {
            v.push_back(mks(std::string("client uses strings, server ") + p, {p, "!wRrW"}, th ? 2 : 1)); if (*p != 'x') v.push_back(mks(std::string("server uses strings, client ") + p, {"!wRrW", p}, th ? 2 : 1));
            v.push_back(mks(std::string("client uses strings, killed server ") + p, {p, "!WR"}, th ? 1 : 0, 1)); v.push_back(mks(std::string("server uses strings, killed client ") + p, {"!WR", p}, th ? 1 : 0, 1)); }
    };
    return R;
}
