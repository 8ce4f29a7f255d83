// C18: operations outside the running or attached state are refused without effect; queries and
// contents follow the history.  Every call sequence up to a depth against a reference state machine.
#include "life.hpp"
#include <EigenIPC/StringTensor.hpp>
#include <EigenIPC/Producer.hpp>
#include <EigenIPC/Consumer.hpp>
using namespace life;
namespace {
using SS = StringTensor<StrServer>; using SC = StringTensor<StrClient>;
struct Log { std::string s; void add(const std::string& w) { s += (s.empty() ? "" : "; ") + w; note("%s", w.c_str()); } void bad(const std::string& w) { fail("%s | history: %s", w.c_str(), s.c_str()); } };
enum { NONE_, NEW_, RUN_, CLOSED_ };
// a list of strings: server x and clients y
struct Lists {
    int nc; bool safe, loud; SS* x = nullptr; SC* y[2] = {}; int xs = NONE_, ys[2] = {NEW_, NEW_}, yi[2] = {-1, -1}, xi = -1, step = 0; bool hold = false; int holder = -1; Log L;
    std::vector<std::vector<std::string>> inc; std::vector<int> clients;
    ~Lists() { if (hold) { if (holder == 2) x->getSharedMem().dataSemRelease(); else y[holder]->getSharedMem().dataSemRelease(); } for (auto p : y) delete p; delete x; }
    SC* client() { return new SC("t", "ns", loud, loud ? VL::V3 : VL::V0, safe); }
    enum { XN, XR, XC, XD, XW, XL, XU, YR, YC, YD, YW, YL, YU, M };
    void ops(std::vector<std::pair<int, int>>& v) {
        if (!x) { if (!hold) v.push_back({XN, 0}); } else { if (!hold) for (int o : {XR, XC, XD}) v.push_back({o, 0}); v.push_back({XW, 0}); if (safe && xs == RUN_ && !hold) v.push_back({XL, 0}); if (hold && holder == 2) v.push_back({XU, 0}); }
        for (int k = 0; k < nc; ++k) {
            if (!hold) { if (xs == RUN_ || ys[k] == RUN_) v.push_back({YR, k}); v.push_back({YC, k}); v.push_back({YD, k}); }
            v.push_back({YW, k}); if (safe && ys[k] == RUN_ && !hold) v.push_back({YL, k}); if (hold && holder == k) v.push_back({YU, k});
        }
    }
    bool idle(int o, int k) { return o == XR ? xs != NEW_ : o == YR ? ys[k] == RUN_ : o == YC && ys[k] != RUN_; }   // repeats without effect
    int held = -1;                                      // incarnation whose lock is held
    bool free(int i) { return !safe || !hold || held != i; }
    template <class P> void write(P* p, const std::string& who, int i, bool act, int me) {
        std::string w = std::string(step % 5, 'a' + step) + who; bool ok; std::vector<std::string> n; int len = i >= 0 ? inc[i].size() : 2, at = step % 3 == 2 ? 0 : step % 3;
        if (step % 3 == 2) { n.assign(len, w); n.back() += "!"; ok = p->write(n, 0); } else { n = {w}; ok = p->write(w, at); }
        bool want = act && free(i); if (hold && held == i && holder == me) want = ok;
        if (ok != want) L.bad(who + ".write " + (ok ? "succeeds although it must be refused" : "is refused although nothing prevents it"));
        if (ok) for (size_t q = 0; q < n.size(); ++q) inc[i][at + q] = n[q];
    }
    template <class P> void look(P* p, const std::string& who, int i, bool act, int me) {
        if (p->isRunning() != act) L.bad(who + ".isRunning() is wrong");
        if (p->getNamespace() != "ns" || p->getBasename() != "t") L.bad(who + " says it is called (" + p->getNamespace() + "," + p->getBasename() + ")");
        std::string q = "untouched"; bool mine = hold && held == i && holder == me, want = act && free(i), ok = p->read(q, 1);
        if (!mine && ok != want) L.bad(who + ".read " + (ok ? "succeeds although it must be refused" : "is refused although nothing prevents it"));
        if (ok ? q != inc[i][1] : q != "untouched") L.bad(who + " reads '" + q + "'" + (ok ? " instead of '" + inc[i][1] + "'" : " although refused"));
        std::vector<std::string> v(i >= 0 ? inc[i].size() : 2, "untouched"); ok = p->read(v, 0);
        if (!mine && ok != want) L.bad(who + ".read of the list " + (ok ? "succeeds although it must be refused" : "is refused although nothing prevents it"));
        for (size_t k = 0; k < v.size(); ++k) if (v[k] != (ok ? inc[i][k] : "untouched")) L.bad(who + " reads '" + v[k] + "' as string " + std::to_string(k) + (ok ? "" : " although refused"));
        if (p->write(std::string("beyond"), i >= 0 ? (int)inc[i].size() : 9) || p->write(std::string(1025, 'z'), 0) || p->write(std::vector<std::string>{"a", std::string(1025, 'z')}, 0) || p->write(std::string("before"), -1)) L.bad(who + ": a write which does not fit succeeds");
        if (act && p->getLength() != (int)inc[i].size()) L.bad(who + ".getLength() is " + std::to_string(p->getLength()));
    }
    void run(int o, int k) {
        static const char* N[] = {"list.new", "list.run", "list.close", "list.destroy", "list.write", "list.lock", "list.unlock", "client.run", "client.close", "client.destroy+new", "client.write", "client.lock", "client.unlock"};
        ++step; L.add(N[o] + (o >= YR && nc > 1 ? std::to_string(k) : "")); bool threw = false; std::string what;
        try {
            switch (o) {
            case XN: { int n = 2 + inc.size() % 2; x = new SS(n, "t", "ns", loud, loud ? VL::V3 : VL::V0, false, safe); inc.emplace_back(n, ""); clients.push_back(0); xi = inc.size() - 1; xs = NEW_; break; }
            case XR: x->run(); if (xs == CLOSED_) L.bad("running a closed list appears to succeed"); xs = RUN_; break;
            case XC: x->close(); xs = CLOSED_; break; case XD: delete x; x = nullptr; xs = NONE_; break;
            case XW: write(x, "list", xi, xs == RUN_, 2); break; case XL: x->getSharedMem().dataSemAcquire(); hold = true; holder = 2; held = xi; break; case XU: x->getSharedMem().dataSemRelease(); hold = false; break;
            case YR: y[k]->run(); if (ys[k] != RUN_) { ys[k] = RUN_; yi[k] = xi; ++clients[xi]; } break;
            case YC: y[k]->close(); if (ys[k] == RUN_) { --clients[yi[k]]; ys[k] = CLOSED_; } break;
            case YD: delete y[k]; y[k] = client(); if (ys[k] == RUN_) --clients[yi[k]]; ys[k] = NEW_; yi[k] = -1; break;
            case YW: write(y[k], "client" + std::to_string(k), yi[k], ys[k] == RUN_, k); break; case YL: y[k]->getSharedMem().dataSemAcquire(); hold = true; holder = k; held = yi[k]; break; case YU: y[k]->getSharedMem().dataSemRelease(); hold = false; break;
            }
        } catch (std::exception& e) { threw = true; what = e.what(); }
        if (threw && !(o == XR && xs == CLOSED_)) L.bad(std::string(N[o]) + " fails: " + what);
        if (x) { if (!x->isServer()) L.bad("a list takes itself for a client"); look(x, "list", xi, xs == RUN_, 2); if (xs != CLOSED_ && !hold && x->getNClients() != clients[xi]) L.bad("getNClients() is " + std::to_string(x->getNClients()) + " with " + std::to_string(clients[xi]) + " clients"); }
        for (int q = 0; q < nc; ++q) { look(y[q], "client" + std::to_string(q), yi[q], ys[q] == RUN_, q); if (y[q]->getNClients() != -1 || y[q]->isServer()) L.bad("a client takes itself for a server"); }
    }
};
// a producer x and consumers y. A consumer joins while no trigger was issued yet.
struct Rounds {
    int nc; Producer* x = nullptr; Consumer* y[2] = {}; int xs = NONE_, ys[2] = {NEW_, NEW_}, yi[2] = {-1, -1}, xi = -1, step = 0; int taken[2] = {}; Log L;
    struct Inc { int trig = 0, acks = 0, base = 0; }; std::vector<Inc> inc;
    ~Rounds() { for (auto p : y) delete p; delete x; }
    bool idle(int o, int k) { return o == XR ? xs != NEW_ : o == YR ? ys[k] == RUN_ : o == YC || o == YW || o == YA || o == YB ? ys[k] != RUN_ : (o == XT || o == XK) && xs != RUN_; }
    enum { XN, XF, XR, XC, XD, XT, XK, YR, YC, YD, YW, YA, YB, M };
    void ops(std::vector<std::pair<int, int>>& v) {
        if (!x) { v.push_back({XN, 0}); v.push_back({XF, 0}); } else for (int o : {XR, XC, XD, XT, XK}) v.push_back({o, 0});
        for (int k = 0; k < nc; ++k) { if (ys[k] == RUN_ || (xs == RUN_ && !inc[xi].trig)) v.push_back({YR, k}); for (int o : {YC, YD, YW, YA, YB}) v.push_back({o, k}); }
    }
    void run(int o, int k) {
        static const char* N[] = {"producer.new", "producer.new(force)", "producer.run", "producer.close", "producer.destroy", "trigger", "collect", "consumer.run", "consumer.close", "consumer.destroy+new", "wait", "ack", "wait_and_ack"};
        ++step; L.add(N[o] + (o >= YR && nc > 1 ? std::to_string(k) : "")); bool threw = false, must = false, ok = false, want = false; std::string what; int called = 0;
        bool xr = xs == RUN_, yr = ys[k] == RUN_; Inc* X = xi >= 0 ? &inc[xi] : nullptr; Inc* Y = yi[k] >= 0 ? &inc[yi[k]] : nullptr; int pend = yr ? Y->trig - taken[k] : 0;
        if (o == XT || o == XK) must = !xr; if (o >= YW) must = !yr || (o != YA && pend > 1); if (o == XR) must = xs == CLOSED_;
        try {
            switch (o) {
            case XN: case XF: x = new Producer("t", "ns", false, VL::V0, o == XF); inc.emplace_back(); xi = inc.size() - 1; xs = NEW_; break;
            case XR: x->run(); if (!must) xs = RUN_; break; case XC: x->close(); xs = CLOSED_; break; case XD: delete x; x = nullptr; xs = NONE_; break;
            case XT: x->trigger(); if (xr) ++X->trig; break;
            case XK: { int n = 1 + step % nc; ok = x->wait_ack_from(n, 5); if (xr) { want = X->acks - X->base >= n; if (want) X->base = X->acks; } break; }
            case YR: y[k]->run(); if (!yr) { ys[k] = RUN_; yi[k] = xi; taken[k] = 0; } break;
            case YC: y[k]->close(); if (yr) ys[k] = CLOSED_; break; case YD: delete y[k]; y[k] = new Consumer("t", "ns", false, VL::V0); ys[k] = NEW_; yi[k] = -1; break;
            case YW: ok = y[k]->wait(5); want = pend == 1; if (yr && want) ++taken[k]; break;
            case YA: ok = y[k]->ack(); want = true; if (yr) ++Y->acks; break;
            case YB: { bool good = step % 2; ok = y[k]->wait_and_ack([&] { ++called; return good; }, 5); want = pend == 1 && good; if (yr && pend == 1) { ++taken[k]; ++Y->acks; } break; }
            }
        } catch (std::exception& e) { threw = true; what = e.what(); }
        if (threw != must) L.bad(std::string(N[o]) + (threw ? " fails: " + what : " must be refused but appears to succeed"));
        if (!threw && ok != want) L.bad(std::string(N[o]) + " returns " + (ok ? "true" : "false"));
        if (called != (o == YB && !must && pend == 1)) L.bad("wait_and_ack() calls its function " + std::to_string(called) + " times");
    }
};
template <class H> Scenario hist(const std::string& name, int depth, std::function<void(H&)> init, u64 allowed = ~0ull) {
    Scenario s; s.name = name; s.bounds.cache = false; s.bounds.max_steps = 800000;
    s.build = [=] { spawn("caller", [=] {
        Atomic a; H h; init(h);
        for (int k = 0; k < depth; ++k) { std::vector<std::pair<int, int>> v; h.ops(v); if (~allowed) v.erase(std::remove_if(v.begin(), v.end(), [&](auto& q) { return !(allowed >> q.first & 1) || h.idle(q.first, q.second); }), v.end()); int p = choose(v.size() + 1, "next call"); if (p == (int)v.size()) break; h.run(v[p].first, v[p].second); }
    }); };
    return s;
}
void lists(Lists& h, int nc, bool safe, bool up, bool loud) { h.nc = nc; h.safe = safe; h.loud = loud; for (int k = 0; k < nc; ++k) h.y[k] = h.client(); if (up) { h.run(Lists::XN, 0); h.run(Lists::XR, 0); for (int k = 0; k < nc; ++k) h.run(Lists::YR, k); } }
void rounds(Rounds& h, int nc, bool up) { h.nc = nc; for (int k = 0; k < nc; ++k) h.y[k] = new Consumer("t", "ns", false, VL::V0); if (up) { h.run(Rounds::XN, 0); h.run(Rounds::XR, 0); for (int k = 0; k < nc; ++k) h.run(Rounds::YR, k); } }
}
Registry vmc::registry() {
    Registry R;
    R.scenarios = [](bool th, std::vector<Scenario>& v) {
        Opts o; o.gates = true;
        o.ops = mask({S_NEW, S_NEWF, S_DEL, S_RUN, S_STOP, S_CLOSE, S_WRITE, S_READ, S_COUNT, C_ATTACH, C_DETACH, C_CLOSE, C_DEL, C_WRITE, C_READ});
        o.depth = th ? 7 : 6;
        add<int, RowMajor>(v, "server and client int-row", o);
        o.depth = th ? 6 : 5; o.up = true;
        add<double, ColMajor>(v, "running server and attached client double-col", o);
        o.nclients = 2; o.depth = th ? 5 : 4;
        add<bool, RowMajor>(v, "running server and 2 clients bool-row", o);
        o.nclients = 1; o.forms = true;
        const int D[][2] = {{1, 1}, {1, 5}, {4, 1}, {3, 4}, {12, 7}};
        for (auto& d : D) {
            o.R = d[0]; o.C = d[1]; o.up = false; o.loud = d[0] == 3; o.depth = th ? 6 : o.loud ? 3 : 4; std::string n = std::to_string(d[0]) + "x" + std::to_string(d[1]) + (o.loud ? " with messages" : "");
            add<float, RowMajor>(v, "server and client float-row " + n, o);
            o.up = true; o.depth = th ? 5 : 3; add<int, ColMajor>(v, "running server and attached client int-col " + n, o);
            if (d[0] == 1) { add<bool, ColMajor>(v, "running server and attached client bool-col " + n, o); add<double, RowMajor>(v, "running server and attached client double-row " + n, o); }
        }
        o.R = o.C = 2; o.loud = o.forms = false; o.up = true; o.depth = th ? 5 : 3;
        o.safe = false; o.nclients = 1;
        add<float, ColMajor>(v, "unsafe access float-col", o);
        auto L = [&](const char* n, int d, int nc, bool safe, bool up, bool loud = false) { v.push_back(hist<Lists>(n, d, [=](Lists& h) { lists(h, nc, safe, up, loud); })); };
        L("string list and client", th ? 7 : 6, 1, true, false); L("running string list and client", th ? 6 : 5, 1, true, true);
        L("running string list and 2 clients", th ? 5 : 4, 2, true, true); L("string list and client, unsafe", th ? 6 : 5, 1, false, false); L("string list and client, with messages", th ? 4 : 3, 1, true, true, true);
        auto m = [](std::initializer_list<int> q) { u64 r = 0; for (int x : q) r |= 1ull << x; return r; };
        v.push_back(hist<Lists>("successive string lists and client", th ? 11 : 9, [=](Lists& h) { lists(h, 1, true, true, false); }, m({Lists::XN, Lists::XR, Lists::XD, Lists::XW, Lists::YR, Lists::YC})));
        v.push_back(hist<Rounds>("successive producers and consumer", th ? 12 : 10, [=](Rounds& h) { rounds(h, 1, true); }, m({Rounds::XN, Rounds::XR, Rounds::XD, Rounds::XT, Rounds::YR, Rounds::YC, Rounds::YW})));
        v.push_back(hist<Rounds>("successive producers and acknowledgements", th ? 12 : 10, [=](Rounds& h) { rounds(h, 1, true); }, m({Rounds::XN, Rounds::XR, Rounds::XD, Rounds::XK, Rounds::YR, Rounds::YC, Rounds::YA})));
        auto P = [&](const char* n, int d, int nc, bool up) { v.push_back(hist<Rounds>(n, d, [=](Rounds& h) { rounds(h, nc, up); })); };
        P("producer and consumer", th ? 6 : 5, 1, false); P("running producer and consumer", th ? 6 : 5, 1, true); P("running producer and 2 consumers", th ? 5 : 4, 2, true);
    };
    return R;
}
