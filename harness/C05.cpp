// C05: the client count is exact after every history of arrivals and departures.
#include "life.hpp"
#include "succ.hpp"
namespace {
struct Tr { int who; bool arrival; u64 call, ret; };
template <class T, int L> struct St {
    Own<Server<T, L>> srv; Own<Client<T, L>> cl[4]; std::vector<Tr> tr; int done = 0, inflight = 0; bool up = false, over = false;
    bool att[4] = {}, busy[4] = {};
};
// client programs: a attach, d detach, c close, x destroy and create again, A attach again while attached
template <class T, int L>
Scenario conc(const std::string& name, std::vector<std::string> progs, int queries, int preempt, bool start = false) {
    Scenario s; s.name = name; s.bounds.preempt = preempt; s.bounds.max_steps = 60000;
    static std::shared_ptr<St<T, L>> st; int n = progs.size();
    s.build = [=] {
        st = std::make_shared<St<T, L>>();
        spawn("server", [=] {
            auto& S = *st;
            if (start) { S.srv.reset(new Server<T, L>(2, 2, "t", "ns", false, VL::V0, false, true)); S.srv->run(); S.up = true; }
            else { Atomic a; S.srv.reset(new Server<T, L>(2, 2, "t", "ns", false, VL::V0, false, true)); S.srv->run(); S.up = true; }
            for (int q = 0; q < queries; ++q) {
                event(0x100); u64 call = now_seq();
                int got = S.srv->getNClients();
                event(0x200 + got); u64 ret = now_seq();
                // clients surely / possibly attached at some instant of the query
                int lo = 0, hi = 0;
                for (int i = 0; i < n; ++i) {
                    // state of client i: walk its transitions
                    bool sure = false, poss = false, cur = false;      // cur: attached before the query
                    bool all = true;
                    for (auto& t : S.tr) if (t.who == i) {
                        if (t.ret && t.ret < call) cur = t.arrival;
                        else if (t.call > ret) continue;
                        else { all = false; poss = true; }
                    }
                    sure = cur && all; poss = poss || cur;
                    lo += sure; hi += poss;
                }
                if (got < lo || got > hi) fail("getNClients() is %d although between %d and %d clients are attached during the query", got, lo, hi);
            }
            block_until([=] { return st->done == n; }, "everyone done");
            { Atomic a; int want = 0; for (int i = 0; i < n; ++i) want += S.cl[i] && S.cl[i]->isAttached();
              int got = S.srv->getNClients(); if (got != want) fail("getNClients() is %d with %d clients attached and nobody arriving or leaving", got, want); S.over = true; }
            block_until([=] { for (int i = 1; i <= n; ++i) if (status(i) != DONE) return false; return true; }, "clients gone");
            { Atomic a; int got = S.srv->getNClients(); if (got) fail("getNClients() is %d after everybody left", got); S.srv.reset(); }
        });
        for (int i = 0; i < n; ++i) spawn("client" + std::to_string(i + 1), [=] {
            auto& S = *st;
            if (!start) block_until([] { return st->up; }, "server up");
            { Atomic a; S.cl[i].reset(new Client<T, L>("t", "ns", false, VL::V0, true)); }
            for (char o : progs[i]) {
                size_t k = S.tr.size(); bool arr = o == 'a' || o == 'A';
                S.tr.push_back({i, arr, 0, 0}); event(0x300 + i); S.tr[k].call = now_seq();
                switch (o) {
                case 'a': case 'A': S.cl[i]->attach(); break;
                case 'd': S.cl[i]->detach(); break;
                case 'c': S.cl[i]->close(); break;
                case 'x': S.cl[i].reset(); { Atomic a; S.cl[i].reset(new Client<T, L>("t", "ns", false, VL::V0, true)); } break;
                }
                event(0x400 + i); S.tr[k].ret = now_seq();
            }
            ++S.done;
            block_until([] { return st->over; }, "server checked");
            S.cl[i].reset();
        });
    };
    s.finish = [=] { u64 o = 0; for (auto& t : st->tr) o = o * 5 + t.who * 2 + t.arrival; outcome(o); st.reset(); };
    return s;
}

// many clients and long histories: every way of arriving (one by one, in between departures), every
// order and way of leaving, with and without a pause of the server
template <class T, int L>
Scenario many(int n, int rounds, bool loud) {
    Scenario s; s.name = std::to_string(n) + " clients, " + std::to_string(rounds) + " rounds, " + TN<T>::n(); s.bounds.cache = false; s.bounds.max_steps = 80000000;
    s.build = [=] {
        spawn("caller", [=] {
            Atomic a; std::vector<Own<Client<T, L>>> c(n); Own<Server<T, L>> srv; std::vector<char> in(n, 0); int count = 0;
            auto vl = loud ? VL::V3 : VL::V0;
            int order = choose(4, "order of leaving"), way = choose(4, "way of leaving"), mix = choose(3, "arrivals"), pause = choose(2, "the server pauses");
            srv.reset(new Server<T, L>(3, 2, "t", "ns", loud, vl, false, true)); srv->run();
            auto check = [&](const char* w) { int g = srv->getNClients(); if (g != count) fail("getNClients() is %d with %d clients attached (%s)", g, count, w); };
            auto arrive = [&](int i) { if (in[i]) return; if (!c[i]) c[i].reset(new Client<T, L>("t", "ns", loud, vl, true)); c[i]->attach(); in[i] = 1; ++count; check("after an arrival"); };
            auto leave = [&](int i, int k) { if (!in[i]) return; switch ((way + (way == 3 ? k : 0)) % 3) { case 0: c[i]->detach(); break; case 1: c[i]->close(); break; default: c[i].reset(); } in[i] = 0; --count; check("after a departure"); };
            for (int r = 0; r < rounds; ++r) {
                for (int i = 0; i < n; ++i) { arrive(i); if (mix == 1 && i % 3 == 2) leave(i - 1, i); if (mix == 2 && i % 5 == 4) { srv->stop(); srv->run(); check("after a restart"); } }
                if (pause) { srv->stop(); check("while the server is stopped"); }
                for (int i = 0; i < n; ++i) leave(order == 0 ? i : order == 1 ? n - 1 - i : order == 2 ? (i * 7 + r) % n : i % 2 ? n - 1 - i / 2 : i / 2, i);
                for (int i = 0; i < n; ++i) leave(i, i);
                if (pause) { srv->run(); check("after a restart"); }
            }
            for (int i = 0; i < n; ++i) c[i].reset();
            check("at the end"); srv.reset(); outcome(order * 24 + way * 6 + mix * 2 + pause);
        });
    };
    return s;
}
}
Registry vmc::registry() {
    Registry R;
    R.scenarios = [](bool th, std::vector<Scenario>& v) {
        using namespace life;
        Opts o; o.count = true; o.nclients = 1;
        o.ops = mask({S_NEW, S_NEWF, S_RUN, S_STOP, S_CLOSE, S_DEL, S_COUNT, C_ATTACH, C_DETACH, C_CLOSE, C_DEL, C_WRITE});
        o.depth = th ? 7 : 6; add<int, RowMajor>(v, "histories", o);
        o.up = true; o.nclients = 2; o.depth = th ? 6 : 5;
        o.ops = mask({S_STOP, S_RUN, S_COUNT, C_ATTACH, C_DETACH, C_CLOSE, C_DEL, S_WRITE});
        add<double, ColMajor>(v, "histories of 2 attached clients", o);
        o.safe = false; o.depth = th ? 5 : 4; add<bool, RowMajor>(v, "histories of 2 attached clients, unsafe access", o);
        succ::add<int, RowMajor>(v, "clients of a server that was replaced", th ? 6 : 4, true);
        v.push_back(many<int, RowMajor>(2, 150, false)); v.push_back(many<float, ColMajor>(7, 20, true)); v.push_back(many<double, RowMajor>(23, 3, false)); v.push_back(many<bool, ColMajor>(th ? 60 : 40, 2, false)); v.push_back(many<int, RowMajor>(300, 1, false));
        if (th) { v.push_back(many<int, ColMajor>(1, 3000, false)); v.push_back(many<int, ColMajor>(9, 150, false)); }
        v.push_back(conc<int, RowMajor>("1 client a-d-a, server asking", {"ada"}, 3, -1));
        v.push_back(conc<int, RowMajor>("2 clients arriving", {"a", "a"}, 1, -1));
        v.push_back(conc<int, RowMajor>("2 clients a-d and a-x", {"ad", "ax"}, 1, th ? -1 : 4));
        v.push_back(conc<float, ColMajor>("2 clients a-c-a and a-A-d", {"aca", "aAd"}, 1, th ? -1 : 3));
        v.push_back(conc<double, RowMajor>("2 clients arriving during start-up", {"a", "ad"}, 1, th ? 4 : 2, true));
        v.push_back(conc<int, RowMajor>("3 clients arriving", {"a", "a", "a"}, 1, th ? 4 : 2));
        v.push_back(conc<int, RowMajor>("3 clients a-d", {"ad", "ax", "ac"}, 1, th ? 3 : 2));
    };
    return R;
}
