// C16: descriptors and names are given back, once, and nobody else's.
#include "life.hpp"
#include "anyc.hpp"
#include <EigenIPC/StringTensor.hpp>
#include <EigenIPC/Producer.hpp>
#include <EigenIPC/Consumer.hpp>
namespace {
void names_gone(const std::string& why) {
    for (auto& n : list_names()) if (n.find(MemDef::isSrvrRunningName()) == std::string::npos) fail("%s the name %s still exists", why.c_str(), n.c_str());
}
struct Fds {                                  // descriptors of the application opened in between
    std::vector<int> f; std::string log;
    void step(const std::string& w) { log += (log.empty() ? "" : "; ") + w; note("%s", w.c_str()); f.push_back(app_open(self())); check(); }
    void check() {
        for (int x : f) if (!app_intact(self(), x)) fail("a descriptor of the application was closed | history: %s", log.c_str());
        if (bad_closes(self())) fail("a descriptor or semaphore was closed which was not open | history: %s", log.c_str());
    }
    void none() { check(); if (open_maps(self())) fail("%d pieces of shared memory are still mapped after everything was closed | history: %s", open_maps(self()), log.c_str()); if (open_fds(self()) || open_sems(self())) fail("%d descriptors and %d semaphores are still open after everything was closed | history: %s", open_fds(self()), open_sems(self()), log.c_str()); }
};
// refused clients, failed contenders, forced successors: every sequence of calls on a server A, a contender B of
// another type and shape, a matching client and a client of another type
Scenario errors(const std::string& name, int depth, int first) {
    Scenario s; s.name = name; s.bounds.cache = false; s.bounds.max_steps = 200000;
    s.build = [=] {
        spawn("caller", [=] {
            Atomic a; Fds F; AnyServer* S[2] = {}; bool run[2] = {}; AnyClient* c[2] = {make_client(4, "n", "s"), make_client(3, "n", "s")};
            struct D { std::function<void()> f; ~D() { f(); } } d{[&] { for (auto p : c) delete p; for (auto p : S) delete p; }};
            enum { NA, NB, FB, RA, RB, XA, XB, CA, CB, A0, A1, D0, D1, X0, X1, K0, K1, M };
            static const char* N[] = {"A.new", "B.new", "B.new(force)", "A.run", "B.run", "A.destroy", "B.destroy", "A.close", "B.close", "client.attach", "other.attach",
                "client.detach", "other.detach", "client.destroy+new", "other.destroy+new", "client.close", "other.close"};
            bool closed[2] = {};
            for (int k = 0; k < depth; ++k) {
                std::vector<int> v;
                for (int o = 0; o < M; ++o) {
                    if (k == 0 && first >= 0 && o != first) continue;
                    if (o == NA && S[0]) continue; if ((o == NB || o == FB) && S[1]) continue;
                    if ((o == RA || o == XA || o == CA) && !S[0]) continue; if ((o == RB || o == XB || o == CB) && !S[1]) continue;
                    bool up = (run[0] && S[0]->running()) || (run[1] && S[1]->running());
                    if ((o == A0 || o == A1) && !up) continue;         // would wait
                    if (o == RA && (!S[0] || (S[1] && !closed[1]))) continue; if (o == RB && S[0] && !closed[0]) continue;   // C06's business
                    if (o == NB && S[0] && !closed[0] && !run[0]) continue; if (o == NA && S[1] && !closed[1] && !run[1]) continue;   // would time out
                    if (o == FB && S[0] && !closed[0]) continue;
                    v.push_back(o);
                }
                int n = v.size() + (k > 0); if (!n) return; int p = choose(n, "next call"); if (p == (int)v.size()) break;
                int o = v[p]; F.step(N[o]);
                try {
                    switch (o) {
                    case NA: S[0] = make_server(4, 2, 2, "n", "s"); run[0] = closed[0] = false; break;
                    case NB: case FB: S[1] = make_server(3, 3, 1, "n", "s", o == FB); run[1] = closed[1] = false; break;
                    case RA: S[0]->run(); run[0] = true; break; case RB: S[1]->run(); run[1] = true; break;
                    case XA: delete S[0]; S[0] = nullptr; run[0] = false; break; case XB: delete S[1]; S[1] = nullptr; run[1] = false; break;
                    case CA: S[0]->close(); closed[0] = true; break; case CB: S[1]->close(); closed[1] = true; break;
                    case A0: c[0]->attach(); break; case A1: c[1]->attach(); break; case D0: c[0]->detach(); break; case D1: c[1]->detach(); break;
                    case X0: case X1: delete c[o - X0]; c[o - X0] = make_client(o == X0 ? 4 : 3, "n", "s"); break;
                    case K0: c[0]->close(); break; case K1: c[1]->close(); break;
                    }
                } catch (std::exception& e) { F.log += " (refused)"; }
                F.check();
                if ((!S[0] || closed[0]) && (!S[1] || closed[1])) names_gone("after every server was closed (history: " + F.log + ")");
            }
            d.f(); c[0] = c[1] = nullptr; S[0] = S[1] = nullptr;
            F.none(); names_gone("after everything was destroyed (history: " + F.log + ")");
        });
    };
    return s;
}
// one object of each other kind: every sequence of calls
Scenario strings(const std::string& name, int depth) {
    Scenario s; s.name = name; s.bounds.cache = false; s.bounds.max_steps = 400000;
    using SS = StringTensor<StrServer>; using SC = StringTensor<StrClient>;
    s.build = [=] {
        spawn("caller", [=] {
            Atomic a; Fds F; SS* x = nullptr; SC* y = nullptr; bool up = false, att = false;
            struct D { std::function<void()> f; ~D() { f(); } } d{[&] { delete y; delete x; }};
            static const char* N[] = {"list.new", "list.run", "list.close", "list.destroy", "client.new", "client.run", "client.close", "client.destroy", "list.write", "client.read"};
            for (int k = 0; k < depth; ++k) {
                std::vector<int> v;
                for (int o = 0; o < 10; ++o) {
                    if (o == 0 ? !!x : (o <= 3 || o == 8) && !x) continue; if (o == 4 ? !!y : ((o > 4 && o < 8) || o == 9) && !y) continue;
                    if (o == 5 && !up && !att) continue; if (o == 1 && x && !up && F.log.find("list.close") != std::string::npos) continue;
                    v.push_back(o);
                }
                int p = choose(v.size() + 1, "next call"); if (p == (int)v.size()) break; int o = v[p]; F.step(N[o]);
                std::string q = "abc";
                switch (o) {
                case 0: x = new SS(2, "t", "ns", false, VL::V0, false, true); break; case 1: x->run(); up = true; break; case 2: x->close(); up = false; break;
                case 3: delete x; x = nullptr; up = false; break; case 4: y = new SC("t", "ns", false, VL::V0, true); break; case 5: y->run(); att = true; break;
                case 6: y->close(); att = false; break; case 7: delete y; y = nullptr; att = false; break; case 8: x->write(q, 0); break; case 9: y->read(q, 0); break;
                }
                F.check(); if (!x || (o == 2)) names_gone("after the list was closed (history: " + F.log + ")");
            }
            d.f(); x = nullptr; y = nullptr; F.none(); names_gone("after everything was destroyed (history: " + F.log + ")");
        });
    };
    return s;
}
Scenario prodcons(const std::string& name, int depth) {
    Scenario s; s.name = name; s.bounds.cache = false; s.bounds.max_steps = 400000;
    s.build = [=] {
        spawn("caller", [=] {
            Atomic a; Fds F; Producer* x = nullptr; Consumer* y = nullptr; bool up = false, cl = false, att = false, cgone = false;
            struct D { std::function<void()> f; ~D() { f(); } } d{[&] { delete y; delete x; }};
            static const char* N[] = {"producer.new", "producer.new(force)", "producer.run", "producer.close", "producer.destroy", "consumer.new", "consumer.run", "consumer.close", "consumer.destroy", "trigger", "wait", "second producer", "successor, then destroy the closed producer"};
            for (int k = 0; k < depth; ++k) {
                std::vector<int> v;
                for (int o = 0; o < 13; ++o) {
                    if ((o == 0 || o == 1) ? !!x : (o <= 4 && !x)) continue; if (o == 5 ? !!y : (o > 5 && o < 9) && !y) continue;
                    if (o == 6 && !up && !att) continue; if (o == 12 && !cl) continue; if ((o == 9 || o == 11) && !up) continue; if (o == 10 && !att) continue;
                    v.push_back(o);
                }
                int p = choose(v.size() + 1, "next call"); if (p == (int)v.size()) break; int o = v[p]; F.step(N[o]);
                switch (o) {
                case 0: case 1: x = new Producer("t", "ns", false, VL::V0, o == 1); cl = false; break; case 2: try { x->run(); if (cl) fail("a closed producer runs"); up = true; } catch (std::exception& e) { if (!cl) fail("run() of the producer fails: %s", e.what()); } break; case 3: x->close(); cl = true; up = false; break;
                case 4: delete x; x = nullptr; up = cl = false; break; case 5: y = new Consumer("t", "ns", false, VL::V0); break; case 6: try { y->run(); att = true; } catch (std::exception&) {} break;
                case 7: y->close(); att = false; break; case 8: delete y; y = nullptr; att = false; break; case 9: x->trigger(); break; case 10: try { y->wait(5); } catch (std::exception&) {} break;
                case 11: try { Producer q("t", "ns", false, VL::V0, false); q.run(); fail("a second producer runs"); } catch (std::exception&) {} break;
                case 12: { std::unique_ptr<Producer> q(new Producer("t", "ns", false, VL::V0, false)); if (k % 2) { delete x; x = nullptr; } q->run(); delete x; x = q.release(); up = true; cl = false;
                    Consumer z("t", "ns", false, VL::V0); z.run(); break; }
                }
                F.check(); if (o == 5 || o == 6) cgone = false; if (o == 7) cgone = true; if ((!x || cl) && (!y || cgone)) F.none();
                if (!x || cl) names_gone("after the producer was closed or destroyed (history: " + F.log + ")");
            }
            d.f(); x = nullptr; y = nullptr; F.none(); names_gone("after everything was destroyed (history: " + F.log + ")");
        });
    };
    return s;
}
// one system call fails while a producer or consumer is created or started; closing it gives everything back all the same
Scenario faulty(const std::string& name, bool cons, int faults) {
    Scenario s; s.name = name; s.bounds.cache = false; s.bounds.preempt = 0; s.bounds.fault = faults; s.bounds.fault_mask = cons ? 2 : 1;
    auto up = std::make_shared<int>(0);
    s.build = [=] {
        *up = 0;
        spawn("producer", [=] {
            Fds F; F.step("producer.new");
            std::unique_ptr<Producer> x; for (int k = 0; !x; ++k) try { x.reset(new Producer("t", "ns", false, VL::V0, false)); } catch (std::exception& e) { F.check(); F.none(); if (!faults_injected() || k > 3) fail("the producer cannot be created: %s", e.what()); }
            bool ok = false; try { F.step("producer.run"); x->run(); ok = true; } catch (std::exception& e) { F.check(); if (!faults_injected()) fail("run() fails: %s", e.what()); }
            if (ok) { *up = 1; if (cons) block_until([] { return status(1) == DONE; }, "the consumer ends"); }
            F.step("producer.close"); x->close(); F.none(); names_gone("after the producer was closed (history: " + F.log + ")");
            x.reset(); F.none();
        });
        if (cons) spawn("consumer", [=] {
            block_until([=] { return *up; }, "up"); Fds F; F.step("consumer.new");
            Consumer y("t", "ns", false, VL::V0); F.step("consumer.run"); bool ok = false; try { y.run(); ok = true; } catch (std::exception& e) { F.check(); if (!faults_injected()) fail("run() fails: %s", e.what()); }
            F.step("consumer.close"); y.close(); F.none();
            for (int k = 0; !ok; ++k) try { F.step("consumer.run"); y.run(); ok = true; } catch (std::exception& e) { F.check(); if (k > 3) fail("run() fails: %s", e.what()); }
            F.step("consumer.close"); y.close(); F.none();
        });
    };
    s.finish = [] { names_gone("after everything was destroyed"); outcome(faults_injected()); };
    return s;
}
// participants in parallel; each in its own process. Server: n new r run s stop c close x destroy; client: a attach d detach c close x destroy+new
struct St { Own<AnyServer> s; Own<AnyClient> c[4]; bool up = false; };
std::shared_ptr<St> st;
Scenario conc(const std::string& name, const std::string& srv, std::vector<std::string> cl, int preempt, bool preset) {
    Scenario s; s.name = name; s.bounds.preempt = preempt; s.bounds.max_steps = 60000; int n = cl.size();
    s.build = [=] {
        st = std::make_shared<St>();
        spawn("server", [=] {
            Fds F; auto& S = *st;
            if (preset) { Atomic a; S.s.reset(make_server(4, 2, 2, "t", "ns")); S.s->run(); S.up = true; }
            for (char o : srv) {
                F.step(std::string(1, o));
                try { switch (o) { case 'n': S.s.reset(make_server(4, 2, 2, "t", "ns")); break; case 'r': S.s->run(); S.up = true; break; case 's': S.s->stop(); break; case 'c': S.s->close(); break;
                    case 'x': S.s.reset(); break; case 'q': S.s->count(); break; case 'w': S.s->put(3); break; } } catch (std::exception& e) { fail("the server fails: %s", e.what()); }
                F.check();
            }
            S.s.reset(); F.none();
        });
        for (int i = 0; i < n; ++i) spawn("client" + std::to_string(i), [=] {
            Fds F; auto& S = *st;
            if (preset) { block_until([] { return st->up; }, "up"); }
            { Atomic a; S.c[i].reset(make_client(i == 2 ? 3 : 4, "t", "ns")); }
            bool pre = preset && cl[i][0] == 'A';
            if (pre) { Atomic a; try { S.c[i]->attach(); } catch (std::exception&) { } }
            for (size_t k = pre; k < cl[i].size(); ++k) {
                char o = cl[i][k]; F.step(std::string(1, o));
                try { switch (o) { case 'a': S.c[i]->attach(); break; case 'd': S.c[i]->detach(); break; case 'c': S.c[i]->close(); break;
                    case 'x': S.c[i].reset(); S.c[i].reset(make_client(4, "t", "ns")); break; case 'w': S.c[i]->put(3); break; } } catch (std::exception& e) { note("refused: %s", e.what()); }
                F.check();
            }
            S.c[i].reset(); F.none();
        });
    };
    // a client which waits for a server that never comes again is fine
    s.stuck = [=]() -> std::string { if (status(0) != DONE) return "the server is blocked"; names_gone("after the server was destroyed"); return ""; };
    s.finish = [] { names_gone("after everything was destroyed"); outcome(1); st.reset(); };
    return s;
}
}
Registry vmc::registry() {
    Registry R;
    R.scenarios = [](bool th, std::vector<Scenario>& v) {
        using namespace life;
        Opts o; o.fds = true;
        o.ops = mask({S_NEW, S_NEWF, S_DEL, S_RUN, S_STOP, S_CLOSE, S_COUNT, C_ATTACH, C_DETACH, C_CLOSE, C_DEL});
        o.nclients = 1; o.depth = th ? 8 : 7; add<int, RowMajor>(v, "histories, 1 client", o);
        o.up = true; o.depth = th ? 7 : 6; add<double, ColMajor>(v, "histories from a running pair", o);
        o.nclients = 2; o.depth = th ? 6 : 5; add<bool, RowMajor>(v, "histories with 2 clients", o);
        o.nclients = 1; o.ops |= mask({S_WRITE, S_READ, C_WRITE, C_READ, S_ACQ, S_REL, C_ACQ, C_REL}); o.depth = th ? 6 : 5; add<float, RowMajor>(v, "histories with data and locks", o);
        for (int f : {0, 1}) v.push_back(errors(std::string("refusals and contenders, first ") + (f ? "B" : "A"), th ? 8 : 6, f));
        v.push_back(strings("string list histories", th ? 9 : 7));
        v.push_back(faulty("a producer's start fails", false, th ? 2 : 1)); v.push_back(faulty("a consumer's start fails", true, th ? 2 : 1));
        v.push_back(prodcons("producer and consumer histories", th ? 9 : 7));
        v.push_back(conc("server closes while a client arrives", "c", {"a"}, th ? -1 : 5, true));
        v.push_back(conc("server closes while a client leaves", "c", {"Ac"}, -1, true));
        v.push_back(conc("server is destroyed while a client is destroyed", "x", {"Ax"}, -1, true));
        v.push_back(conc("server lives while a client comes and goes", "nrqx", {"ax"}, th ? 4 : 3, false));
        v.push_back(conc("server is re-created while a client comes and goes", "xnr", {"adc"}, th ? 4 : 2, true));
        v.push_back(conc("server pauses while a client comes and goes", "srx", {"Ada"}, th ? 4 : 3, true));
        v.push_back(conc("two clients, one refused, come and go while the server closes", "c", {"Aw", "a", "a"}, th ? 2 : 1, true));
    };
    return R;
}
