// C07: a server can always be brought back after a crash by forcing reconnection.
// One (or two) participants are killed at every point of every listed operation.
#include "common.hpp"
#include "anyc.hpp"
#include <EigenIPC/StringTensor.hpp>
#include <EigenIPC/MemDefs.hpp>
using namespace vmc;
namespace {
struct St {
    AnyServer* s[4] = {}; AnyClient* c[4] = {};
    int idle = 0; bool is_idle[8] = {}; int phase = 0; bool recovered = false; int rk = 0, rr = 0, rc = 0;
};
std::shared_ptr<St> st;
struct Vic { bool server; std::string pre, prog; };
// server: n new, f new(force), r run, s stop, c close, d destroy, w write, R read, q count, L lock, U unlock
// client: a attach, A attach (expects a server), w write, r read, L lock, U unlock, d detach, c close, x destroy and create
void exec(int i, bool srv, int kind, char o) {
    auto& S = *st; const char* n = "t"; const char* ns = "ns";
    if (srv) switch (o) {
        case 'n': case 'f': S.s[i] = make_server(kind, 2, 2, n, ns, o == 'f'); break;
        case 'r': S.s[i]->run(); break; case 's': S.s[i]->stop(); break; case 'c': S.s[i]->close(); break;
        case 'd': delete S.s[i]; S.s[i] = nullptr; break;
        case 'w': S.s[i]->put(7); break; case 'R': S.s[i]->is(7); break; case 'q': S.s[i]->count(); break;
        case 'L': S.s[i]->acquire(); break; case 'U': S.s[i]->release(); break;
    } else switch (o) {
        case 'a': case 'A': S.c[i]->attach(); break; case 'd': S.c[i]->detach(); break; case 'c': S.c[i]->close(); break;
        case 'w': S.c[i]->put(8); break; case 'r': S.c[i]->is(8); break; case 'L': S.c[i]->acquire(); break; case 'U': S.c[i]->release(); break;
        case 'x': delete S.c[i]; S.c[i] = make_client(kind, n, ns); break;
    }
}
// the forced server is functional and fresh; `joined` clients of it exist already
void check_fresh(AnyServer* s, int kind, int r, int c, bool zero, int joined) {
    if (!s->running()) fail("the new server is not running after run()");
    int n = s->count(); if (n != joined) fail("the new server counts %d clients, %d are attached", n, joined);
    long esz = kind < 2 ? 4 : kind < 4 ? 8 : kind < 6 ? 4 : 1;
    if (shm_size("/nst") != esz * r * c) fail("the memory of the new server has %ld bytes, not %ld", shm_size("/nst"), esz * r * c);
    if (zero) { if (s->is(0) == 0) fail("the lock of the new server is not free"); if (s->is(0) != 1) fail("the new server does not start with zeros"); }
    AnyClient* k = make_client(kind, "t", "ns"); k->attach();
    if (k->rows() != r || k->cols() != c) fail("a new client reports %dx%d, the new server is %dx%d", k->rows(), k->cols(), r, c);
    if (zero && !k->is(0)) fail("a new client does not read zeros");
    n = s->count(); if (n != joined + 1) fail("the new server counts %d clients, %d are attached", n, joined + 1);
    if (!k->put(3)) fail("a write of a new client is refused"); if (s->is(3) != 1) fail("the new server does not read what a new client wrote");
    if (!s->put(5)) fail("a write of the new server is refused"); if (!k->is(5)) fail("a new client does not read what the new server wrote");
    s->acquire(); if (k->is(5)) fail("the lock is not exclusive after recovery"); s->release();
    k->acquire(); if (s->is(5) != 0) fail("the lock is not exclusive after recovery"); k->release();
    k->detach(); n = s->count(); if (n != joined) fail("the new server counts %d clients, %d are attached", n, joined);
    delete k;
}
Scenario mk(const std::string& name, int kind, std::vector<Vic> vic, int preempt, int rkind, int rr, int rc, int crashes = 1, int joiner = 0, u64 vmask = ~0ull) {
    Scenario s; s.name = name; s.bounds.preempt = preempt; s.bounds.crash = crashes; s.bounds.max_steps = 60000; int nv = vic.size();
    s.bounds.crash_mask = ((1ull << nv) - 1) & vmask; if (crashes > 1) s.bounds.crash_mask |= 1ull << nv;
    bool second = crashes > 1; int r2 = nv + 1, jo = nv + 1 + second;
    s.build = [=] {
        st = std::make_shared<St>();
        auto quiet = [=] { for (int i = 0; i < nv; ++i) if (!(status(i) != READY || st->is_idle[i] || is_blocked(i))) return false; return true; };
        for (int i = 0; i < nv; ++i) spawn((vic[i].server ? "server" : "client") + std::to_string(i), [=] {
            auto& S = *st;
            block_until([=] { return st->idle >= i || crashes_injected(); }, "turn");
            if (crashes_injected()) return;
            try {
            { Atomic a; if (!vic[i].server) S.c[i] = make_client(kind, "t", "ns"); for (char o : vic[i].pre) exec(i, vic[i].server, kind, o); }
            ++S.idle;
            block_until([=] { return st->idle >= nv || crashes_injected(); }, "set up");
            if (!crashes_injected()) for (char o : vic[i].prog) exec(i, vic[i].server, kind, o);
            } catch (std::exception& e) { if (!crashes_injected()) fail("an operation fails although nobody was killed: %s", e.what()); }
            S.is_idle[i] = true;
            block_until([=] { return st->phase >= 2; }, "recovery");
            // nobody is killed after the last recovery
            { Atomic a; delete S.s[i]; S.s[i] = nullptr; if (second) { delete S.c[i]; S.c[i] = nullptr; } }
            delete S.c[i]; S.c[i] = nullptr;
        });
        auto recover = [=](bool atomic, bool with_joiner) {
            auto& S = *st;
            { std::unique_ptr<Atomic> a; if (atomic) a.reset(new Atomic());
              AnyServer* q = make_server(rkind, rr, rc, "t", "ns", true); S.s[3] = q; S.rk = rkind; S.rr = rr; S.rc = rc;
              S.phase = 1; q->run(); }
            S.recovered = true; event(0x55);
            if (with_joiner) block_until([=] { return st->is_idle[jo] || is_blocked(jo); }, "joiner tried");
            int joined = with_joiner && S.c[3] && S.c[3]->attached() && S.is_idle[jo] && S.idle == 100;
            { Atomic a; check_fresh(S.s[3], rkind, rr, rc, true, joined); }
            S.phase = 2; event(0x56);
            block_until([=] { for (int i = 0; i < nv; ++i) if (status(i) == READY && !is_blocked(i)) return false; return true; }, "survivors leave");
            { Atomic a; check_fresh(S.s[3], rkind, rr, rc, false, joined); S.phase = 3; }
            if (with_joiner) block_until([=] { return status(jo) != READY || is_blocked(jo); }, "joiner leaves");
            { Atomic a; delete S.s[3]; S.s[3] = nullptr;
              for (auto& n : list_names()) if (n.find(MemDef::isSrvrRunningName()) == std::string::npos) fail("after the new server was closed the name %s still exists", n.c_str()); }
        };
        spawn("recovery", [=] {
            block_until([=] { return st->idle >= nv || crashes_injected(); }, "set up");
            block_until(quiet, "crash");
            if (!crashes_injected()) { st->phase = 2; return; }
            outcome(1);
            recover(!second && !joiner, joiner);
        });
        if (second) spawn("second recovery", [=] {
            block_until([=] { return status(nv) != READY; }, "first recovery over");
            if (status(nv) == CRASHED) { st->phase = 0; st->recovered = false; outcome(2); recover(true, false); }
        });
        if (joiner) spawn("joiner", [=] {
            auto& S = *st;
            block_until([=] { return crashes_injected() || st->phase >= 2; }, "crash");
            if (!crashes_injected()) { S.is_idle[jo] = true; return; }
            S.c[3] = make_client(rkind, "t", "ns");
            for (int k = 0; ; ++k) {
                bool after = S.recovered;
                try { event(0x60 + after); S.c[3]->attach(); event(0x61); break; }
                catch (std::exception& e) { if (after) fail("a client which arrives after the recovery is refused: %s", e.what()); if (k > 2) fail("attach() fails again and again"); }
                block_until([=] { return st->recovered; }, "recovery");
            }
            // did it join the new server or still the dead one?
            int r = S.c[3]->rows(), c = S.c[3]->cols();
            if (!((r == 2 && c == 2) || (r == rr && c == rc))) fail("a client joining during the recovery reports %dx%d, which no server ever had", r, c);
            block_until([=] { return st->recovered; }, "recovery");
            { Atomic a; int n = -1; shm_bytes_of(std::string("/nst_") + MemDef::ClientsCountName(), 0, &n, 4);
              if (n == 1) { S.idle = 100; if (r != rr || c != rc) fail("a client counted by the new server reports %dx%d, the server is %dx%d", r, c, rr, rc); if (!S.c[3]->is(0)) fail("a client joining during the recovery does not read zeros"); }
              else if (n != 0) fail("the counter of the new server is %d", n); }
            S.is_idle[jo] = true;
            block_until([=] { return st->phase >= 3; }, "checked");
            { Atomic a; delete S.c[3]; S.c[3] = nullptr; }
        });
    };
    s.stuck = [=]() -> std::string { return st->phase >= 3 || (st->phase == 2 && status(nv) == DONE) || (second && status(nv + 1) == DONE) ? "" : "recovery is blocked"; };
    s.finish = [=] { outcome(st->phase * 10 + crashes_injected()); st.reset(); };
    return s;
}
// a string list is brought back as well
Scenario strs(const std::string& name, const std::string& prog) {
    Scenario s; s.name = name; s.bounds.preempt = 0; s.bounds.crash = 1; s.bounds.crash_mask = 1; s.bounds.max_steps = 400000;
    using SS = StringTensor<StrServer>; using SC = StringTensor<StrClient>;
    struct X { Own<SS> s, r; Own<SC> c; };
    static std::shared_ptr<X> x;
    s.build = [=] {
        x = std::make_shared<X>();
        spawn("server", [=] {
            for (char o : prog) switch (o) {
                case 'n': x->s.reset(new SS(2, "t", "ns", false, VL::V0, false, true)); break;
                case 'r': x->s->run(); break;
                case 'w': { Atomic a; x->s->write(std::string("old content of this list"), 1); break; }
                case 'c': x->s->close(); break;
            }
        });
        spawn("recovery", [=] {
            block_until([] { return status(0) != READY; }, "crash");
            if (!crashes_injected()) { return; }
            Atomic a; outcome(1);
            x->r.reset(new SS(3, "t", "ns", false, VL::V0, true, true)); x->r->run();
            x->c.reset(new SC("t", "ns", false, VL::V0, true)); x->c->run();
            if (x->c->getLength() != 3) fail("a new client sees %d strings, the new list has 3", x->c->getLength());
            std::string q;
            for (int i = 0; i < 3; ++i) { q = "?"; if (!x->c->read(q, i)) fail("a read of the new list is refused"); if (!q.empty()) fail("the new list does not start empty"); }
            if (!x->c->write(std::string("new"), 2)) fail("a write to the new list is refused");
            if (!x->r->read(q, 2) || q != "new") fail("the new list does not return what was written");
            if (x->r->getNClients() != 1) fail("the new list counts %d clients instead of 1", x->r->getNClients());
            x->c.reset(); x->r.reset();
        });
    };
    s.finish = [] { x.reset(); };
    return s;
}
}
Registry vmc::registry() {
    Registry R;
    R.scenarios = [](bool th, std::vector<Scenario>& v) {
        Vic sv{true, "", "nrwqsrRLUsc"};
        v.push_back(mk("server killed during its life, same shape", 4, {{true, "", "nrwqsrRLUsc"}}, 0, 4, 2, 2));
        v.push_back(mk("server killed during its life, other type and shape", 4, {{true, "", "nrwLUd"}}, 0, 3, 3, 1));
        v.push_back(mk("forced server killed during its life", 6, {{true, "nrwd", "frwsrd"}}, 0, 6, 1, 3));
        v.push_back(mk("client killed during its life, server lives on", 4, {{true, "nrw", ""}, {false, "", "awrLUdaxac"}}, 0, 4, 2, 2));
        v.push_back(mk("client killed, other shape", 2, {{true, "nrw", ""}, {false, "a", "wdawx"}}, 0, 5, 1, 1));
        v.push_back(mk("server killed with an attached client living on", 4, {{true, "nrw", "wqsrLUc"}, {false, "a", ""}}, 0, 4, 2, 2));
        v.push_back(mk("server and client at work, one killed", 4, {{true, "nr", "wq"}, {false, "a", "wr"}}, th ? -1 : 3, 4, 2, 2));
        v.push_back(mk("server and arriving client, one killed", 4, {{true, "nr", "wq"}, {false, "", "awd"}}, th ? 4 : 2, 4, 1, 2));
        v.push_back(mk("start-up with an arriving client, one killed", 4, {{true, "", "nrw"}, {false, "", "a"}}, th ? 4 : 2, 4, 1, 2));
        v.push_back(mk("start-up with an arriving client, one killed, after an earlier server", 5, {{true, "nrwd", "nr"}, {false, "", "aw"}}, th ? 3 : 2, 4, 2, 2));
        v.push_back(mk("manual locks, one killed", 4, {{true, "nr", "LUw"}, {false, "a", "LUw"}}, th ? -1 : 3, 4, 2, 2));
        v.push_back(mk("server closing with a client, one killed", 4, {{true, "nrw", "c"}, {false, "a", "wdc"}}, th ? -1 : 3, 4, 2, 1));
        v.push_back(mk("two clients at work, one killed", 4, {{true, "nr", ""}, {false, "a", "wd"}, {false, "a", "rd"}}, th ? 4 : 2, 4, 2, 2));
        v.push_back(mk("server killed, recovery killed, second recovery", 4, {{true, "", "nrwsc"}}, 0, 4, 2, 3, 2));
        v.push_back(mk("client killed, recovery killed, second recovery", 4, {{true, "nr", ""}, {false, "a", "wLUd"}}, 0, 0, 1, 2, 2));
        v.push_back(mk("a client joins during the recovery, same shape", 4, {{true, "n", "rwsc"}}, th ? 3 : 2, 4, 2, 2, 1, 1));
        v.push_back(mk("a client joins during the recovery, other shape of the same size", 4, {{true, "nr", "w"}}, th ? 4 : 3, 4, 1, 4, 1, 1));
        v.push_back(mk("a client joins during the recovery, other shape", 0, {{true, "nr", "w"}}, th ? 4 : 3, 0, 3, 1, 1, 1));
        v.push_back(strs("string list server killed", "nrwwc"));
    };
    return R;
}
