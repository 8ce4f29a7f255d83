// Histories of life cycle, data and lock calls on one server object and up to two client objects,
// executed on the real code and compared after every call with a reference state machine.
#pragma once
#include "common.hpp"
#include <EigenIPC/MemDefs.hpp>
using namespace vmc;

namespace life {
enum Op { S_NEW, S_DEL, S_RUN, S_STOP, S_CLOSE, S_WRITE, S_READ, S_COUNT, S_ACQ, S_REL,
          C_ATTACH, C_DETACH, C_CLOSE, C_DEL, C_WRITE, C_READ, C_ACQ, C_REL, S_NEWF, NOPS };
static const char* OPN[] = {"server.new", "server.destroy", "server.run", "server.stop", "server.close", "server.write", "server.read",
    "server.getNClients", "server.acquire", "server.release", "client.attach", "client.detach", "client.close", "client.destroy+new",
    "client.write", "client.read", "client.acquire", "client.release", "server.new(force)"};

struct Opts {
    int nclients = 1, depth = 5;
    u64 ops = 0;                 // allowed operations
    bool gates = false;          // refusals, queries and contents
    bool count = false;          // clients counter
    bool lock = false;           // lock conservation
    bool fds = false;            // descriptors and names
    bool up = false;             // start with a running server and attached clients
    int first = -1;              // restrict the first operation (splits the work)
    bool safe = true;
    int R = 2, C = 2;            // dimensions of the tensor
    bool loud = false;           // messages on
    bool forms = false;          // the call form alternates between references and views
};

struct Inc { std::vector<int> v; int clients = 0; int holder = -1; };   // one memory generation

template <class T, int L> struct H {
    Opts o;
    Own<Server<T, L>> s; Own<Client<T, L>> c[2];
    enum SS { NONE, NEW, RUN, STOP, CLOSED }; SS ss = NONE; int sinc = -1;
    enum CS { FRESH, ATT, DET, CCLOSED }; CS cs[2] = {FRESH, FRESH}; int cinc[2] = {-1, -1};
    std::vector<Inc> inc; std::string log; int step = 0; std::vector<int> appfd;

    T val(int x) const { return std::is_same<T, bool>::value ? T(x & 1) : T(x); }
    bool lock_free(int i) const { return inc[i].holder < 0; }
    [[noreturn]] void bad(const std::string& m) { fail("%s | history: %s", m.c_str(), log.c_str()); }

    template <class X> void describes(X& x, const std::string& who, bool dims) {
        if (x.getScalarType() != CppTypeToDType<T>::value || x.getMemLayout() != L) bad("the " + who + " misreports its element type or layout");
        if (x.getNamespace() != "s" || x.getBasename() != "n") bad("the " + who + " says it is called (" + x.getNamespace() + "," + x.getBasename() + ")");
        if (dims && (x.getNRows() != o.R || x.getNCols() != o.C)) bad("the " + who + " reports dimensions " + std::to_string(x.getNRows()) + "x" + std::to_string(x.getNCols()));
    }
    struct Choice { int op, cl; };
    void enabled(std::vector<Choice>& v) {
        auto add = [&](int op, int cl = -1) { if (o.ops >> op & 1) v.push_back({op, cl}); };
        bool sfree = sinc >= 0 && lock_free(sinc);
        bool shold = sinc >= 0 && inc[sinc].holder == 2;
        if (ss == NONE) { add(S_NEW); add(S_NEWF); }
        else {
            if (!shold) { add(S_DEL); add(S_CLOSE); add(S_STOP); }
            if (!shold || ss == STOP) add(S_RUN);
            add(S_WRITE); add(S_READ);
            if (ss == NEW || ss == CLOSED || sfree) add(S_COUNT);
            if ((ss == RUN || ss == STOP) && sfree) add(S_ACQ);
            if ((ss == RUN || ss == STOP) && shold) add(S_REL);
        }
        for (int k = 0; k < o.nclients; ++k) {
            bool has = cs[k] == ATT || cs[k] == DET;
            bool hold = has && inc[cinc[k]].holder == k;
            bool cfree = has && lock_free(cinc[k]);
            if (cs[k] == ATT || (ss == RUN && sfree && !hold)) add(C_ATTACH, k);
            if (cs[k] != ATT || cfree) { if (!hold) { add(C_DETACH, k); add(C_CLOSE, k); add(C_DEL, k); } }
            add(C_WRITE, k); add(C_READ, k);
            if (has && cfree) add(C_ACQ, k);
            if (hold) add(C_REL, k);
        }
    }
    Tensor<T, L> full(int base) { Tensor<T, L> t(o.R, o.C); for (int i = 0; i < o.R * o.C; ++i) t(i / o.C, i % o.C) = val(base + i * (std::is_same<T, bool>::value ? base : 1)); return t; }

    void expect_data(const char* who, const Tensor<T, L>& t, int i) {
        for (int k = 0; k < o.R * o.C; ++k) if (t(k / o.C, k % o.C) != val(inc[i].v[k]))
            bad(std::string(who) + " reads " + std::to_string((double)t(k / o.C, k % o.C)) + " at element " + std::to_string(k) + ", expected " + std::to_string(inc[i].v[k]));
    }
    void data_op(bool srv, int k, bool wr) {
        std::string who = srv ? "server" : "client" + std::to_string(k);
        bool active = srv ? ss == RUN : cs[k] == ATT;
        int i = srv ? sinc : cinc[k];
        bool own = i >= 0 && inc[i].holder == (srv ? 2 : k);
        bool want = active && (!o.safe || lock_free(i));
        bool any = active && own;               // access while holding the lock oneself: either answer
        Tensor<T, L> t = full(wr ? 10 * step + 1 : 77);
        if (!wr) t.setConstant(val(77));
        Tensor<T, L> before = t;
        TRef<T, L> ref(t);
        auto view = helpers::createViewFrom<T, L>(t, 0, 0, o.R, o.C);
        bool ok = o.forms && step % 2 ? srv ? (wr ? s->write(view, 0, 0) : s->read(view, 0, 0)) : (wr ? c[k]->write(view, 0, 0) : c[k]->read(view, 0, 0))
                : srv ? (wr ? s->write(ref, 0, 0) : s->read(ref, 0, 0)) : (wr ? c[k]->write(ref, 0, 0) : c[k]->read(ref, 0, 0));
        if (!any && ok != want) {
            if (o.gates || o.lock) bad(who + (wr ? ".write" : ".read") + (ok ? " succeeds although it must be refused" : " is refused although nothing prevents it"));
        }
        if (ok && wr && active) for (int q = 0; q < o.R * o.C; ++q) inc[i].v[q] = (int)t(q / o.C, q % o.C);
        if (ok && !wr && active && (o.gates || o.lock)) expect_data(who.c_str(), t, i);
        if (!ok && t != before && o.gates) bad(who + ": a refused call changed the caller's buffer");
    }
    void run_op(int op, int k) {
        ++step;
        log += (log.empty() ? "" : "; ") + std::string(OPN[op]) + (k >= 0 ? std::to_string(k) : "");
        note("%s%s", OPN[op], k >= 0 ? std::to_string(k).c_str() : "");
        bool threw = false, may = false, must = false; std::string what;
        try {
            switch (op) {
            case S_NEW: case S_NEWF:
                s.reset(new Server<T, L>(o.R, o.C, "n", "s", o.loud, o.loud ? VL::V3 : VL::V0, op == S_NEWF, o.safe));
                inc.emplace_back(); inc.back().v.assign(o.R * o.C, 0); sinc = inc.size() - 1; ss = NEW; break;
            case S_DEL: ss = NONE; s.reset(); break;
            case S_RUN:
                if (ss == CLOSED) { must = true; s->run(); } else { s->run(); ss = RUN; }
                break;
            case S_STOP: s->stop(); if (ss == RUN) ss = STOP; break;
            case S_CLOSE: s->close(); ss = CLOSED; break;
            case S_WRITE: data_op(true, -1, true); break;
            case S_READ: data_op(true, -1, false); break;
            case S_COUNT: {
                if (ss == CLOSED) may = true;
                int n = s->getNClients();
                if (ss != CLOSED && (o.count || o.gates) && n != inc[sinc].clients) bad("getNClients() is " + std::to_string(n) + " with " + std::to_string(inc[sinc].clients) + " clients attached");
                break; }
            case S_ACQ: s->dataSemAcquire(); inc[sinc].holder = 2; break;
            case S_REL: inc[sinc].holder = -1; s->dataSemRelease(); break;
            case C_ATTACH: {
                bool was = cs[k] == ATT;
                c[k]->attach();
                if (!was) { cs[k] = ATT; cinc[k] = sinc; ++inc[sinc].clients; }
                if (o.gates && (c[k]->getNRows() != o.R || c[k]->getNCols() != o.C)) bad("attached client reports dimensions " + std::to_string(c[k]->getNRows()) + "x" + std::to_string(c[k]->getNCols()));
                break; }
            case C_DETACH: c[k]->detach(); if (cs[k] == ATT) { --inc[cinc[k]].clients; cs[k] = DET; } break;
            case C_CLOSE: c[k]->close(); if (cs[k] == ATT) --inc[cinc[k]].clients; cs[k] = cs[k] == FRESH ? FRESH : CCLOSED; break;
            case C_DEL: c[k].reset(); if (cs[k] == ATT) --inc[cinc[k]].clients; cs[k] = FRESH; c[k].reset(new Client<T, L>("n", "s", o.loud, o.loud ? VL::V3 : VL::V0, o.safe)); break;
            case C_WRITE: data_op(false, k, true); break;
            case C_READ: data_op(false, k, false); break;
            case C_ACQ: c[k]->dataSemAcquire(); inc[cinc[k]].holder = k; break;
            case C_REL: inc[cinc[k]].holder = -1; c[k]->dataSemRelease(); break;
            }
        } catch (std::exception& e) { threw = true; what = e.what(); }
        if (threw && !may && !must) bad(std::string(OPN[op]) + " fails: " + what);
        if (!threw && must && o.gates) bad(std::string(OPN[op]) + " of a closed object appears to succeed");
        if (o.gates) {
            if (s && s->isRunning() != (ss == RUN)) bad(std::string("isRunning() is ") + (s->isRunning() ? "true" : "false") + " in the wrong state");
            for (int q = 0; q < o.nclients; ++q) if (c[q]->isAttached() != (cs[q] == ATT)) bad("isAttached() of client " + std::to_string(q) + " is wrong");
            if (s) describes(*s, "server", true);
            for (int q = 0; q < o.nclients; ++q) describes(*c[q], "client", cs[q] == ATT);
        }
        if (o.fds) {
            appfd.push_back(app_open(self()));
            for (int f : appfd) if (!app_intact(self(), f)) bad("a descriptor of the application was closed");
            if (bad_closes(self())) bad("a descriptor or semaphore was closed twice");
            if (ss == NONE || ss == CLOSED) {
                names_gone();
                bool all = true; for (int q = 0; q < o.nclients; ++q) if (cs[q] == ATT || cs[q] == DET) all = false;
                if (all && open_maps(self())) bad(std::to_string(open_maps(self())) + " pieces of shared memory are still mapped after everything was closed");
                if (all && (open_fds(self()) || open_sems(self()))) bad(std::to_string(open_fds(self())) + " descriptors and " + std::to_string(open_sems(self())) + " semaphores are still open after everything was closed");
            }
        }
    }
    void names_gone() {
        for (auto& n : list_names()) if (n.find(MemDef::isSrvrRunningName()) == std::string::npos)
            bad("after the server was closed the name " + n + " still exists");
    }
    // the lock works: free where it should be, and single
    void probe_lock() {
        if (ss != RUN && ss != STOP) return;
        int att = -1; for (int k = 0; k < o.nclients; ++k) if (cs[k] == ATT && cinc[k] == sinc) att = k;
        Tensor<T, L> t(o.R, o.C); TRef<T, L> r(t);
        if (lock_free(sinc)) {
            if (ss == RUN && !s->read(r, 0, 0)) bad("the lock is not free although nobody holds it");
            s->dataSemAcquire();           // must not block (a deadlock is reported otherwise)
            if (att >= 0 && c[att]->read(r, 0, 0)) bad("a client reads while the server holds the lock");
            s->dataSemRelease();
            if (att >= 0) {
                if (!c[att]->read(r, 0, 0)) bad("the lock is not free although nobody holds it");
                c[att]->dataSemAcquire();
                if (ss == RUN && s->read(r, 0, 0)) bad("the server reads while a client holds the lock");
                c[att]->dataSemRelease();
            }
        } else {
            int h = inc[sinc].holder;
            for (int k = 0; k < o.nclients; ++k) if (k != h && cs[k] == ATT && cinc[k] == sinc && c[k]->read(r, 0, 0)) bad("a client reads while somebody else holds the lock");
            if (h != 2 && ss == RUN && s->read(r, 0, 0)) bad("the server reads while a client holds the lock");
        }
    }
    void go() {
        for (int k = 0; k < o.nclients; ++k) c[k].reset(new Client<T, L>("n", "s", o.loud, o.loud ? VL::V3 : VL::V0, o.safe));
        if (o.up) { run_op(S_NEW, -1); run_op(S_RUN, -1); run_op(S_WRITE, -1); for (int k = 0; k < o.nclients; ++k) run_op(C_ATTACH, k); }
        for (int d = 0; d < o.depth; ++d) {
            std::vector<Choice> v; enabled(v);
            if (d == 0 && o.first >= 0) {
                std::vector<Choice> w; for (auto& x : v) if (x.op == o.first) w.push_back(x);
                if (w.empty()) break;
                v = w;
            }
            bool may_end = d > 0 || o.first <= 0;
            int n = v.size() + (may_end ? 1 : 0);
            int pick = choose(n, "next call");
            if (pick == (int)v.size()) break;
            run_op(v[pick].op, v[pick].cl);
        }
        if (o.lock) probe_lock();
        if (o.gates) for (int k = 0; k < o.nclients; ++k) if (cs[k] == ATT && lock_free(cinc[k])) data_op(false, k, false);
        if (o.count && s && ss != CLOSED && (ss == NEW || lock_free(sinc))) run_op(S_COUNT, -1);
        // the end: nobody keeps the lock, everything is destroyed
        for (int k = 0; k < o.nclients; ++k) if ((cs[k] == ATT || cs[k] == DET) && inc[cinc[k]].holder == k) run_op(C_REL, k);
        if (s && sinc >= 0 && inc[sinc].holder == 2 && (ss == RUN || ss == STOP)) run_op(S_REL, -1);
        for (int k = 0; k < o.nclients; ++k) if (cs[k] != ATT || lock_free(cinc[k])) c[k].reset();
        s.reset();
        if (o.fds) {
            bool all = true; for (int k = 0; k < o.nclients; ++k) if (c[k]) all = false;
            if (all && open_fds(self())) bad(std::to_string(open_fds(self())) + " descriptors are still open after everything was destroyed");
            if (all && open_sems(self())) bad(std::to_string(open_sems(self())) + " semaphores are still open after everything was destroyed");
            if (bad_closes(self())) bad("a descriptor or semaphore was closed twice");
            for (int f : appfd) if (!app_intact(self(), f)) bad("a descriptor of the application was closed");
            names_gone();
        }
        u64 h = 0; for (char ch : log) h = h * 131 + ch; outcome(h);
    }
};

template <class T, int L>
inline Scenario scenario(const std::string& name, Opts o) {
    Scenario s; s.name = name; s.bounds.cache = false; s.bounds.max_steps = 200000;
    s.build = [o] {
        spawn("caller", [o] { Atomic a; auto* h = new H<T, L>(); h->o = o; struct D { H<T, L>* p; ~D() { delete p; } } d{h}; h->go(); });
    };
    return s;
}
// one scenario per first operation
template <class T, int L>
inline void add(std::vector<Scenario>& v, const std::string& name, Opts o) {
    for (int f = 0; f < NOPS; ++f) if (o.ops >> f & 1) {
        if (!o.up && !(f == S_NEW || f == S_NEWF || f >= C_ATTACH)) continue;
        if (!o.up && f == C_ATTACH) continue;
        if (o.up && (f == S_NEW || f == S_NEWF)) continue;
        Opts p = o; p.first = f; v.push_back(scenario<T, L>(name + ", first " + OPN[f], p));
    }
}
inline u64 mask(std::initializer_list<int> l) { u64 m = 0; for (int x : l) m |= 1ull << x; return m; }
} // namespace life
