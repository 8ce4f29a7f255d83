// Programs of lock users on one shared tensor: manual critical sections, safe reads and writes,
// attach/detach, client-count queries, stop and start.  Used by C02 and C15.
#pragma once
#include "common.hpp"
using namespace vmc;

namespace locks {
// program letters: w/r safe write/read; h manual critical section; n client count; d detach and attach
// again; s stop and start again; t try to read until it works (bounded by need)
struct Iv { int proc; char kind; u64 call, ret; bool ok; };
template <class T, int L> struct St {
    Own<Server<T, L>> srv; Own<Client<T, L>> cl[4], peek[4];
    std::vector<Iv> iv; int ready = 0, done = 0; bool up = false, over = false; int inside = -1; int nclients = 0;
    bool intr = false;         // signals are injected: calls may raise
    int interrupted = 0, torn = 0;
};

template <class T, int L, class Peer>
void run_prog(St<T, L>& S, int me, Peer& p, const std::string& prog) {
    auto mark = [&](int k, bool start) { event((start ? 0x1000 : 0x2000) + k * 16 + me); return now_seq(); };
    for (char op : prog) {
        size_t k = S.iv.size(); S.iv.push_back({me, op, 0, 0, false});
        try {
            switch (op) {
            case 'w': case 'r': {
                Tensor<T, L> t(2, 2); t.setConstant(T(me * 8 + 1 + (int)k));
                if (std::is_same<T, bool>::value) t.setConstant(T(me & 1));
                TRef<T, L> ref(t);
                S.iv[k].call = mark(k, true);
                bool ok = op == 'w' ? p.write(ref, 0, 0) : p.read(ref, 0, 0);
                S.iv[k].ret = mark(k, false); S.iv[k].ok = ok;
                if (ok && op == 'r') for (int i = 1; i < 4; ++i) if (t(i / 2, i % 2) != t(0, 0)) fail("a safe read returns a mixture of two writes");
                break; }
            case 'h': {
                p.dataSemAcquire();                       // an interruption raises here: not inside
                S.iv[k].call = mark(k, true);
                if (S.inside >= 0) fail("participants %d and %d are inside the data lock at the same time", S.inside, me);
                S.inside = me;
                Tensor<T, L> a(2, 2), b(2, 2);
                { Atomic z; TRef<T, L> r(a); if (!S.peek[me]->read(r, 0, 0)) fail("peek refused"); }
                point("inside the critical section");
                point("still inside the critical section");
                { Atomic z; TRef<T, L> r(b); S.peek[me]->read(r, 0, 0); }
                if (a != b) fail("the shared data changed while participant %d held the lock", me);
                S.inside = -1;
                S.iv[k].ret = mark(k, false); S.iv[k].ok = true;
                p.dataSemRelease();
                break; }
            case 'n':
                if constexpr (std::is_same<Peer, Server<T, L>>::value) { S.iv[k].call = mark(k, true); int n = p.getNClients(); S.iv[k].ret = mark(k, false); S.iv[k].ok = true;
                    if (n < 0 || n > 2 * S.nclients + 1) fail("absurd client count %d", n); }
                break;
            case 'd':
                if constexpr (std::is_same<Peer, Client<T, L>>::value) {
                    S.iv[k].call = mark(k, true); p.detach(); S.iv[k].ret = mark(k, false); S.iv[k].ok = true;
                    if (p.isAttached()) fail("attached after detach()");
                    size_t q = S.iv.size(); S.iv.push_back({me, 'a', 0, 0, false});
                    S.iv[q].call = mark(q, true); p.attach(); S.iv[q].ret = mark(q, false); S.iv[q].ok = true;
                    if (!p.isAttached()) fail("not attached after attach()");
                }
                break;
            case 's':
                if constexpr (std::is_same<Peer, Server<T, L>>::value) { p.stop(); p.run(); if (!p.isRunning()) fail("not running after run()"); }
                break;
            }
        } catch (std::exception& e) {
            if (!S.intr || eintrs_injected() == 0) fail("participant %d: operation %c fails: %s", me, op, e.what());
            ++S.interrupted; S.iv[k].ret = mark(k, false); S.iv[k].ok = false;
        }
    }
}
template <class T, int L> void check_intervals(St<T, L>& S) {
    for (auto& h : S.iv) if (h.kind == 'h' && h.ok)
        for (auto& o : S.iv) if (o.proc != h.proc && o.ok && h.call < o.call && o.ret < h.ret && o.kind != 's')
            fail("operation %c of participant %d completed while participant %d held the data lock", o.kind, o.proc, h.proc);
}
// the lock ends up free and single: executed alone, after everybody is done
template <class T, int L> void probe(St<T, L>& S, int nclients) {
    Tensor<T, L> t(2, 2); TRef<T, L> r(t);
    auto any_attached = [&] { for (int i = 1; i <= nclients; ++i) if (S.cl[i] && S.cl[i]->isAttached()) return i; return 0; };
    if (!S.srv->read(r, 0, 0)) fail("the lock is not free although everybody is done");
    S.srv->dataSemAcquire();
    int a = any_attached();
    (void)a;
    if (S.peek[0] && S.peek[0]->read(r, 0, 0) == false) fail("peek refused");
    Own<Client<T, L>> q; (void)q;
    // a second acquisition must not be possible now: use the server's own one-shot acquisition
    if (S.srv->write(r, 0, 0)) fail("the lock can be taken twice");
    S.srv->dataSemRelease();
    if (!S.srv->read(r, 0, 0)) fail("the lock is not free after acquire and release");
}

template <class T, int L>
Scenario mk(const std::string& name, std::vector<std::string> progs, int preempt, int eintr = 0, bool late = false) {
    Scenario s; s.name = name; s.bounds.preempt = preempt; s.bounds.eintr = eintr; s.bounds.max_steps = 60000;
    static std::shared_ptr<St<T, L>> st;
    int np = progs.size();
    s.build = [=] {
        st = std::make_shared<St<T, L>>(); st->intr = eintr > 0; st->nclients = np;
        auto peeker = [](int me) { st->peek[me].reset(new Client<T, L>("t", "ns", false, VL::V0, false)); st->peek[me]->attach(); };
        spawn("server", [=] {
            auto& S = *st;
            { Atomic a; S.srv.reset(new Server<T, L>(2, 2, "t", "ns", false, VL::V0, false, true)); S.srv->run(); S.up = true;
              if (progs[0].find('h') != std::string::npos) peeker(0); ++S.ready; }
            block_until([=] { return st->ready == np; }, "everyone ready");
            run_prog<T, L>(S, 0, *S.srv, progs[0]);
            ++S.done;
            block_until([=] { return st->done == np; }, "everyone done");
            { Atomic a; probe<T, L>(S, np - 1); S.over = true; }
            block_until([=] { for (int i = 1; i < np; ++i) if (status(i) != DONE) return false; return true; }, "clients gone");
            { Atomic a; S.peek[0].reset();
              int n = S.srv->getNClients(); if (n != 0 && eintrs_injected() == 0 && !S.torn) fail("client count is %d after everybody left", n);
              Tensor<T, L> t(2, 2); TRef<T, L> r(t); if (!S.srv->read(r, 0, 0)) fail("the lock is not free although everybody is gone");
              S.srv.reset(); }
        });
        for (int i = 1; i < np; ++i) spawn("client" + std::to_string(i), [=] {
            auto& S = *st;
            block_until([] { return st->up; }, "server up");
            { Atomic a; S.cl[i].reset(new Client<T, L>("t", "ns", false, VL::V0, true)); if (!late) S.cl[i]->attach();
              if (progs[i].find('h') != std::string::npos) peeker(i); ++S.ready; }
            block_until([=] { return st->ready == np; }, "everyone ready");
            if (late) {                                    // arrival is part of the program
                for (int tries = 0;; ++tries) {
                    size_t q = S.iv.size(); S.iv.push_back({i, 'a', 0, 0, false});
                    event(0x5000 + q); S.iv[q].call = now_seq();
                    try { S.cl[i]->attach(); event(0x6000 + q); S.iv[q].ret = now_seq(); S.iv[q].ok = true; break; }
                    catch (std::exception& e) {
                        if (!S.intr || eintrs_injected() == 0 || tries > 2) fail("attach fails: %s", e.what());
                        ++S.interrupted; event(0x7000 + q); S.iv[q].ret = now_seq();
                    }
                }
                if (!S.cl[i]->isAttached()) fail("attach() returned but the client is not attached");
            }
            run_prog<T, L>(S, i, *S.cl[i], progs[i]);
            ++S.done;
            block_until([] { return st->over; }, "end");
            if (late) { S.peek[i].reset(); S.cl[i].reset(); }    // departure under exploration too
            else { Atomic a; S.peek[i].reset(); S.cl[i].reset(); }
        });
    };
    s.finish = [=] {
        auto& S = *st; check_intervals<T, L>(S);
        u64 o = 0; for (auto& i : S.iv) o = o * 7 + i.ok * 3 + i.kind; outcome(o * 64 + S.interrupted);
        st.reset();
    };
    return s;
}
// several threads of one process use one object (the server's, or a client's); a participant of another process uses the lock as well
template <class T, int L>
Scenario threads(const std::string& name, bool server, std::vector<std::string> progs, const std::string& peer, int preempt, bool members = false) {
    Scenario s; s.name = name; s.bounds.preempt = preempt; s.bounds.max_steps = 60000; s.bounds.cache = false;
    static std::shared_ptr<St<T, L>> st;
    int nt = progs.size(), other = nt;          // thread 0 creates the object; the peer comes last
    s.build = [=] {
        st = std::make_shared<St<T, L>>(); st->nclients = 2;
        auto peeker = [](int me) { st->peek[me].reset(new Client<T, L>("t", "ns", false, VL::V0, false)); st->peek[me]->attach(); };
        auto is_srv = [=](int i) { return (i == other) != server; };
        auto create = [=](int i) { auto& S = *st; Atomic a;
            if (is_srv(i)) { S.srv.reset(new Server<T, L>(2, 2, "t", "ns", false, VL::V0, false, true)); S.srv->run(); S.up = true; if (members && server) watch(S.srv.p, sizeof *S.srv.p); }
            else { S.cl[1].reset(new Client<T, L>("t", "ns", false, VL::V0, true)); S.cl[1]->attach(); if (members && !server) watch(S.cl[1].p, sizeof *S.cl[1].p); } };
        auto work = [=](int i, const std::string& prog) { auto& S = *st;
            { Atomic a; if (prog.find('h') != std::string::npos) peeker(i); ++S.ready; }
            block_until([=] { return st->ready == nt + 1; }, "everyone ready");
            if (is_srv(i)) run_prog<T, L>(S, i, *S.srv, prog); else run_prog<T, L>(S, i, *S.cl[1], prog);
            { Atomic a; S.peek[i].reset(); ++S.done; }
            block_until([=] { return st->done == nt + 1; }, "everyone done");
            watch(nullptr, 0);
            if (i == 0 || i == other) {
                if (is_srv(i)) { { Atomic a; probe<T, L>(S, 1); S.over = true; }
                    block_until([=] { return !st->cl[1]; }, "client gone");
                    Atomic a; S.srv.reset(); }
                else { block_until([] { return st->over; }, "end"); Atomic a; S.cl[1].reset(); } } };
        for (int i = 0; i < nt; ++i) { auto body = [=] {
                if (i == 0) { if (!server) block_until([] { return st->up; }, "server up"); create(0); }
                else block_until([=] { return server ? st->up : bool(st->cl[1]); }, "object there");
                work(i, progs[i]); };
            if (i) spawn_thread("thread" + std::to_string(i), 0, body); else spawn(server ? "server's process" : "client's process", body); }
        spawn("peer", [=] { if (server) block_until([] { return st->up; }, "server up"); create(other); work(other, peer); });
    };
    s.finish = [=] {
        auto& S = *st; check_intervals<T, L>(S);
        u64 o = 0; for (auto& i : S.iv) o = o * 7 + i.ok * 3 + i.kind; outcome(o);
        st.reset();
    };
    return s;
}
} // namespace locks
