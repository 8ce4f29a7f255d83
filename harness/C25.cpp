// C25: named condition variables.  Every interleaving of participants which lock, wait (with and without a
// predicate, with and without timeout) and notify; life cycle histories; crashes followed by a forced one.
#include "common.hpp"
#include <EigenIPC/CondVar.hpp>
using namespace vmc;
using CV = ConditionVariable;
namespace {
struct St {
    Own<CV> v[5]; bool up = false, over = false; int joined = 0, done = 0;
    int inside = -1;                      // who has the lock
    int value = 0;                        // guarded by the lock
    bool waiting[5] = {}; u64 entered[5] = {}; int notified[5] = {}; int owe = 0;   // owe: waiters which must still return
    int need[5] = {}; bool pred[5] = {}, must[5] = {};
    int sets = 0, gone = 0;
};
std::shared_ptr<St> st;
void enter(int i) { auto& S = *st; if (S.inside >= 0) fail("P%d has the lock while P%d has it", i, S.inside); S.inside = i; event(0x100 + i); }
void leave(int i) { auto& S = *st; if (S.inside != i) fail("internal: lock monitor"); S.inside = -1; event(0x200 + i); }
bool expired(int i) { return timeout_seq(i) >= st->entered[i]; }
std::vector<int> asleep() { std::vector<int> w; for (int i = 0; i < 5; ++i) if (st->waiting[i] && !expired(i)) w.push_back(i); return w; }
void back(int i) { auto& S = *st; if (S.inside >= 0) fail("the wait of P%d returns while P%d has the lock", i, S.inside); S.inside = i; S.waiting[i] = false; if (S.owe > 0) --S.owe; event(0x300 + i); }
void start_wait(int i, bool pred, int need) {
    auto& S = *st; leave(i); S.waiting[i] = true; S.entered[i] = now_seq(); S.notified[i] = 0; S.must[i] = false; S.pred[i] = pred; S.need[i] = need;
}
// one participant's program: l lock and unlock; w wait; q timed wait; p wait until value >= next; t the same with a timeout (once);
// T repeated until true; 1 raise the value and notify one (with the lock); A notify all (with the lock);
// o, a: the same notifying after unlocking; N raise the value without telling anybody; e/E notify one/all without raising
// j wait until all the others are asleep (harness)
void program(int i, const std::string& prog, int np, bool spurious) {
    auto& S = *st; CV& v = *S.v[i]; int wanted = 0;
    for (char o : prog) {
        if (o == 'j') { block_until([=] { int n = 0; for (int k = 0; k < np; ++k) n += k != i && is_blocked(k) && st->waiting[k]; return n == np - 1; }, "the others sleep"); continue; }
        CV::ScopedLock lk = v.lock(); enter(i);
        if (!lk.owns()) fail("lock() returns a lock which is not held");
        switch (o) {
        case 'l': point("inside"); break;
        case 'w': start_wait(i, false, 0); v.wait(lk); back(i); if (!S.notified[i] && !spurious) fail("wait() of P%d returns although nobody notified", i); break;
        case 'q': {
            start_wait(i, false, 0); bool ok = v.timedwait(lk, 5); bool ex = expired(i); back(i);
            if (ok && !S.notified[i] && !spurious) fail("timedwait() of P%d reports a notification although there was none", i);
            if (!ok && !ex) fail("timedwait() of P%d reports a timeout although it did not expire", i);
            if (!ok && S.must[i]) fail("timedwait() of P%d reports a timeout although it was notified before", i);
            break; }
        case 'p': ++wanted; {
            bool first = true; int seen = -1;
            v.wait_for(lk, [&] { if (first) first = false; else if (S.waiting[i]) back(i); if (S.inside != i) fail("the predicate of P%d is evaluated without the lock", i); seen = S.value; bool r = S.value >= wanted; if (!r) start_wait(i, true, wanted); return r; });
            if (S.waiting[i]) { back(i); seen = S.value; }
            if (S.inside != i) fail("wait_for() of P%d returns without the lock", i);
            if (seen < wanted) fail("wait_for() of P%d returns although its predicate does not hold", i);
            break; }
        case 't': case 'T': ++wanted; for (bool ok = false; !ok;) {
            bool first = true, ex = false; u64 sleeps = 0; int last = 0;
            auto pr = [&] { if (!first && S.waiting[i]) { ex = expired(i); back(i); } first = false; if (S.inside != i) fail("the predicate of P%d is evaluated without the lock", i); last = S.value >= wanted; if (!last) { start_wait(i, true, wanted); ++sleeps; } return last; };
            ok = v.timedwait_for(lk, 5, pr);
            if (S.waiting[i]) back(i);                  // the last evaluation said no: it gave up
            if (S.inside != i) fail("timedwait_for() of P%d returns without the lock", i);
            if (ok != (S.value >= wanted)) fail("timedwait_for() of P%d returns %s although its predicate %s", i, ok ? "true" : "false", ok ? "does not hold" : "holds");
            if (!ok && !ex) fail("timedwait_for() of P%d gives up although it did not expire", i);
            if (o == 't') break;
            } break;
        case '1': case 'A': case 'o': case 'a': case 'N': ++S.value; event(0x400 + S.value); break;
        }
        bool one = o == '1' || o == 'o' || o == 'e', all = o == 'A' || o == 'a' || o == 'E', outside = o == 'o' || o == 'a';
        if (outside) { leave(i); CV::unlock(lk); if (lk.owns()) fail("unlock() leaves the lock held"); }
        if (one || all) {
            event(0x500); auto w = asleep(); u64 at[5]; for (int k : w) at[k] = S.entered[k];
            for (int k = 0; k < 5; ++k) if (S.waiting[k]) ++S.notified[k];
            int before = S.owe;
            if (one) v.notify_one(); else v.notify_all();
            event(0x600);
            if (outside) for (int k = 0; k < 5; ++k) if (S.waiting[k]) ++S.notified[k];   // may have started to wait meanwhile
            int still = 0; for (int k : w) still += S.waiting[k] && S.entered[k] == at[k] && !expired(k);
            bool same = still == (int)w.size();
            if (!outside && (all || w.size() == 1)) for (int k : w) if (S.waiting[k] && S.entered[k] == at[k] && !expired(k)) S.must[k] = true;
            if (same && all) S.owe = std::max(S.owe, still);
            if (same && one && !w.empty()) S.owe = outside ? std::max(S.owe, 1) : std::min(before + 1, still);
            if (!same && all && !outside) S.owe = std::max(S.owe, still);
        }
        if (!outside) { leave(i); lk.unlock(); }
    }
}
Scenario mk(const std::string& name, std::vector<std::string> progs, int preempt, int timeouts = 0, int spurious = 0, bool may_sleep = false, std::vector<int> obj = {}) {
    Scenario s; s.name = name; if (!obj.empty()) s.bounds.cache = false;      /* obj: whose object a participant uses, being a thread of that process */ s.bounds.preempt = preempt; s.bounds.timeout = timeouts; s.bounds.spurious = spurious; int np = progs.size();
    s.build = [=] {
        st = std::make_shared<St>();
        for (int i = 0; i < np; ++i) { auto body = [=] {
            auto& S = *st;
            if (!obj.empty() && obj[i] != i) { int w = obj[i]; block_until([=] { return (bool)st->v[w]; }, "the object is there"); S.v[i].p = S.v[w].p; watch(S.v[w].p, sizeof(CV)); }
            else if (!i) { Atomic a; S.v[0].reset(new CV(true, "cv", "ns")); S.up = true; }
            else { block_until([] { return st->up; }, "server up"); Atomic a; S.v[i].reset(new CV(false, "cv", "ns")); }
            ++S.joined; block_until([=] { return st->joined == np; }, "all there");
            program(i, progs[i], np, spurious > 0);
            event(0x700 + i); ++S.done;
            block_until([=] { return st->done == np; }, "all done");
            watch(nullptr, 0);
            if (!obj.empty() && obj[i] != i) { S.v[i].p = nullptr; ++S.gone; return; }
            if (!obj.empty()) block_until([=] { int n = 0; for (int k = 0; k < np; ++k) n += obj[k] != k; return st->gone == n; }, "all threads end");
            Atomic a; S.v[i].reset();
        }; if (!obj.empty() && obj[i] != i) spawn_thread("thread" + std::to_string(i), obj[i], body); else spawn(i ? "client" + std::to_string(i) : "server", body); }
    };
    s.stuck = [=]() -> std::string {
        auto& S = *st;
        if (S.inside >= 0) return "everybody is blocked while P" + std::to_string(S.inside) + " has the lock";
        auto w = asleep();
        if (S.owe > 0) return std::to_string(S.owe) + " of " + std::to_string(w.size()) + " sleeping participants should have been woken by a notification";
        if (w.empty()) return "blocked although nobody waits for a notification";
        if (!may_sleep) return "P" + std::to_string(w[0]) + " sleeps for ever";
        outcome(0x77 + w.size());
        return "";
    };
    s.finish = [] { outcome(st->value * 16 + st->done); st.reset(); };
    return s;
}
// creation, opening, closing and forcing in every order, by one caller; the lock excludes, names come and go
Scenario hist(const std::string& name, int depth, bool loud) {
    Scenario s; s.name = name; s.bounds.cache = false; s.bounds.max_steps = 200000;
    s.build = [=] { spawn("caller", [=] {
        Atomic a; std::string log; int gen = 0, cur = -1;          // cur: generation which has the names, -1 none
        struct V { Own<CV> p; int gen = -1; bool srv = false, closed = false; };
        static V v[4]; for (auto& x : v) x = V();
        auto bad = [&](const std::string& m) { fail("%s | history: %s", m.c_str(), log.c_str()); };
        const char* ON[] = {"create", "create(force)", "open", "close", "destroy"};
        for (int d = 0; d < depth; ++d) {
            std::vector<std::pair<int, int>> ch;
            int f = -1; for (int k = 0; k < 4 && f < 0; ++k) if (!v[k].p) f = k;
            if (f >= 0) for (int o = 0; o < 3; ++o) ch.push_back({o, f});
            for (int k = 0; k < 4; ++k) if (v[k].p) { if (!v[k].closed) ch.push_back({3, k}); ch.push_back({4, k}); }
            int n = choose(ch.size() + 1, "call"); if (n == (int)ch.size()) break;
            int o = ch[n].first; V& x = v[ch[n].second];
            log += (log.empty() ? "" : "; ") + std::string(ON[o]) + std::to_string(ch[n].second);
            bool threw = false; std::string what;
            try {
                switch (o) {
                case 0: case 1: x.p.reset(new CV(true, "cv", "ns", loud, loud ? VL::V3 : VL::V0, o == 1)); break;
                case 2: x.p.reset(new CV(false, "cv", "ns", loud, loud ? VL::V3 : VL::V0)); break;
                case 3: x.p->close(); break;
                case 4: x.p.reset(); break;
                }
            } catch (std::exception& e) { threw = true; what = e.what(); }
            bool want = o == 0 ? cur >= 0 : o == 2 ? cur < 0 : false;
            if (threw && !want) bad(std::string(ON[o]) + " fails: " + what);
            if (!threw && want) bad(std::string(ON[o]) + (o ? " succeeds although there is none" : " succeeds although there is one"));
            if (!threw) {
                if (o < 2) { x.srv = true; x.closed = false; x.gen = cur = gen++; }
                if (o == 2) { x.srv = false; x.closed = false; x.gen = cur; }
                // the names belong to the one which was created last: a replaced one closes nothing but its own -- it removes the
                // names whoever has them now (documented: forcing replaces a dead one), so those histories end here
                if ((o == 3 || o == 4) && x.srv && !x.closed) { if (cur >= 0 && x.gen != cur) { for (auto& y : v) y.p.reset(); return; } cur = -1; }
                if (o == 3) x.closed = true;
                if (o == 4) x = V();
            }
            size_t names = 0; for (auto& nm : list_names()) { (void)nm; ++names; }
            if (cur < 0 && names) bad("names are left although the condition variable was closed: " + list_names()[0]);
            if (cur >= 0 && !names) bad("the names are gone although nobody closed it");
            // users of the same generation exclude each other, others do not
            for (int k = 0; k < 4; ++k) if (v[k].p && !(v[k].closed && !v[k].srv && false)) {
                CV::ScopedLock lk = v[k].p->lock();
                if (v[k].gen == cur) {
                    auto m = CV::create_named_mutex(v[k].p->mutex_path());
                    if (m.try_lock()) bad("the lock is not exclusive");
                    CV::unlock(lk);
                    if (!m.try_lock()) bad("the lock is still held after unlock()");
                    m.unlock();
                } else { CV::unlock(lk); }
            }
            if (open_fds(self()) > 64) bad("descriptors are lost");
        }
        for (auto& y : v) y.p.reset();
        if (cur < 0 || true) { for (auto& nm : list_names()) bad("the name " + nm + " is left after everything was destroyed"); }
        if (open_fds(self())) bad("descriptors are left open"); if (open_sems(self())) bad("semaphores are left open"); if (bad_closes(self())) bad("a descriptor was closed twice");
        u64 h = 0; for (char c : log) h = h * 131 + c; outcome(h);
    }); };
    return s;
}
// a participant killed anywhere in its life, then a forced one, which has to be fresh
Scenario crash(const std::string& name, const std::string& victim, int clients, int preempt) {
    Scenario s; s.name = name; s.bounds.preempt = preempt; s.bounds.crash = 1; s.bounds.crash_mask = clients ? 2 : 1; s.bounds.timeout = 1;
    s.build = [=] {
        st = std::make_shared<St>();
        spawn("server", [=] {
            auto& S = *st; S.v[0].reset(new CV(true, "cv", "ns")); S.up = true;
            if (!clients) { auto lk = S.v[0]->lock(); if (victim == "wait") S.v[0]->timedwait(lk, 5); else if (victim == "notify") S.v[0]->notify_all(); lk.unlock(); S.v[0].reset(); }
        });
        if (clients) spawn("victim", [=] {
            auto& S = *st; block_until([] { return st->up; }, "up"); S.v[1].reset(new CV(false, "cv", "ns"));
            auto lk = S.v[1]->lock(); if (victim == "wait") S.v[1]->timedwait(lk, 5); else if (victim == "notify") S.v[1]->notify_one(); lk.unlock(); S.v[1].reset();
        });
        spawn("next", [=] {
            auto& S = *st; int v = clients ? 1 : 0;
            block_until([=] { return status(v) != READY && (v == 0 || st->up); }, "the victim is gone");
            S.v[2].reset(new CV(true, "cv", "ns", false, VL::V0, true)); S.owe = 1;
            block_until([=] { return st->waiting[3]; }, "the new client waits");
            auto lk = S.v[2]->lock(); S.value = 1; S.v[2]->notify_all(); lk.unlock();
            block_until([] { return st->done == 1; }, "woken");
            Atomic a; S.v[2].reset();
            for (auto& nm : list_names()) fail("the name %s is left", nm.c_str());
        });
        spawn("new client", [=] {
            auto& S = *st; block_until([] { return st->owe == 1; }, "the next one is there");
            S.v[3].reset(new CV(false, "cv", "ns"));
            auto lk = S.v[3]->lock(); S.waiting[3] = true; S.v[3]->wait_for(lk, [] { return st->value == 1; }); lk.unlock();
            S.done = 1; Atomic a; S.v[3].reset();
        });
    };
    s.stuck = []() -> std::string { return "the forced condition variable does not work: somebody is blocked for ever"; };
    s.finish = [] { if (st->done != 1 && !st->over) fail("the new client was not served"); outcome(st->value); st.reset(); };
    return s;
}
// create_named_mutex() and lock(mutex): whoever comes first creates it
// how long timed waits take when nobody answers, and when somebody does in vain
Scenario howlong() {
    Scenario s; s.name = "durations of timed waits"; s.bounds.cache = false;
    s.build = [] { spawn("caller", [] {
        Atomic a; CV v(true, "cv", "ns", false, VL::V0, false), c(false, "cv", "ns", false, VL::V0);
        for (CV* p : {&v, &c}) {
            durations("timedwait()", [=](int ms) { auto l = p->lock(); return p->timedwait(l, ms); });
            durations("timedwait_for()", [=](int ms) { auto l = p->lock(); return p->timedwait_for(l, ms, [] { return false; }); });
        }
    }); };
    return s;
}
Scenario invain(int times, int last) {
    Scenario s; s.name = "duration of a wait for a condition with " + std::to_string(times) + " notifications in vain" + (last ? ", then it holds" : ""); s.bounds.cache = false;
    struct D { Own<CV> a, b; bool up = false, in = false, done = false; int n = 0, value = 0; }; auto sp = std::make_shared<std::shared_ptr<D>>();
    s.build = [=] {
        *sp = std::make_shared<D>(); auto* d = sp->get();
        spawn("waiter", [=] {
            { Atomic a; d->a.reset(new CV(true, "cv", "ns", false, VL::V0, false)); d->up = true; }
            { auto l = d->a->lock(); d->in = true; u64 t0 = clock_ns();
              bool ok = d->a->timedwait_for(l, 1000, [=] { return d->value > 0; }); u64 ms = (clock_ns() - t0) / 1000;
              if (ok != (last != 0)) fail("timedwait_for() returns %d", ok);
              if (!ok && (ms < 999998 || ms > 1100000)) fail("timedwait_for() with a time-out of 1000 ms gives up after %.3f ms when it is notified in vain in between", ms / 1e3); outcome(ok); d->done = true; }
            block_until([=] { return status(1) == DONE; }, "the other one ends"); Atomic a; d->a.reset();
        });
        spawn("notifier", [=] {
            block_until([=] { return d->up; }, "up"); { Atomic a; d->b.reset(new CV(false, "cv", "ns", false, VL::V0)); }
            for (int k = 0; k < times + (last ? 1 : 0); ++k) {
                block_until([=] { return d->in && is_blocked(0); }, "the waiter sleeps"); if (d->done) break;
                Atomic a; pass_time(900000000ull / (times + 1)); auto l = d->b->lock(); if (k == times) d->value = 1; d->b->notify_all();
            }
            Atomic a; d->b.reset();
        });
    };
    s.finish = [=] { sp->reset(); };
    return s;
}
// two threads of one process wait with the same object, each with a time-out of its own, and are notified in vain
Scenario shared(bool server, int t0, int t1, int preempt) {
    Scenario s; s.name = std::string("durations of two threads' waits with one ") + (server ? "server's" : "client's") + " object, " + std::to_string(t0) + " and " + std::to_string(t1) + " ms"; s.bounds.preempt = preempt; s.bounds.timeout = 2; s.bounds.cache = false;
    struct D { Own<CV> a, b; CV* p = nullptr; bool up = false; int in = 0, done = 0; }; auto sp = std::make_shared<std::shared_ptr<D>>();
    s.build = [=] {
        *sp = std::make_shared<D>(); auto* d = sp->get();
        for (int k = 0; k < 2; ++k) { auto body = [=] {
            int t = k ? t1 : t0;
            if (k == 0) { Atomic a; d->a.reset(new CV(true, "cv", "ns", false, VL::V0, false)); d->up = true; if (server) d->p = d->a.p; }
            if (!server && k == 0) { Atomic a; d->b.reset(new CV(false, "cv", "ns", false, VL::V0)); d->p = d->b.p; }
            if (k) { block_until([=] { return d->p != nullptr; }, "up"); watch(d->p, sizeof(CV)); }
            { CV::ScopedLock l = d->p->lock(); u64 b = clock_ns(); ++d->in; event(k);
              bool ok = d->p->timedwait_for(l, t, [] { return false; }); u64 us = (clock_ns() - b) / 1000;
              if (ok) fail("timedwait_for() of thread %d returns true although its condition never holds", k);
              if (us + 2 < 1000ull * t) fail("timedwait_for() of thread %d with a time-out of %d ms gives up after %.3f ms", k, t, us / 1e3);
              if (us > 1000ull * t + 100000 && !timeout_seq(1 - k)) fail("timedwait_for() of thread %d with a time-out of %d ms gives up only after %.3f ms", k, t, us / 1e3);
              ++d->done; }
            block_until([=] { return d->done == 2 && status(2) == DONE; }, "all end"); watch(nullptr, 0); if (k == 0) { Atomic a; d->b.reset(); d->a.reset(); }
        }; if (k) spawn_thread("thread1", 0, body); else spawn("thread0", body); }
        spawn_thread("notifier", 0, [=] { block_until([=] { return d->in == 2 && is_blocked(0) && is_blocked(1); }, "both sleep"); if (!d->done) d->p->notify_all(); });
    };
    s.finish = [=] { sp->reset(); };
    return s;
}
Scenario mutex(const std::string& name, int np, int preempt) {
    Scenario s; s.name = name; s.bounds.preempt = preempt;
    s.build = [=] {
        st = std::make_shared<St>();
        for (int i = 0; i < np; ++i) spawn("P" + std::to_string(i), [=] {
            auto m = CV::create_named_mutex("mymutex");
            for (int k = 0; k < 2; ++k) { CV::ScopedLock lk = CV::lock(m); if (!lk.owns()) fail("lock() returns a lock which is not held"); enter(i); point("inside"); leave(i); CV::unlock(lk); }
        });
    };
    s.stuck = []() -> std::string { return "blocked for ever"; };
    s.finish = [] { outcome(1); st.reset(); };
    return s;
}
}
Registry vmc::registry() {
    Registry R;
    R.scenarios = [](bool th, std::vector<Scenario>& v) {
        int to = th ? 2 : 1;
        v.push_back(mk("2 users of the lock", {"lll", "ll"}, -1));
        v.push_back(mk("3 users of the lock", {"ll", "l", "ll"}, th ? -1 : 4));
        v.push_back(mk("wait and notify one", {"1", "w"}, -1, 0, 0, true));
        v.push_back(mk("wait, then notify one", {"je", "w"}, -1));
        v.push_back(mk("wait, then notify all", {"jE", "w"}, -1));
        v.push_back(mk("2 waits, then notify one twice", {"jeje", "ww"}, -1));
        v.push_back(mk("timed wait and notify one", {"e", "q"}, -1, to, 1));
        v.push_back(mk("timed wait and notify all outside the lock", {"a", "qq"}, -1, to, 1));
        v.push_back(mk("wait for a value", {"1", "p"}, -1, 0, 2));
        v.push_back(mk("wait for two values", {"11", "pp"}, -1, 0, 1));
        v.push_back(mk("wait for a value, notified outside the lock", {"o", "p"}, -1, 0, 1));
        v.push_back(mk("wait for a value, notified twice in vain", {"eN1", "p"}, -1, 0, 1));
        v.push_back(mk("wait for two values, one told", {"N1", "pp"}, -1, 0, 1));
        v.push_back(mk("timed wait for a value", {"1", "t"}, -1, to, 1));
        v.push_back(mk("timed wait for a value until it comes", {"1", "T"}, -1, to, 1));
        v.push_back(mk("timed wait for a value which nobody tells", {"N", "t"}, -1, to, 1));
        v.push_back(mk("timed wait for a value, notified in vain", {"ee", "t"}, -1, to, 0));
        v.push_back(mk("the server waits for a client", {"p", "1"}, -1, 0, 1));
        v.push_back(mk("ping pong", {"1p", "p1p"}, th ? -1 : 5, 0, 0, true));
        v.push_back(mk("2 waiters, notify one", {"je", "w", "w"}, th ? -1 : 4, 0, 0, true));
        v.push_back(mk("2 waiters, notify one twice", {"jee", "w", "w"}, th ? -1 : 4));
        v.push_back(mk("2 waiters, notify all", {"jE", "w", "w"}, th ? -1 : 4));
        v.push_back(mk("2 waiters, notify all outside the lock", {"ja", "w", "w"}, th ? -1 : 4));
        v.push_back(mk("2 waiters for a value, notify all", {"A", "p", "p"}, th ? 6 : 4));
        v.push_back(mk("2 waiters for two values, notify all", {"AA", "pp", "p"}, th ? 4 : 3));
        v.push_back(mk("2 waiters, one timed, notify one", {"e", "w", "q"}, th ? 4 : 3, to, 0, true));
        v.push_back(mk("2 timed waiters for a value, notify all", {"A", "T", "t"}, th ? 4 : 3, to, 0));
        v.push_back(mk("a waiter and a user of the lock", {"1", "p", "ll"}, th ? 5 : 3));
        v.push_back(mk("2 notifiers, 1 waiter", {"1", "pp", "1"}, th ? 5 : 3));
        v.push_back(mk("3 waiters, notify all", {"jE", "w", "w", "w"}, th ? 4 : 2));
        v.push_back(mk("3 waiters, notify one twice", {"jee", "w", "w", "w"}, th ? 4 : 2, 0, 0, true));
        v.push_back(hist("histories", th ? 7 : 5, false)); v.push_back(hist("histories with messages", th ? 5 : 4, true));
        v.push_back(crash("server killed while it locks", "lock", 0, th ? 2 : 1)); v.push_back(crash("server killed while it waits", "wait", 0, th ? 2 : 1)); v.push_back(crash("server killed while it notifies", "notify", 0, th ? 2 : 1));
        v.push_back(crash("client killed while it locks", "lock", 1, th ? 2 : 1)); v.push_back(crash("client killed while it waits", "wait", 1, th ? 2 : 1)); v.push_back(crash("client killed while it notifies", "notify", 1, th ? 2 : 1));
        v.push_back(mk("2 threads of the server use the lock", {"ll", "ll"}, th ? 6 : 4, 0, 0, false, {0, 0}));
        v.push_back(mk("2 threads of a client wait for a value, notify all", {"A", "p", "p"}, th ? 3 : 2, 0, 0, false, {0, 1, 1}));
        v.push_back(mk("2 threads of a client wait, then notify one twice", {"jee", "w", "w"}, th ? 3 : 2, 0, 0, false, {0, 1, 1}));
        v.push_back(mk("3 threads of the server, timed waits for a value", {"A", "t", "T"}, th ? 3 : 2, to, 0, false, {0, 0, 0}));
        v.push_back(mk("3 threads of the server, 2 waits for a value, notify all", {"A", "p", "p"}, th ? 3 : 2, 0, 0, false, {0, 0, 0}));
        for (bool b : {true, false}) { v.push_back(shared(b, 1000, 5000, th ? 4 : 2)); v.push_back(shared(b, 5000, 1000, th ? 4 : 2)); }
        v.push_back(howlong()); for (int n : {1, 2, 5}) for (int l : {0, 1}) v.push_back(invain(n, l));
        v.push_back(mutex("2 users of a named mutex", 2, -1)); v.push_back(mutex("3 users of a named mutex", 3, th ? 5 : 3));
    };
    return R;
}
