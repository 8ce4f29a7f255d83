// C14: a failing OS resource is reported, nobody is locked out, and the next attempt succeeds.
#include "anyc.hpp"
#include <EigenIPC/StringTensor.hpp>
#include <EigenIPC/Producer.hpp>
#include <EigenIPC/Consumer.hpp>
#include <EigenIPC/MemDefs.hpp>
using namespace vmc;
namespace {
// runs f; an exception is legitimate only if a fault was injected meanwhile. true: it worked
bool attempt(const char* what, std::function<void()> f) {
    int k = faults_injected();
    try { f(); } catch (std::exception& e) {
        if (faults_injected() == k) fail("%s fails although every resource is available: %s", what, e.what());
        outcome(1); return false;
    }
    return true;
}
// never more attempts than faults
void until(const char* what, int faults, std::function<void()> f) {
    for (int k = 0; ; ++k) { if (attempt(what, f)) return; if (k > faults) fail("%s fails again and again", what); }
}
void functional(AnyServer* s, int kind, int r, int c, int attached) {
    Atomic a;
    if (!s->running()) fail("the server is not running");
    int n = s->count(); if (n != attached) fail("the server counts %d clients, %d are attached", n, attached);
    std::unique_ptr<AnyClient> k(make_client(kind, "t", "ns")); k->attach();
    if (k->rows() != r || k->cols() != c) fail("a client reports %dx%d, the server is %dx%d", k->rows(), k->cols(), r, c);
    n = s->count(); if (n != attached + 1) fail("the server counts %d clients, %d are attached", n, attached + 1);
    if (!k->put(3) || s->is(3) != 1) fail("the server does not read what a client wrote");
    if (!s->put(5) || !k->is(5)) fail("a client does not read what the server wrote");
    s->acquire(); if (k->is(5)) fail("the lock is not exclusive"); s->release();
    k->acquire(); if (s->is(5) != 0) fail("the lock is not exclusive"); k->release();
    k->detach(); n = s->count(); if (n != attached) fail("the server counts %d clients after one left, %d are attached", n, attached);
}
void nothing_left() {
    for (auto& n : list_names()) if (n.find(MemDef::isSrvrRunningName()) == std::string::npos) fail("after everything was closed the name %s still exists", n.c_str());
}
void fds_ok(int base) {
    int p = self();
    if (bad_closes(p)) fail("a descriptor was closed which was not open"); (void)base;
}
struct St { Own<AnyServer> s; Own<AnyClient> c[4]; bool up = false, over = false; int ready = 0, done = 0, att = 0; };
std::shared_ptr<St> st;

Scenario server(const std::string& name, int kind, bool force, int faults, const std::string& leftover = "") {
    Scenario s; s.name = name; s.bounds.preempt = 0; s.bounds.fault = faults;
    s.build = [=] {
        st = std::make_shared<St>();
        spawn("server", [=] {
            auto& S = *st; const char* n = "t"; const char* ns = "ns";
            if (!leftover.empty()) { Atomic a; S.s.reset(make_server(6, 3, 1, n, ns)); S.s->run(); if (leftover == "closed") S.s.reset(); else S.s.p = nullptr; }
            AnyServer* q = nullptr;
            until("creating the server", faults, [&] { q = make_server(kind, 2, 2, n, ns, force); });
            until("starting the server", faults, [&] { q->run(); });
            functional(q, kind, 2, 2, 0);
            q->stop();
            until("starting the server again", faults, [&] { q->run(); });
            functional(q, kind, 2, 2, 0);
            { Atomic a; delete q; fds_ok(0); if (leftover != "abandoned") { if (open_fds(self()) || open_sems(self())) fail("%d descriptors and %d semaphores are still open after everything was closed", open_fds(self()), open_sems(self())); } nothing_left(); }
        });
    };
    s.finish = [] { st.reset(); };
    return s;
}
// a contender whose creation hits a fault must not disturb the running server
Scenario contender(const std::string& name, int faults, int preempt) {
    Scenario s; s.name = name; s.bounds.preempt = preempt; s.bounds.fault = faults; s.bounds.fault_mask = 2;
    s.build = [=] {
        st = std::make_shared<St>();
        spawn("server", [=] {
            auto& S = *st;
            { Atomic a; S.s.reset(make_server(4, 2, 2, "t", "ns")); S.s->run(); S.up = true; }
            if (S.s->put(7)) { Atomic a; int r = S.s->is(7); if (r != 1) fail("the server's data changed"); }
            block_until([] { return st->done; }, "contender gone");
            functional(S.s.p, 4, 2, 2, 0);
            Atomic a; S.s.reset(); nothing_left();
        });
        spawn("contender", [=] {
            block_until([] { return st->up; }, "up");
            AnyServer* q = nullptr;
            try { q = make_server(4, 3, 1, "t", "ns"); q->run(); fail("a second server runs"); } catch (std::exception&) {}
            delete q; st->done = 1;
        });
    };
    s.finish = [] { st.reset(); };
    return s;
}
// a client attaching under faults, in parallel with `peers` attached clients at work
Scenario client(const std::string& name, int kind, int faults, int peers, int preempt, int mode = 0) {
    Scenario s; s.name = name; s.bounds.preempt = preempt; s.bounds.fault = faults; s.bounds.fault_mask = 2;
    s.build = [=] {
        st = std::make_shared<St>();
        spawn("server", [=] {
            auto& S = *st;
            { Atomic a; S.s.reset(make_server(kind, 2, 2, "t", "ns")); S.s->run(); S.up = true; }
            block_until([=] { return st->ready == peers; }, "peers ready");
            if (mode & 1) { S.s->put(9); S.s->count(); }
            block_until([=] { return st->done == peers + 1; }, "clients done");
            functional(S.s.p, kind, 2, 2, S.att);
            S.over = true;
            block_until([=] { for (int i = 1; i <= peers + 1; ++i) if (status(i) != DONE) return false; return true; }, "clients gone");
            Atomic a; if (S.s->count() != 0) fail("the server counts %d clients after everybody left", S.s->count());
            S.s.reset(); nothing_left();
        });
        spawn("newcomer", [=] {
            auto& S = *st;
            block_until([=] { return st->up && st->ready == peers; }, "up");
            S.c[0].reset(make_client(kind, "t", "ns"));
            int tries = 0;
            until("attaching", faults, [&] {
                try { S.c[0]->attach(); } catch (...) {
                    ++tries;
                    if (S.c[0]->attached()) fail("a client whose attach failed reports being attached");
                    if (S.c[0]->readable() || S.c[0]->put(1)) fail("a client whose attach failed reads or writes");
                    if (!peers && !(mode & 1)) { Atomic a; int n = -1; shm_bytes_of(std::string("/nst_") + MemDef::ClientsCountName(), 0, &n, 4); if (n != 0) fail("a failed attach leaves a client count of %d", n); if (sem_value("/nst_dataSem") != 1) fail("a failed attach leaves the lock at %d", sem_value("/nst_dataSem")); }
                    if (mode & 2) { S.c[0].reset(); S.c[0].reset(make_client(kind, "t", "ns")); }   // a new object instead
                    throw;
                } });
            ++S.att;
            if (!S.c[0]->attached()) fail("not attached after attach()");
            if (S.c[0]->rows() != 2 || S.c[0]->cols() != 2) fail("the client reports %dx%d, the server is 2x2", S.c[0]->rows(), S.c[0]->cols());
            { Atomic a; if (!peers && !(mode & 1)) { if (!S.c[0]->put(4)) fail("a write is refused"); if (!S.c[0]->is(4)) fail("a client does not read what it wrote"); } }
            ++S.done;
            block_until([] { return st->over; }, "over");
            Atomic a; S.c[0].reset(); fds_ok(0); if (open_fds(self()) || open_sems(self())) fail("%d descriptors and %d semaphores are still open after the client was destroyed", open_fds(self()), open_sems(self()));
        });
        for (int i = 1; i <= peers; ++i) spawn("peer" + std::to_string(i), [=] {
            auto& S = *st;
            block_until([] { return st->up; }, "up");
            { Atomic a; S.c[i].reset(make_client(kind, "t", "ns")); S.c[i]->attach(); ++S.ready; ++S.att; }
            block_until([=] { return st->ready == peers; }, "peers ready");
            S.c[i]->put(i); S.c[i]->detach(); if (S.c[i]->attached()) fail("attached after detach()");
            { S.c[i]->attach(); }
            ++S.done;
            block_until([] { return st->over; }, "over");
            Atomic a; S.c[i].reset();
        });
    };
    s.finish = [] { st.reset(); };
    return s;
}
// the client comes first and waits for the server
Scenario startup(const std::string& name, int faults, int preempt) {
    Scenario s; s.name = name; s.bounds.preempt = preempt; s.bounds.fault = faults;
    s.build = [=] {
        st = std::make_shared<St>();
        spawn("server", [=] {
            auto& S = *st;
            until("creating the server", faults, [&] { S.s.reset(); S.s.reset(make_server(4, 2, 2, "t", "ns")); });
            until("starting the server", faults, [&] { S.s->run(); });
            block_until([] { return st->done; }, "client done");
            functional(S.s.p, 4, 2, 2, 1);
            S.over = true; block_until([] { return status(1) == DONE; }, "client gone");
            Atomic a; S.s.reset(); nothing_left();
        });
        spawn("client", [=] {
            auto& S = *st;
            S.c[0].reset(make_client(4, "t", "ns"));
            until("attaching", faults + 2, [&] { S.c[0]->attach(); });
            if (S.c[0]->rows() != 2 || S.c[0]->cols() != 2) fail("the client reports %dx%d, the server is 2x2", S.c[0]->rows(), S.c[0]->cols());
            S.done = 1;
            block_until([] { return st->over; }, "over");
            Atomic a; S.c[0].reset();
        });
    };
    s.finish = [] { st.reset(); };
    return s;
}
Scenario strings(const std::string& name, int faults) {
    Scenario s; s.name = name; s.bounds.preempt = 0; s.bounds.fault = faults; s.bounds.max_steps = 400000;
    using SS = StringTensor<StrServer>; using SC = StringTensor<StrClient>;
    s.build = [=] {
        spawn("all", [=] {
            std::unique_ptr<SS> a; std::unique_ptr<SC> b;
            until("creating the list", faults, [&] { a.reset(new SS(2, "t", "ns", false, VL::V0, false, true)); });
            until("starting the list", faults, [&] { a->run(); });
            b.reset(new SC("t", "ns", false, VL::V0, true));
            until("joining the list", faults, [&] { try { b->run(); } catch (...) { if (b->isRunning()) fail("a list client whose run() failed reports running"); std::string q = "?"; if (b->read(q, 0) || b->write(q, 0)) fail("a list client whose run() failed reads or writes"); if (a->getNClients() != 0) fail("a failed run() leaves a client count"); if (!a->write(std::string("x"), 0)) fail("a failed run() locks the server out"); throw; } });
            Atomic z; std::string q;
            if (!a->write(std::string("hello"), 1) || !b->read(q, 1) || q != "hello") fail("the list is not functional");
            if (!b->write(std::string("world"), 0) || !a->read(q, 0) || q != "world") fail("the list is not functional");
            if (a->getNClients() != 1) fail("the list counts %d clients instead of 1", a->getNClients());
            b.reset(); a.reset();
            if (bad_closes(self())) fail("a descriptor was closed which was not open");
            if (open_fds(self()) || open_sems(self())) fail("%d descriptors and %d semaphores are still open", open_fds(self()), open_sems(self()));
            nothing_left();
        });
    };
    return s;
}
Scenario prodcons(const std::string& name, int faults, int side, bool renew) {
    Scenario s; s.name = name; s.bounds.preempt = 0; s.bounds.fault = faults;
    s.build = [=] {
        spawn("all", [=] {
            std::unique_ptr<Producer> p; std::unique_ptr<Consumer> c, d;
            auto newp = [&] { until("creating the producer", faults, [&] { p.reset(); p.reset(new Producer("pc", "ns", false, VL::V0, false)); }); };
            { std::unique_ptr<Atomic> z; if (!(side & 1)) z.reset(new Atomic());
              newp();
              until("starting the producer", faults, [&] { try { p->run(); } catch (...) { if (renew) newp(); throw; } }); }
            { std::unique_ptr<Atomic> z; if (!(side & 2)) z.reset(new Atomic());
              c.reset(new Consumer("pc", "ns", false, VL::V0));
              until("starting the consumer", faults, [&] { try { c->run(); } catch (...) { if (renew) { c.reset(); c.reset(new Consumer("pc", "ns", false, VL::V0)); } throw; } }); }
            Atomic z;
            d.reset(new Consumer("pc", "ns", false, VL::V0)); d->run();
            for (int r = 0; r < 2; ++r) {
                if (c->wait(5) || d->wait(5)) fail("a consumer is woken without a trigger");
                p->trigger();
                if (!c->wait(5) || !d->wait(5)) fail("a consumer does not get the trigger");
                if (!c->ack() || p->wait_ack_from(2, 5) || !d->ack() || !p->wait_ack_from(2, 5)) fail("acknowledgements are not counted");
            }
            c.reset(); d.reset(); p.reset();
            if (bad_closes(self())) fail("a descriptor was closed which was not open");
            nothing_left();
        });
    };
    return s;
}
// a second producer whose start hits a fault must not disturb the running one
Scenario producers(const std::string& name, int faults) {
    Scenario s; s.name = name; s.bounds.preempt = 0; s.bounds.fault = faults;
    s.build = [=] {
        spawn("all", [=] {
            std::unique_ptr<Producer> p, q; std::unique_ptr<Consumer> c, d;
            { Atomic z; p.reset(new Producer("pc", "ns", false, VL::V0, false)); p->run(); c.reset(new Consumer("pc", "ns", false, VL::V0)); c->run(); }
            try { q.reset(new Producer("pc", "ns", false, VL::V0, false)); q->run(); fail("a second producer runs"); } catch (std::exception&) {}
            q.reset();
            Atomic z;
            d.reset(new Consumer("pc", "ns", false, VL::V0));
            try { d->run(); } catch (std::exception& e) { fail("after a second producer failed to start, a consumer cannot join: %s", e.what()); }
            p->trigger();
            if (!c->wait(5) || !d->wait(5)) fail("a consumer does not get the trigger");
            if (!c->ack() || !d->ack() || !p->wait_ack_from(2, 5)) fail("acknowledgements are not counted");
            c.reset(); d.reset(); p.reset(); nothing_left();
        });
    };
    return s;
}
}
Registry vmc::registry() {
    Registry R;
    R.scenarios = [](bool th, std::vector<Scenario>& v) {
        int F = th ? 3 : 2;
        v.push_back(server("server creation and start", 4, false, F));
        v.push_back(server("server creation and start, other type", 3, false, F));
        v.push_back(server("forced server creation and start", 4, true, F));
        v.push_back(server("server creation after a closed one", 4, false, F, "closed"));
        v.push_back(server("forced server over an abandoned one", 4, true, F, "abandoned"));
        v.push_back(contender("second server meets faults", 1, th ? 4 : 2));
        v.push_back(client("client attach", 4, F, 0, 0));
        v.push_back(client("client attach, other type", 7, F, 0, 0));
        v.push_back(client("client attach, new object after a failure", 4, F, 0, 0, 2));
        v.push_back(client("client attach while the server works", 4, 1, 0, th ? -1 : 3, 1));
        v.push_back(client("client attach with a working client", 4, 1, 1, th ? 3 : 1, 0));
        v.push_back(startup("both sides start up", 1, th ? 3 : 1));
        if (th) v.push_back(startup("both sides start up, two faults", 2, 1));
        v.push_back(strings("string list", F));
        v.push_back(producers("second producer meets faults", F));
        v.push_back(prodcons("producer", F, 1, false));
        v.push_back(prodcons("producer, new object after a failure", F, 1, true));
        v.push_back(prodcons("consumer", F, 2, false));
        v.push_back(prodcons("consumer, new object after a failure", F, 2, true));
    };
    return R;
}
