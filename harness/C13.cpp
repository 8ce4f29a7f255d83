// C13: a forced producer starts whatever its killed predecessors and their consumers left behind.
#include "common.hpp"
#include <EigenIPC/Producer.hpp>
#include <EigenIPC/Consumer.hpp>
using namespace vmc;
namespace {
struct Vic { bool prod; std::string pre, prog; };
struct St { Own<Producer> p[4]; Own<Consumer> c[6]; int idle = 0; bool gone[6] = {}; int phase = 0; bool crashed1 = false; int joined = 0, rounds = 0; };
std::shared_ptr<St> st;
// producer: n create, f create forced, r run, t trigger, k collect 1 (blocking), q collect 2 with timeout, c close, x destroy
// consumer: r create and run, w wait, q timed wait, a ack, b wait and ack, c close, x destroy
void exec(int i, bool prod, char o) {
    auto& S = *st;
    if (prod) switch (o) {
        case 'n': case 'f': S.p[i].reset(new Producer("pc", "ns", false, VL::V0, o == 'f')); break;
        case 'r': S.p[i]->run(); break; case 't': S.p[i]->trigger(); break;
        case 'k': S.p[i]->wait_ack_from(1); break; case 'q': S.p[i]->wait_ack_from(2, 5); break;
        case 'c': S.p[i]->close(); break; case 'x': S.p[i].reset(); break;
    } else switch (o) {
        case 'r': S.c[i].reset(new Consumer("pc", "ns", false, VL::V0)); S.c[i]->run(); break;
        case 'w': S.c[i]->wait(); break; case 'q': S.c[i]->wait(5); break; case 'a': S.c[i]->ack(); break;
        case 'b': S.c[i]->wait_and_ack([] { if (crashes_injected()) throw std::runtime_error("over"); return true; }); break;
        case 'c': S.c[i]->close(); break; case 'x': S.c[i].reset(); break;
    }
}
// a complete round with n new consumers of the producer; fresh: nothing was triggered yet
void rounds(Producer& p, int n) {
    std::vector<std::unique_ptr<Consumer>> c;
    for (int i = 0; i < n; ++i) { c.emplace_back(new Consumer("pc", "ns", false, VL::V0)); c[i]->run(); }
    for (int r = 0; r < 2; ++r) {
        for (int i = 0; i < n; ++i) if (c[i]->wait(5)) fail("a new consumer is woken although the new producer did not trigger");
        if (p.wait_ack_from(1, 5)) fail("the new producer collects an acknowledgement which nobody gave");
        p.trigger();
        for (int i = 0; i < n; ++i) { if (!c[i]->wait(5)) fail("a new consumer does not get trigger %d of the new producer", r + 1); if (i == 0 && n > 1 && r == 0) { if (!c[i]->ack()) fail("ack() fails"); if (p.wait_ack_from(n, 5)) fail("the new producer collects %d acknowledgements, one was given", n); continue; } if (!c[i]->ack()) fail("ack() of a new consumer fails"); }
        if (!p.wait_ack_from(n, 5)) fail("the new producer does not collect the %d acknowledgements of round %d", n, r + 1);
    }
}
Scenario mk(const std::string& name, std::vector<Vic> vic, int preempt, int crashes = 1, int joiners = 0, bool second = false) {
    Scenario s; s.name = name; s.bounds.preempt = preempt; s.bounds.crash = crashes; s.bounds.timeout = 1; s.bounds.max_steps = 80000;
    int nv = vic.size(); s.bounds.crash_mask = (1ull << nv) - 1; if (second) s.bounds.crash_mask |= 1ull << nv;
    int r2 = nv + 1;
    s.build = [=] {
        st = std::make_shared<St>();
        for (int i = 0; i < nv; ++i) spawn((vic[i].prod ? "producer" : "consumer") + std::to_string(i), [=] {
            auto& S = *st;
            block_until([=] { return st->idle >= i || crashes_injected(); }, "turn");
            if (crashes_injected()) return;
            try {
                { Atomic a; for (char o : vic[i].pre) exec(i, vic[i].prod, o); }
                ++S.idle;
                block_until([=] { return st->idle >= nv || crashes_injected(); }, "set up");
                if (!crashes_injected()) for (char o : vic[i].prog) { exec(i, vic[i].prod, o); if (crashes_injected()) break; }
            } catch (std::exception& e) { if (!crashes_injected()) fail("an operation fails although nobody was killed: %s", e.what()); }
            if (vic[i].prod) { Atomic a; S.p[i].reset(); S.gone[i] = true; return; }     // the surviving producer leaves before the new one comes
            S.gone[i] = true;
            block_until([=] { return st->phase >= 2; }, "recovery");
            // a surviving consumer leaves during the new producer's life; nobody is killed any more
            std::unique_ptr<Atomic> a; if (crashes_injected() < crashes || !crashes_injected()) a.reset(new Atomic());
            S.c[i].reset();
        });
        auto recover = [=](bool atomic) {
            auto& S = *st;
            { std::unique_ptr<Atomic> a; if (atomic) a.reset(new Atomic());
              S.p[3].p = nullptr;                                                        // (the object of a killed process)
              S.p[3].reset(new Producer("pc", "ns", false, VL::V0, true));
              S.phase = 1; event(0x51); S.p[3]->run(); }
            if (joiners) {
                block_until([=] { return st->joined == joiners; }, "consumers joined");
                for (int r = 1; r <= 2; ++r) { S.p[3]->trigger(); if (!S.p[3]->wait_ack_from(joiners)) fail("collecting fails"); if (S.rounds != r * joiners) fail("the new producer collected %d acknowledgements before they were given", joiners); }
                S.phase = 2; event(0x52);
                block_until([=] { for (int i = 0; i < joiners; ++i) if (status(nv + 1 + i) == READY) return false; return true; }, "consumers leave");
            } else {
                { Atomic a; rounds(*S.p[3], 2); S.phase = 2; event(0x53); }
            }
            block_until([=] { for (int i = 0; i < nv; ++i) if (status(i) == READY && !is_blocked(i)) return false; return true; }, "survivors leave");
            { Atomic a;
              if (!joiners) { std::unique_ptr<Consumer> k(new Consumer("pc", "ns", false, VL::V0)); k->run(); }   // others can still connect
              S.p[3].reset(); S.phase = 3;
              for (auto& n : list_names()) if (n.find(MemDef::isSrvrRunningName()) == std::string::npos) fail("after the new producer was destroyed the name %s still exists", n.c_str()); }
        };
        spawn("recovery", [=] {
            block_until([=] { return st->idle >= nv || crashes_injected(); }, "set up");
            block_until([=] { for (int i = 0; i < nv; ++i) if (!(status(i) != READY || st->gone[i] || is_blocked(i))) return false; return true; }, "crash");
            if (!crashes_injected()) { st->phase = 2; return; }
            // a producer which waits for ever for a dead consumer has to be killed before it is replaced
            for (int i = 0; i < nv; ++i) if (vic[i].prod && status(i) == READY) { st->phase = 9; outcome(9); return; }
            outcome(1);
            recover(!second && !joiners);
        });
        if (second) spawn("second recovery", [=] {
            block_until([=] { return status(nv) != READY; }, "first recovery over");
            if (status(nv) == CRASHED) { outcome(2); st->phase = 0; recover(true); }
        });
        for (int j = 0; j < joiners; ++j) spawn("joiner" + std::to_string(j), [=] {
            auto& S = *st;
            block_until([=] { return st->phase >= 1; }, "new producer");
            if (S.phase != 1) return;
            Consumer* k = nullptr;
            try { k = new Consumer("pc", "ns", false, VL::V0); k->run(); } catch (std::exception& e) { fail("a new consumer cannot connect: %s", e.what()); }
            ++S.joined;
            for (int r = 1; r <= 2; ++r) if (!k->wait_and_ack([&] { ++S.rounds; return true; })) fail("a wait of a new consumer fails");
            block_until([=] { return st->phase >= 2; }, "rounds over");
            delete k;
        });
    };
    s.stuck = [=]() -> std::string { return st->phase >= 3 || (st->phase == 2 && !crashes_injected()) ? "" : "the recovery is blocked"; };
    s.finish = [=] { outcome(st->phase * 10 + crashes_injected()); st.reset(); };
    return s;
}
}
Registry vmc::registry() {
    Registry R;
    R.scenarios = [](bool th, std::vector<Scenario>& v) {
        v.push_back(mk("producer killed during its life", {{true, "", "nrttqcx"}}, 0));
        v.push_back(mk("forced producer killed during its life", {{true, "nrtx", "frtqx"}}, 0));
        v.push_back(mk("producer killed, new one is killed, another recovers", {{true, "", "nrtx"}}, 0, 2, 0, true));
        v.push_back(mk("consumer killed during its life, producer leaves", {{true, "nrt", ""}, {false, "", "rbacrwx"}}, 0));
        v.push_back(mk("producer with an attached consumer", {{true, "nr", "tktkc"}, {false, "r", "bb"}}, th ? 4 : 2));
        v.push_back(mk("producer with an attached consumer, both killed", {{true, "nr", "tk"}, {false, "r", "bx"}}, th ? 3 : 1, 2));
        v.push_back(mk("producer with an arriving consumer", {{true, "nr", "tk"}, {false, "", "rbx"}}, th ? 3 : 2));
        v.push_back(mk("both sides start up", {{true, "", "nrtk"}, {false, "", "rb"}}, th ? 3 : 1));
        v.push_back(mk("producer with two consumers", {{true, "nr", "tq"}, {false, "r", "b"}, {false, "r", "qa"}}, th ? 2 : 1));
        v.push_back(mk("consumers arrive while the new producer starts", {{true, "", "nrt"}}, th ? 4 : 2, 1, 1));
        v.push_back(mk("two consumers arrive while the new producer starts", {{true, "n", "rt"}}, th ? 1 : 0, 1, 2));
        v.push_back(mk("a consumer arrives while the new producer starts, an old one leaves", {{true, "nr", "t"}, {false, "r", "w"}}, th ? 2 : 1, 1, 1));
    };
    return R;
}
