// Programs of one producer and several consumers. Used by C11 and C12.
//
// A producer program is a sequence of: t trigger; T trigger once every consumer took the previous one;
// k collect (blocking) from `n`; K collect with timeout, repeated until it succeeds (when the program says it must);
// q collect once with timeout (may fail). Digits after k/K/q: number of consumers (default: all).
// A consumer program: w wait (blocking); W timed wait, repeated until it succeeds; q one timed wait (may fail);
// b wait_and_ack (blocking); B timed wait_and_ack until it succeeds; f wait_and_ack whose function fails; a ack; x wait which must raise an error
// (several triggers missed); n wait until the producer triggered (harness), so that the trigger precedes the wait.
#pragma once
#include "common.hpp"
#include <EigenIPC/Producer.hpp>
#include <EigenIPC/Consumer.hpp>
using namespace vmc;
namespace pc {
struct Call { u64 call, ret; bool ok; };
struct St {
    Own<Producer> p; Own<Consumer> c[5];
    std::vector<Call> trig, acks; std::vector<int> taken; int registered = 0, done = 0;
    std::set<int> base;                 // possible values of the counter at the last successful collection
    int want = -1;                      // a collection in progress
    bool up = false, over = false;
};
static std::shared_ptr<St> st;
inline int started(const std::vector<Call>& v) { return v.size(); }
inline int started_before(const std::vector<Call>& v, u64 t) { int n = 0; for (auto& c : v) n += c.call < t; return n; }
inline int done_before(const std::vector<Call>& v, u64 t) { int n = 0; for (auto& c : v) n += c.ret && c.ret < t; return n; }
// exact counter at the moment, as the acknowledging side left it
inline bool collect(int n, int ms) {
    auto& S = *st; int me = self();
    event(0x3000 + n); u64 t0 = now_seq(); S.want = n;
    bool ok = S.p->wait_ack_from(n, ms);
    S.want = -1; event(0x3100 + ok); u64 t1 = now_seq();
    if (ok) {
        std::set<int> nb;
        for (int b : S.base) for (int c = std::max(b + n, done_before(S.acks, t0)); c <= started_before(S.acks, t1); ++c) nb.insert(c);
        if (nb.empty()) fail("collecting from %d consumers succeeds although only %d acknowledgements were given since the last successful collection (at %d to %d)", n, started(S.acks) - *S.base.begin(), *S.base.begin(), *S.base.rbegin());
        S.base = nb;
    } else {
        if (ms <= 0) fail("collecting without timeout reports failure");
        std::set<int> nb; int have = done_before(S.acks, timeout_seq(me));
        for (int b : S.base) if (have - b < n) nb.insert(b);
        if (nb.empty()) fail("collecting from %d consumers fails although %d acknowledgements had been given since the last successful collection when it gave up", n, have - *S.base.rbegin());
        S.base = nb;
    }
    return ok;
}
inline void trigger() { auto& S = *st; size_t k = S.trig.size(); S.trig.push_back({0, 0, false}); event(0x4000 + k); S.trig[k].call = now_seq(); S.p->trigger(); event(0x4100 + k); S.trig[k].ret = now_seq(); }
inline void took(int i, bool ok, int ms) {
    auto& S = *st;
    event(0x5000 + i * 16 + ok);
    if (ok) { ++S.taken[i]; if (S.taken[i] > started(S.trig)) fail("wait number %d of consumer %d succeeds although only %d triggers were issued", S.taken[i], i, started(S.trig)); }
    else {
        if (ms <= 0) fail("a wait without timeout reports failure");
        int have = done_before(S.trig, timeout_seq(self()));
        if (have > S.taken[i]) fail("a timed wait of consumer %d fails although trigger %d had been issued when it gave up", i, S.taken[i] + 1);
    }
}
inline bool ack(int i) {
    auto& S = *st; size_t k = S.acks.size(); S.acks.push_back({0, 0, false}); event(0x6000 + k); S.acks[k].call = now_seq();
    bool ok = S.c[i]->ack(); event(0x6100 + k); S.acks[k].ret = now_seq(); if (!ok) fail("ack() of consumer %d fails", i); return ok;
}
// early: the consumers are there (attached and opened) before anything else, else arrival is explored too
inline Scenario mk(const std::string& name, const std::string& prod, std::vector<std::string> cons, int preempt, int timeouts = 0, int spurious = 0, bool arrival = false, bool may_block = false) {
    Scenario s; s.name = name; s.bounds.preempt = preempt; s.bounds.timeout = timeouts; s.bounds.spurious = spurious; s.bounds.max_steps = 60000 + 20000 * prod.size();
    int nc = cons.size();
    s.build = [=] {
        st = std::make_shared<St>(); st->taken.assign(nc + 1, 0); st->base = {0};
        spawn("producer", [=] {
            auto& S = *st;
            auto start = [&] { S.p.reset(new Producer("pc", "ns", false, VL::V0, false)); S.p->run(); S.up = true; };
            if (arrival) start(); else { Atomic a; start(); }
            block_until([=] { return st->registered == nc; }, "consumers registered");
            for (size_t i = 0; i < prod.size(); ++i) {
                int n = nc; char o = prod[i];
                if (i + 1 < prod.size() && isdigit(prod[i + 1])) n = prod[++i] - '0';
                switch (o) {
                case 'T': block_until([=] { for (int j = 1; j <= nc; ++j) if (st->taken[j] < (int)st->trig.size()) return false; return true; }, "previous trigger taken");  // fall through
                case 't': trigger(); break;
                case 'k': collect(n, -1); break;
                case 'K': while (!collect(n, 5)) {} break;
                case 'q': collect(n, 5); break;
                case 'd': block_until([=] { return st->done == nc; }, "consumers done"); break;
                }
            }
            block_until([=] { return st->done == nc; }, "consumers done");
            if (!may_block) for (int j = 1; j <= nc; ++j) if (cons[j - 1].find('x') == std::string::npos && S.taken[j] != (int)S.trig.size()) fail("consumer %d was woken %d times by %zu triggers", j, S.taken[j], S.trig.size());
            { Atomic a; S.p.reset(); S.over = true; }
        });
        for (int i = 1; i <= nc; ++i) spawn("consumer" + std::to_string(i), [=] {
            auto& S = *st;
            auto start = [&] { S.c[i].reset(new Consumer("pc", "ns", false, VL::V0)); S.c[i]->run(); ++S.registered; };
            if (arrival) start(); else { block_until([] { return st->up; }, "producer up"); Atomic a; start(); }
            for (char o : cons[i - 1]) switch (o) {
                case 'w': took(i, S.c[i]->wait(), -1); break;
                case 'W': for (bool ok = false; !ok;) took(i, ok = S.c[i]->wait(5), 5); break;
                case 'q': took(i, S.c[i]->wait(5), 5); break;
                case 's': if (i > 1) block_until([=] { return st->taken[i - 1] > st->taken[i]; }, "the others first"); break;
                case 'a': ack(i); break;
                case 'n': block_until([=] { return done_before(st->trig, ~0ull) > st->taken[i]; }, "trigger issued"); break;
                case 'm': block_until([=] { return done_before(st->trig, ~0ull) > st->taken[i] + 1; }, "two triggers issued"); break;
                case 'x': { bool raised = false; try { S.c[i]->wait(5); } catch (std::exception&) { raised = true; } if (!raised) fail("a wait which missed more than one trigger does not raise an error"); break; }
                case 'f': case 'b': case 'B': for (bool ok = false; !ok;) {
                    int pre = 0; size_t k = 0;
                    ok = S.c[i]->wait_and_ack([&] { ++pre; took(i, true, -1); k = S.acks.size(); S.acks.push_back({0, 0, false}); event(0x6000 + k); S.acks[k].call = now_seq(); return o != 'f'; }, o != 'B' ? -1 : 5);
                    if (o == 'f') { if (ok) fail("wait_and_ack() reports success although the caller's function failed"); if (pre != 1) fail("wait_and_ack() calls its function %d times", pre); event(0x6100 + k); S.acks[k].ret = now_seq(); break; }
                    if (pre > 1) fail("wait_and_ack() calls its function %d times", pre);
                    if (ok && !pre) fail("wait_and_ack() succeeds without a trigger");
                    if (!ok && pre) fail("wait_and_ack() reports failure after a trigger");
                    if (ok) { event(0x6100 + k); S.acks[k].ret = now_seq(); } else took(i, false, o == 'b' ? -1 : 5);
                } break;
                }
            event(0x7000 + i); ++S.done;
            block_until([] { return st->over; }, "over");
            { Atomic a; S.c[i].reset(); }
        });
    };
    s.stuck = [=]() -> std::string {
        auto& S = *st;
        for (int i = 1; i <= nc; ++i) if (S.taken[i] < done_before(S.trig, ~0ull) && !may_block) return "consumer " + std::to_string(i) + " never gets trigger " + std::to_string(S.taken[i] + 1);
        if (S.want >= 0) { for (int b : S.base) if (done_before(S.acks, ~0ull) - b < S.want) return may_block ? "" : "the producer waits for acknowledgements which are never given"; return "the producer keeps waiting although all acknowledgements were given"; }
        return may_block ? "" : "blocked";
    };
    s.finish = [] { outcome(st->trig.size() * 100 + st->acks.size() * 10 + *st->base.begin()); st.reset(); };
    return s;
}
// how long timed calls take when nobody answers
inline Scenario howlong(bool acks) {
    Scenario s; s.name = acks ? "durations of timed waits for acknowledgements" : "durations of timed waits for triggers"; s.bounds.cache = false; s.bounds.max_steps = 200000;
    s.build = [=] { spawn("caller", [=] {
        Atomic a; Producer p("pc", "ns", false, VL::V0, false); p.run(); Consumer c("pc", "ns", false, VL::V0); c.run();
        for (int k = 0; k < 2; ++k) {                   // before the first round and after one
            if (acks) { durations("wait_ack_from(1)", [&](int ms) { return p.wait_ack_from(1, ms); }); c.ack(); durations("wait_ack_from(2) with one given", [&](int ms) { return p.wait_ack_from(2, ms); }); if (!p.wait_ack_from(1, 5)) fail("an acknowledgement is lost"); }
            else { durations("wait()", [&](int ms) { return c.wait(ms); }); durations("wait_and_ack()", [&](int ms) { return c.wait_and_ack([] { return true; }, ms); }); p.trigger(); if (!c.wait(5)) fail("a trigger is lost"); }
        }
    }); };
    return s;
}
// very many rounds, one call after the other: counters must not wrap, drift or give up
inline Scenario marathon(const std::string& name, int rounds, int nc, bool acks) {
    Scenario s; s.name = name; s.bounds.cache = false; s.bounds.max_steps = 2000u * rounds * (nc > 9 ? 9 : 1);
    s.build = [=] { spawn("caller", [=] {
        Atomic a; Producer p("pc", "ns", false, VL::V0, false); p.run(); std::vector<std::unique_ptr<Consumer>> c;
        for (int i = 0; i < nc; ++i) { c.emplace_back(new Consumer("pc", "ns", false, VL::V0)); c.back()->run(); }
        for (int r = 1; r <= rounds; ++r) {
            try {
                p.trigger();
                for (int i = 0; i < nc; ++i) { if (!c[i]->wait(r % 3 ? -1 : 5)) fail("consumer %d misses trigger %d", i, r); if (acks && !c[i]->ack()) fail("acknowledgement %d of consumer %d fails", r, i); }
                if (acks && !p.wait_ack_from(nc, r % 2 ? -1 : 5)) fail("the acknowledgements of round %d are not collected", r);
            } catch (std::exception& e) { fail("round %d fails: %s", r, e.what()); }
            if (r % 1000 == 0 || r < 3) { if (acks && p.wait_ack_from(1, 5)) fail("round %d: acknowledgements are collected twice", r); for (auto& q : c) if (q->wait(5)) fail("trigger %d is taken twice", r); }
        }
    }); };
    return s;
}
}
