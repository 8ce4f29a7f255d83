// C27: rounds of a producer and its consumers hand data over whole, in both directions, without any lock:
// the producer writes the commands, triggers, collects the acknowledgements and reads the results; a consumer
// waits, reads the commands, writes its row of the results and acknowledges.
#include "common.hpp"
#include <EigenIPC/StringTensor.hpp>
#include <EigenIPC/Producer.hpp>
#include <EigenIPC/Consumer.hpp>
using namespace vmc;
namespace {
struct Cfg {
    std::string prod, cons[4];       // per round: producer k collect, K timed until it succeeds; consumer w wait/ack, W timed, b wait_and_ack, B timed
    int nc = 1, preempt = -1, timeouts = 0, spurious = 0, eintr = 0; bool safe = false, strings = false, arrival = false, block = false;
};
template <class T, int L> struct St {
    Own<Producer> p; Own<Server<T, L>> cmd, obs; Own<StringTensor<StrServer>> say;
    struct C { Own<Consumer> c; Own<Client<T, L>> cmd, obs; Own<StringTensor<StrClient>> hear; } c[4];
    int up = 0, joined = 0, done = 0, busy = 0; bool over = false;
};
template <class T> T val(int round, int k) { return std::is_same<T, bool>::value ? T((round + k) & 1) : T(round * 10 + k + 1); }
std::string word(int round) { return std::string(round % 2 ? 5 : 2, 'a' + round); }
template <class T, int L> Scenario mk(const std::string& name, Cfg g) {
    Scenario s; s.name = name + " " + TN<T>::n() + "-" + LN(L); s.bounds.preempt = g.preempt; s.bounds.timeout = g.timeouts; s.bounds.spurious = g.spurious; s.bounds.eintr = g.eintr; s.bounds.max_steps = 80000;
    auto sp = std::make_shared<std::shared_ptr<St<T, L>>>(); int nc = g.nc;
    s.build = [=] {
        *sp = std::make_shared<St<T, L>>(); auto* S = sp->get();
        spawn("producer", [=] {
            auto start = [&] {
                S->cmd.reset(new Server<T, L>(2, 1, "cmd", "ns", false, VL::V0, false, g.safe)); S->cmd->run();
                S->obs.reset(new Server<T, L>(nc, 2, "obs", "ns", false, VL::V0, false, g.safe)); S->obs->run();
                if (g.strings) { S->say.reset(new StringTensor<StrServer>(1, "say", "ns", false, VL::V0, false, g.safe)); S->say->run(); }
                S->p.reset(new Producer("pc", "ns", false, VL::V0, false)); S->p->run(); ++S->up;
            };
            if (g.arrival) start(); else { Atomic a; start(); }
            block_until([=] { return S->joined == nc; }, "consumers joined");
            for (size_t r = 1; r <= g.prod.size(); ++r) {
                Tensor<T, L> c(2, 1), o(nc, 2); c(0, 0) = val<T>(r, 0); c(1, 0) = val<T>(r, 1);
                auto view = helpers::createViewFrom<T, L>(c, 0, 0, 2, 1);
                if (r % 2 ? !S->cmd->write(TRef<T, L>(c), 0, 0) : !S->cmd->write(view, 0, 0)) fail("the commands of round %zu are refused although nobody uses them", r);
                if (g.strings && !S->say->write(word(r), 0)) fail("the string of round %zu is refused although nobody uses it", r);
                event(0x100 + r); S->p->trigger();
                if (g.prod[r - 1] == 'k') { if (!S->p->wait_ack_from(nc, -1)) fail("collecting without timeout reports failure"); } else while (!S->p->wait_ack_from(nc, 5)) {}
                event(0x200 + r);
                if (S->busy) fail("the acknowledgements of round %zu are collected while a consumer still works", r);
                o.setConstant(T(0)); TRef<T, L> ro(o); if (!S->obs->read(ro, 0, 0)) fail("the results of round %zu are refused although nobody uses them", r);
                for (int i = 0; i < nc; ++i) for (int k = 0; k < 2; ++k) if (o(i, k) != val<T>(r, i + k + 2)) fail("after collecting round %zu the result (%d,%d) is %g instead of %g", r, i, k, (double)o(i, k), (double)val<T>(r, i + k + 2));
            }
            block_until([=] { return S->done == nc; }, "consumers done");
            { Atomic a; S->p.reset(); S->cmd.reset(); S->obs.reset(); S->say.reset(); S->over = true; }
        });
        for (int i = 0; i < nc; ++i) spawn("consumer" + std::to_string(i), [=] {
            auto& C = S->c[i];
            auto start = [&] {
                C.cmd.reset(new Client<T, L>("cmd", "ns", false, VL::V0, g.safe)); C.cmd->attach(); C.obs.reset(new Client<T, L>("obs", "ns", false, VL::V0, g.safe)); C.obs->attach();
                if (g.strings) { C.hear.reset(new StringTensor<StrClient>("say", "ns", false, VL::V0, g.safe)); C.hear->run(); }
                C.c.reset(new Consumer("pc", "ns", false, VL::V0)); C.c->run(); ++S->joined;
            };
            if (g.arrival) start(); else { block_until([=] { return S->up; }, "producer up"); Atomic a; start(); }
            for (size_t r = 1; r <= g.cons[i].size(); ++r) {
                int works = 0;
                auto work = [&] {
                    ++works; ++S->busy; event(0x300 + r * 8 + i);
                    Tensor<T, L> c(2, 1), o(1, 2); c.setConstant(T(0)); TRef<T, L> rc(c);
                    if (!C.cmd->read(rc, 0, 0)) fail("consumer %d is refused the commands of round %zu although nobody writes them", i, r);
                    for (int k = 0; k < 2; ++k) if (c(k, 0) != val<T>(r, k)) fail("consumer %d reads %g as command %d of round %zu instead of %g", i, (double)c(k, 0), k, r, (double)val<T>(r, k));
                    if (g.strings) { std::string q = "?"; if (!C.hear->read(q, 0) || q != word(r)) fail("consumer %d reads '%s' as string of round %zu", i, q.c_str(), r); }
                    for (int k = 0; k < 2; ++k) o(0, k) = val<T>(r, i + k + 2);
                    if (!C.obs->write(TRef<T, L>(o), i, 0)) fail("the results of consumer %d in round %zu are refused", i, r);
                    event(0x400 + r * 8 + i); --S->busy; return true;
                };
                switch (g.cons[i][r - 1]) {
                case 'w': if (!C.c->wait(-1)) fail("a wait without timeout reports failure"); work(); if (!C.c->ack()) fail("ack() fails"); break;
                case 'W': while (!C.c->wait(5)) {} work(); if (!C.c->ack()) fail("ack() fails"); break;
                case 'b': if (!C.c->wait_and_ack(work, -1)) fail("wait_and_ack() without timeout reports failure"); break;
                case 'B': while (!C.c->wait_and_ack(work, 5)) {} break;
                }
                if (works != 1) fail("consumer %d works %d times in round %zu", i, works, r);
            }
            event(0x500 + i); ++S->done; block_until([=] { return S->over; }, "over");
            { Atomic a; C.c.reset(); C.cmd.reset(); C.obs.reset(); C.hear.reset(); }
        });
    };
    s.finish = [=] { outcome((*sp)->done); sp->reset(); };
    return s;
}
}
Registry vmc::registry() {
    Registry R;
    R.scenarios = [](bool th, std::vector<Scenario>& v) {
        auto two = [](const char* p, std::vector<std::string> c, int pre) { Cfg g; g.prod = p; g.nc = c.size(); for (size_t i = 0; i < c.size(); ++i) g.cons[i] = c[i]; g.preempt = pre; return g; };
        Cfg g = two("kk", {"ww"}, -1); v.push_back(mk<int, RowMajor>("wait and ack", g));
        g = two("kk", {"bb"}, -1); v.push_back(mk<double, ColMajor>("wait_and_ack", g));
        g = two("KkK", {"wBW"}, th ? -1 : 5); g.timeouts = 2; v.push_back(mk<int, ColMajor>("timed", g));
        g = two("kK", {"bW"}, th ? -1 : 5); g.timeouts = 1; g.spurious = 2; v.push_back(mk<float, RowMajor>("spurious wake-ups", g));
        g = two("kk", {"wb"}, th ? -1 : 6); g.safe = true; v.push_back(mk<int, RowMajor>("safe accesses", g));
        g = two("kk", {"bw"}, th ? 4 : 2); g.safe = g.strings = true; v.push_back(mk<int, RowMajor>("safe accesses with strings", g));
        g = two("kk", {"wb"}, th ? 4 : 2); g.strings = true; v.push_back(mk<bool, RowMajor>("strings", g));
        g = two("kk", {"wb", "bw"}, th ? 4 : 2); v.push_back(mk<int, RowMajor>("2 consumers", g)); v.push_back(mk<float, ColMajor>("2 consumers", g));
        g = two("kK", {"WB", "bw"}, th ? 3 : 1); g.timeouts = 1; v.push_back(mk<double, RowMajor>("2 consumers, timed", g));
        g = two("k", {"w", "b"}, th ? 6 : 3); v.push_back(mk<int, ColMajor>("2 consumers, one round", g));
        g = two("kk", {"ww", "bb", "wb"}, th ? 1 : 0); v.push_back(mk<int, RowMajor>("3 consumers", g));
        g = two("k", {"w"}, th ? 4 : 2); g.arrival = true; v.push_back(mk<int, RowMajor>("starting up", g));
        g = two("k", {"b", "w"}, th ? 2 : 1); g.arrival = true; v.push_back(mk<int, RowMajor>("2 consumers, starting up", g));
        std::string k(th ? 400 : 100, 'k'), w(th ? 400 : 100, 'w'); g = two(k.c_str(), {w}, 0); v.push_back(mk<int, RowMajor>("many rounds", g));
    };
    return R;
}
