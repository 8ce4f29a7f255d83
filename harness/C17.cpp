// C17: groups of participants under different names never interfere.
#include "anyc.hpp"
#include <EigenIPC/StringTensor.hpp>
#include <EigenIPC/Producer.hpp>
#include <EigenIPC/Consumer.hpp>
using namespace vmc;
namespace {
using NP = std::pair<std::string, std::string>;      // name space, name
const char* KN[] = {"tensor", "string list", "producer"};
struct G {                                           // one group, a self-checking script
    NP n; int kind, side; std::string label, other;
    [[noreturn]] void bad(const std::string& m) { fail("%s next to %s: %s", label.c_str(), other.c_str(), m.c_str()); }
    void need(bool ok, const char* m) { if (!ok) bad(m); }
    template <class F> void step(const char* w, bool whole, F f) {
        point(w);
        try { if (whole) { Atomic a; f(); } else f(); } catch (std::exception& e) { bad(std::string(w) + " fails: " + e.what()); }
    }
    void tensor(bool whole) {
        int k = side ? 3 : 4, r = side ? 3 : 2, c = side ? 1 : 2, v = side ? 5 : 1;
        std::unique_ptr<AnyServer> s; std::unique_ptr<AnyClient> q;
        step("create", whole, [&] { s.reset(make_server(k, r, c, n.second, n.first)); });
        step("run", whole, [&] { s->run(); });
        step("initial value", whole, [&] { need(s->is(0) == 1, "the server does not start with zeros"); });
        step("attach", whole, [&] { q.reset(make_client(k, n.second, n.first)); q->attach(); need(q->rows() == r && q->cols() == c, "the client reports other dimensions than its server"); });
        step("write", whole, [&] { need(s->put(v), "a write of the server is refused"); });
        step("read", whole, [&] { need(q->is(v), "the client does not read what its server wrote"); });
        step("lock", whole, [&] { q->acquire(); });
        step("refused", whole, [&] { need(s->is(v) == 0, "the lock of the client does not exclude its server"); });
        step("unlock", whole, [&] { q->release(); });
        step("count", whole, [&] { need(s->count() == 1, "the client count is not 1"); });
        step("client writes", whole, [&] { need(q->put(v + 1), "a write of the client is refused"); });
        step("server reads", whole, [&] { need(s->is(v + 1) == 1, "the server does not read what its client wrote"); });
        step("detach", whole, [&] { q->detach(); need(s->count() == 0, "the client count is not 0"); });
        step("stop", whole, [&] { s->stop(); });
        step("stopped", whole, [&] { need(!s->running() && s->is(v + 1) == 0, "a stopped server reads"); });
        step("run again", whole, [&] { s->run(); });
        step("attach again", whole, [&] { q->attach(); need(q->rows() == r && q->cols() == c, "the client reports other dimensions than its server"); });
        step("read again", whole, [&] { need(q->is(v + 1) && s->is(v + 1) == 1, "the data changed while the server was stopped"); });
        step("client leaves", whole, [&] { q.reset(); need(s->count() == 0, "the client count is not 0"); });
        step("close", whole, [&] { s.reset(); });
    }
    void strings(bool whole) {
        using SS = StringTensor<StrServer>; using SC = StringTensor<StrClient>;
        std::unique_ptr<SS> s; std::unique_ptr<SC> q; std::string t, a = side ? "left one" : "right", b = side ? "x" : "yy";
        int len = side ? 1 : 2;
        step("create", whole, [&] { s.reset(new SS(len, n.second, n.first, false, VL::V0, false, true)); });
        step("run", whole, [&] { s->run(); });
        step("join", whole, [&] { q.reset(new SC(n.second, n.first, false, VL::V0, true)); q->run(); need(q->getLength() == len, "the list client reports another length than its server"); });
        step("initial value", true, [&] { t = "?"; need(q->read(t, 0) && t.empty(), "the list does not start empty"); });
        step("write", true, [&] { need(s->write(a, 0), "a write of a string is refused"); });
        step("read", true, [&] { need(q->read(t, 0) && t == a, "the string client does not read what its server wrote"); });
        step("client writes", true, [&] { need(q->write(b, len - 1), "a write of a string is refused"); });
        step("server reads", true, [&] { need(s->read(t, len - 1) && t == b, "the string server does not read what its client wrote"); });
        step("count", whole, [&] { need(s->getNClients() == 1, "the client count of the list is not 1"); });
        step("close", whole, [&] { q.reset(); s.reset(); });
    }
    void prodcons(bool whole) {
        std::unique_ptr<Producer> p; std::unique_ptr<Consumer> q;
        step("create", whole, [&] { p.reset(new Producer(n.second, n.first, false, VL::V0, false)); });
        step("run", whole, [&] { p->run(); });
        step("join", whole, [&] { q.reset(new Consumer(n.second, n.first, false, VL::V0)); q->run(); });
        step("no trigger", true, [&] { need(!q->wait(5), "a consumer is woken without a trigger of its producer"); });
        for (int r = 0; r < 1 + side; ++r) {
            step("trigger", whole, [&] { p->trigger(); });
            step("wait", true, [&] { need(q->wait(5), "a consumer does not get the trigger of its producer"); });
            step("no ack", true, [&] { need(!p->wait_ack_from(1, 5), "a producer collects an acknowledgement which its consumer did not give"); });
            step("ack", whole, [&] { need(q->ack(), "an acknowledgement fails"); });
            step("collect", true, [&] { need(p->wait_ack_from(1, 5), "a producer does not get the acknowledgement of its consumer"); });
        }
        step("close", whole, [&] { q.reset(); p.reset(); });
    }
    void run(bool whole) { if (kind == 0) tensor(whole); else if (kind == 1) strings(whole); else prodcons(whole); }
};
std::string show(const NP& p) { auto cut = [](const std::string& s) { return s.size() > 40 ? s.substr(0, 20) + "..(" + std::to_string(s.size()) + ")" : s; }; return "(\"" + cut(p.first) + "\",\"" + cut(p.second) + "\")"; }
std::vector<NP> names() {
    std::vector<NP> v = {{"n", "t"}, {"n", "u"}, {"m", "t"}, {"", "t"}, {"", "n"}, {"t", "n"}, {"n", "T"}, {"n", "t2"}, {"n", "t_"}, {"n_", "t"}, {"n", "tt"}, {"nn", "t"}, {"a", "bc"}, {"ab", "c"},
        {"n", "t_data"}, {"n", "data"}, {"n", "t_dataSem"}, {"n", "t_srvrSem"}, {"n", "t_isSrvrRunning"}, {"n", "t_clientsCount"}, {"n", "t_sharedTensorNRows"}, {"n", "tTrigger"}, {"n", "tAck"}, {"n", "Trigger"}, {"n", "CondVar"},
        {"n", "with space"}, {"n", "with.dot"}, {"n", "\xc3\xa9"}, {std::string(30, 'n'), std::string(120, 't')}, {std::string(30, 'n'), std::string(119, 't') + "u"}};
    return v;
}
// pairs of names which are explored on their own (see KNOWN_FINDINGS.txt)
std::vector<std::pair<NP, NP>> delicate(int ka, int kb) {
    std::vector<std::pair<NP, NP>> v = {{{"a", "bc"}, {"ab", "c"}}};
    if (ka < 2 && kb < 2) for (auto x : {"t_isSrvrRunning", "t_clientsCount", "t_sharedTensorNRows"}) v.push_back({{"n", "t"}, {"n", x}});
    if (ka < 2 && kb == 2) { for (auto x : {"tTrigger", "tAck"}) v.push_back({{"n", x}, {"n", "t"}}); v.push_back({{"n", "Trigger"}, {"", "n"}}); }
    return v;
}
bool is_delicate(const NP& a, const NP& b, int ka, int kb) {
    for (auto& d : delicate(ka, kb)) if ((d.first == a && d.second == b) || (d.first == b && d.second == a && !(ka < 2 && kb == 2 && d.first.first == "n"))) return true;
    return false;
}
Scenario mk(const std::string& name, int ka, int kb, bool whole, int part, int parts, int preempt, const std::pair<NP, NP>* one = nullptr) {
    Scenario s; s.name = name; s.bounds.preempt = preempt; s.bounds.max_steps = 200000;
    struct St { int pick = -1; }; static std::shared_ptr<St> st;
    auto nm = names(); std::vector<std::pair<int, int>> pairs;
    int k = 0;
    if (one) { nm = {one->first, one->second}; pairs = {{0, 1}}; }
    else for (size_t i = 0; i < nm.size(); ++i) for (size_t j = 0; j < nm.size(); ++j) if (i != j && (ka != kb || i < j) && !is_delicate(nm[i], nm[j], ka, kb)) if (k++ % parts == part) pairs.push_back({(int)i, (int)j});
    s.build = [=] {
        st = std::make_shared<St>();
        for (int side = 0; side < 2; ++side) spawn(side ? "B" : "A", [=] {
            if (!side) { Atomic a; st->pick = choose(pairs.size(), "names"); }
            block_until([] { return st->pick >= 0; }, "names");
            auto p = pairs[st->pick]; G g; g.n = nm[side ? p.second : p.first]; g.kind = side ? kb : ka; g.side = side;
            g.label = std::string(KN[g.kind]) + " " + show(g.n); g.other = std::string(KN[side ? ka : kb]) + " " + show(nm[side ? p.first : p.second]);
            outcome(st->pick);
            g.run(whole);
        });
    };
    s.stuck = [=]() -> std::string { auto p = pairs[st->pick]; return std::string(KN[ka]) + " " + show(nm[p.first]) + " next to " + KN[kb] + " " + show(nm[p.second]) + " block each other"; };
    s.finish = [] { st.reset(); };
    return s;
}
}
Registry vmc::registry() {
    Registry R;
    R.scenarios = [](bool th, std::vector<Scenario>& v) {
        for (int a = 0; a < 3; ++a) for (int b = a; b < 3; ++b) {
            int parts = 2;
            for (int p = 0; p < parts; ++p) v.push_back(mk(std::string(KN[a]) + " and " + KN[b] + ", step by step, part " + std::to_string(p), a, b, true, p, parts, -1));
            for (auto& d : delicate(a, b)) v.push_back(mk(std::string(KN[a]) + " " + show(d.first) + " and " + KN[b] + " " + show(d.second), a, b, true, 0, 1, 1, &d));
            if (th) for (int p = 0; p < 8; ++p) v.push_back(mk(std::string(KN[a]) + " and " + KN[b] + ", every access, part " + std::to_string(p), a, b, false, p, 8, 2));
        }
    };
    return R;
}
