// C10: shared strings are read whole under concurrency.
#include "common.hpp"
#include <EigenIPC/StringTensor.hpp>
using namespace vmc;
namespace {
using SS = StringTensor<StrServer>; using SC = StringTensor<StrClient>; using VS = std::vector<std::string>;
struct Rec { int p; bool write, ok; int i; VS v; u_int64_t call, ret; };
std::string rstr(const Rec& o) { std::string s = "P" + std::to_string(o.p) + (o.write ? " writes" : " reads"); for (size_t k = 0; k < o.v.size(); ++k) s += " [" + std::to_string(o.i + k) + "]" + (o.v[k].size() > 12 ? o.v[k].substr(0, 4) + ".." + o.v[k].substr(o.v[k].size() - 4) + "(" + std::to_string(o.v[k].size()) + ")" : "'" + o.v[k] + "'"); return s + (o.ok ? "" : " (refused)"); }
struct St { std::unique_ptr<SS> dummy; Own<SS> s; Own<SC> c[2]; std::vector<Rec> h; int ready = 0, left = 0; bool over = false; };
std::shared_ptr<St> st;
bool lin(const std::vector<Rec>& h, VS m, u_int64_t mask) {
    u_int64_t minret = ~0ull; bool all = true;
    for (size_t i = 0; i < h.size(); ++i) if (!(mask >> i & 1) && h[i].ok) { all = false; minret = std::min(minret, h[i].ret); }
    if (all) return true;
    for (size_t i = 0; i < h.size(); ++i) {
        const Rec& o = h[i]; if (mask >> i & 1 || !o.ok || o.call > minret) continue;
        VS k = m; bool same = true;
        for (size_t x = 0; x < o.v.size(); ++x) { if (o.write) k[o.i + x] = o.v[x]; else if (k[o.i + x] != o.v[x]) { same = false; break; } }
        if (same && lin(h, k, mask | 1ull << i)) return true;
    }
    return false;
}
// program letters: W/V write of two strings (short / long), a/b write of one string at 0/1, R read of two, r/s read of one at 0/1
std::string val(int id, bool lng, int k) { std::string s(lng ? 1024 - k : 5 + (id + k) % 3, 'A' + id * 2 + k); return s; }
template <class P> bool op(P& p, int who, char o, int id, bool retry_check) {
    Rec r{who, false, false, 0, {}, 0, 0}; r.write = o == 'W' || o == 'V' || o == 'a' || o == 'b'; r.i = o == 'b' || o == 's' ? 1 : 0;
    int n = o == 'W' || o == 'V' || o == 'R' ? 2 : 1;
    for (int k = 0; k < n; ++k) r.v.push_back(r.write ? val(id, o == 'V', k) : std::string("before"));
    size_t at = st->h.size(); st->h.push_back(r); VS keep = r.v;
    event(0x100 + at); st->h[at].call = now_seq();
    bool ok = n == 2 ? (r.write ? p.write(r.v, 0) : p.read(r.v, 0)) : (r.write ? p.write(r.v[0], r.i) : p.read(r.v[0], r.i));
    event(0x200 + at + (ok << 12)); st->h[at].ret = now_seq(); st->h[at].ok = ok;
    if (!ok && r.v != keep) fail("a refused operation changed the caller's strings");
    if (!r.write) { st->h[at].v = r.v; for (auto& s : r.v) event(std::hash<std::string>()(s)); }
    else if (r.v != keep) fail("a write changed the caller's strings");
    outcome(ok);
    return ok;
}
Scenario mk(const std::string& name, std::vector<std::string> prog, int preempt) {
    Scenario s; s.name = name; s.bounds.preempt = preempt; s.bounds.max_steps = 200000; int n = prog.size();
    s.build = [=] {
        st = std::make_shared<St>();
        for (int p = 0; p < n; ++p) spawn(p ? "client" + std::to_string(p) : "server", [=] {
            auto& S = *st;
            block_until([=] { return st->ready == p; }, "turn");
            { Atomic a;
              if (p == 0) { S.s.reset(new SS(2, "t", "ns", false, VL::V0, false, true)); S.s->run(); if (!S.s->write(VS{"old zero", "old one!!"}, 0)) fail("a write without concurrency is refused"); }
              else { S.c[p - 1].reset(new SC("t", "ns", false, VL::V0, true)); S.c[p - 1]->run(); }
              ++S.ready; }
            block_until([=] { return st->ready >= n; }, "set up");
            int id = 1 + p * 4;
            for (char o : prog[p]) { if (p == 0) op(*S.s, p, o, id, false); else op(*S.c[p - 1], p, o, id, false); ++id; }
            { Atomic a; ++S.left;
              if (S.left == n) {
                auto show = [&] { std::string x; for (auto& o : S.h) x += (x.empty() ? "" : "; ") + rstr(o); return x; };
                VS init{"old zero", "old one!!"};
                if (!lin(S.h, init, 0)) fail("no order of the successful writes explains the reads: %s", show().c_str());
                for (auto& o : S.h) if (!o.ok) { bool overlap = false; for (auto& q : S.h) if (&q != &o && q.p != o.p && q.call < o.ret && o.call < q.ret) overlap = true; if (!overlap) fail("refused although nothing overlapped: %s", show().c_str()); }
                // afterwards everything works, and the list holds what the history explains
                Rec f{p, false, true, 0, {"", ""}, 0, 0}; f.call = now_seq() + 1; f.ret = f.call + 1;
                bool ok = p == 0 ? S.s->read(f.v, 0) : S.c[p - 1]->read(f.v, 0); if (!ok) fail("a read after all operations is refused");
                auto h = S.h; h.push_back(f); if (!lin(h, init, 0)) fail("the final list is not explained by the successful writes: %s; %s", show().c_str(), rstr(f).c_str());
              } }
            block_until([=] { return st->left >= n; }, "all done");
            // one after the other: an operation after refusals works as usual
            block_until([=] { return st->ready == n + p; }, "turn");
            { Atomic a; std::string q; VS v(2);
              for (int i = 0; i < 2; ++i) { std::string x = "again" + std::to_string(p * 2 + i); bool ok = p == 0 ? S.s->write(x, i) : S.c[p - 1]->write(x, i); if (!ok) fail("a later write is refused");
                std::string y; ok = p == 0 ? S.s->read(y, i) : S.c[p - 1]->read(y, i); if (!ok || y != x) fail("a later write is not read back"); }
              bool ok = p == 0 ? S.s->read(v, 0) : S.c[p - 1]->read(v, 0); if (!ok || v[0] != "again" + std::to_string(p * 2) || v[1] != "again" + std::to_string(p * 2 + 1)) fail("later writes are not read back");
              ++S.ready; }
            block_until([=] { return st->ready == 2 * n + (n - 1 - p); }, "turn to leave");
            { Atomic a; if (p) S.c[p - 1].reset(); else S.s.reset(); ++S.ready; }
        });
    };
    s.finish = [] { st.reset(); };
    return s;
}

// sequences of every length, one participant's operation met by a whole operation of another at every point of it
struct LongSt { Own<SS> s; Own<SC> c; bool up = false, both = false, started = false, done = false, over = false, ok = false, wr = false, later = false, peerw = false, one = false; int i = 0, m = 0, left = 0; };
std::shared_ptr<LongSt> ls;
std::string lval(int gen, int k) { std::string s = std::to_string(gen) + ":" + std::to_string(k) + std::string(1 + (k * 7 + gen * 5) % 23, 'a' + (k + gen * 9) % 26); if (k % 11 == 3) s.resize(gen == 1 ? 1024 : 700, '#'); return s; }
Scenario longlist(int n, bool srv_acts, int preempt, bool coarse) {
    Scenario s; s.name = "whole sequences, list of " + std::to_string(n) + (srv_acts ? ", the server acts" : ", a client acts") + (coarse ? "" : ", every access"); s.bounds.preempt = preempt; s.bounds.coarse = coarse; s.bounds.max_steps = 4000000;
    auto desc = [=] { auto& S = *ls; char x[200]; snprintf(x, 200, "%s of %d strings at %d of a list of %d by the %s, the other one %s %s", S.wr ? "write" : "read", S.m, S.i, n, srv_acts ? "server" : "client", S.peerw ? "writes" : "reads", S.one ? "one string" : "all"); return std::string(x); };
    auto actor = [=](auto& P) {
        auto& S = *ls; VS v; for (int k = 0; k < S.m; ++k) v.push_back(S.wr ? lval(1, S.i + k) : std::string("before"));
        VS keep = v; S.started = true; event(1);
        bool ok = S.wr ? P.write(v, S.i) : P.read(v, S.i);
        S.ok = ok; S.done = true; event(2 + ok);
        if ((S.wr || !ok) && v != keep) fail("the caller's strings are changed: %s", desc().c_str());
        if (!S.wr && ok) { int o = 0, p = 0; for (int k = 0; k < S.m; ++k) { bool can = S.peerw && (!S.one || S.i + k == n - 1); bool isp = can && v[k] == lval(2, S.i + k), iso = v[k] == lval(0, S.i + k);
            if (!isp && !iso) fail("a read returns a string nobody wrote: '%.60s' at %d: %s", v[k].c_str(), S.i + k, desc().c_str()); if (S.one && S.i + k != n - 1) continue; o += iso; p += isp; }
            if (o && p) fail("a read returns a mixture of two writes: %s", desc().c_str()); }
    };
    auto peer = [=](auto& P) {
        auto& S = *ls;
        if (S.later) block_until([] { return ls->started; }, "the operation begins");
        Atomic a;
        bool inside = S.started && !S.done, begun = S.started, ended = S.done; VS v; int lo = S.one ? n - 1 : 0;
        for (int k = lo; k < n; ++k) v.push_back(S.peerw ? lval(2, k) : std::string("before"));
        bool ok = S.one ? (S.peerw ? P.write(v[0], lo) : P.read(v[0], lo)) : S.peerw ? P.write(v, 0) : P.read(v, 0);
        if (!ok && !inside) fail("refused although nothing overlapped: peer of a %s", desc().c_str());
        auto in = [&](int k) { return S.wr && k >= S.i && k < S.i + S.m; };
        if (!S.peerw && ok) { int o = 0, w = 0; for (int k = lo; k < n; ++k) { bool iso = v[k - lo] == lval(0, k), isw = in(k) && v[k - lo] == lval(1, k); if (!iso && !isw) fail("a read returns a string nobody wrote: '%.60s' at %d: %s", v[k - lo].c_str(), k, desc().c_str()); if (in(k)) { o += iso; w += isw; } }
            if (o && w) fail("a read returns a mixture of two writes: %s", desc().c_str());
            if (w && !begun) fail("written before the operation: %s", desc().c_str());
            if (o && ended && S.ok) fail("a completed write is not seen: %s", desc().c_str()); }
        block_until([] { return ls->done; }, "the operation returned");
        if (!S.ok) fail("refused although nothing overlapped: %s", desc().c_str());
        VS now(n); if (!P.read(now, 0)) fail("a read after all operations is refused: %s", desc().c_str());
        bool pw = S.peerw && ok; int a1 = 0, a2 = 0;
        for (int k = 0; k < n; ++k) { bool hasp = pw && k >= lo;
            if (in(k) && hasp) { bool w = now[k] == lval(1, k), p = now[k] == lval(2, k); if (!w && !p) fail("the final list holds a string nobody wrote: '%.60s' at %d: %s", now[k].c_str(), k, desc().c_str()); a1 += w; a2 += p; }
            else if (now[k] != lval(in(k) ? 1 : hasp ? 2 : 0, k)) fail("the final list holds '%.60s' at %d: %s", now[k].c_str(), k, desc().c_str()); }
        if (a1 && a2) fail("the final list is a mixture of two writes: %s", desc().c_str());
    };
    s.build = [=] {
        ls = std::make_shared<LongSt>();
        spawn("server", [=] {
            auto& S = *ls;
            { Atomic a; S.wr = choose(2, "read or write"); S.peerw = choose(2, "the peer reads or writes"); if (!S.wr && !S.peerw) S.wr = true; S.one = choose(2, "the peer's operation: all or one"); S.later = choose(2, "the peer waits");
              std::vector<std::pair<int, int>> q; for (int i : {0, 1, n / 2}) for (int m : {n, n - 1, n / 2, 2, 1}) if (m >= 1 && i + m <= n) { std::pair<int, int> x(i, m); if (std::find(q.begin(), q.end(), x) == q.end()) q.push_back(x); }
              auto x = q[choose(q.size(), "sequence")]; S.i = x.first; S.m = x.second;
              S.s.reset(new SS(n, "t", "ns", false, VL::V0, false, true)); S.s->run(); VS v; for (int k = 0; k < n; ++k) v.push_back(lval(0, k)); if (!S.s->write(v, 0)) fail("a write without concurrency is refused"); S.up = true; }
            block_until([] { return ls->both; }, "everyone is ready");
            if (srv_acts) actor(*S.s); else peer(*S.s);
            { Atomic a; ++S.left; }
            block_until([] { return ls->over; }, "client gone");
            { Atomic a; S.s.reset(); }
        });
        spawn("client", [=] {
            auto& S = *ls;
            block_until([] { return ls->up; }, "server up");
            { Atomic a; S.c.reset(new SC("t", "ns", false, VL::V0, true)); S.c->run(); S.both = true; }
            if (srv_acts) peer(*S.c); else actor(*S.c);
            block_until([] { return ls->left; }, "server done");
            { Atomic a; S.c.reset(); S.over = true; }
        });
    };
    s.finish = [] { outcome(ls->i * 1000 + ls->m); ls.reset(); };
    return s;
}
}
Registry vmc::registry() {
    Registry R;
    R.scenarios = [](bool th, std::vector<Scenario>& v) {
        const char* two[][2] = {{"W", "R"}, {"R", "W"}, {"a", "R"}, {"W", "r"}, {"b", "s"}, {"V", "R"}, {"R", "V"}, {"W", "W"}, {"a", "W"}, {"WR", "RW"}, {"VW", "RR"}, {"RR", "VW"}, {"ab", "RR"}, {"Wa", "Rb"}, {"RR", "ab"}, {"aR", "bR"}, {"WV", "sr"}};
        for (auto& t : two) { bool lng = strlen(t[0]) > 1; v.push_back(mk(std::string("server ") + t[0] + " client " + t[1], {t[0], t[1]}, th ? -1 : lng ? 2 : -1)); }
        const char* three[][3] = {{"W", "R", "V"}, {"R", "W", "V"}, {"", "W", "R"}, {"", "V", "RR"}, {"a", "b", "R"}, {"R", "a", "b"}};
        for (auto& t : three) v.push_back(mk(std::string("server ") + t[0] + " clients " + t[1] + " " + t[2], {t[0], t[1], t[2]}, th ? 3 : 2));
        for (int w = 0; w < 2; ++w) { for (int n : {3, 17, 33, 60}) v.push_back(longlist(n, w, 1, true)); v.push_back(longlist(2, w, 1, false)); if (th) { for (int n : {1, 5, 16, 32, 48, 63}) v.push_back(longlist(n, w, 2, true)); v.push_back(longlist(4, w, 1, false)); } }
        if (th) { v.push_back(mk("server WR clients VR RW", {"WR", "VR", "RW"}, 2)); v.push_back(mk("server WVR client RRR", {"WVR", "RRR"}, 3)); }
    };
    return R;
}
