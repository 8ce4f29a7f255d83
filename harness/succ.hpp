// Two servers of one name and a client: every sequence of calls against a reference state machine
// (who owns the name, which generation of memory each participant uses, who holds the lock).
#pragma once
#include "common.hpp"
#include <EigenIPC/MemDefs.hpp>
using namespace vmc;
namespace succ {
enum Op { NEW0, NEW1, NEWF1, RUN0, RUN1, STOP0, STOP1, CLOSE0, CLOSE1, DEL0, DEL1, W0, W1, R0, R1, CNT0, CNT1, ATT, DET, CDEL, CW, CR, NOPS };
static const char* N[] = {"A.new", "B.new", "B.new(force)", "A.run", "B.run", "A.stop", "B.stop", "A.close", "B.close", "A.destroy", "B.destroy",
    "A.write", "B.write", "A.read", "B.read", "A.count", "B.count", "client.attach", "client.detach", "client.destroy+new", "client.write", "client.read"};
struct Gen { int r, c; double val = 0; int clients = 0; int set; };
template <class T, int L> struct H {
    enum S { NONE, NEW, RUN, STOP, CLOSED };
    Own<Server<T, L>> s[2]; S ss[2] = {NONE, NONE}; int g[2] = {-1, -1};
    Own<Client<T, L>> c; bool att = false, had = false; int cg = -1;
    std::vector<Gen> gens; int current = -1; int set = -1, nsets = 0; std::vector<int> held;   // per semaphore set: NEW server holding the lock
    std::string log; int depth, first, step = 0; bool up;
    [[noreturn]] void bad(const std::string& m) { fail("%s | history: %s", m.c_str(), log.c_str()); }
    int R(int i) { return i ? 3 : 2; } int C(int i) { return i ? 2 : 3; }
    T val(int x) { return std::is_same<T, bool>::value ? T(x & 1) : T(x); }
    bool lockfree(int gen) { return held[gens[gen].set] < 0; }
    bool other_up(int i) { return ss[1 - i] == RUN || ss[1 - i] == NEW; }
    bool en(int op) {
        auto has = [&](int i) { return ss[i] != NONE; };
        switch (op) {
        case NEW0: return ss[0] == NONE; case NEW1: return ss[1] == NONE; case NEWF1: return ss[1] == NONE && !other_up(1) && set >= 0;
        case RUN0: case RUN1: case STOP0: case STOP1: case CLOSE0: case CLOSE1: case DEL0: case DEL1: return has((op - RUN0) & 1);
        case W0: case W1: case R0: case R1: return has((op - W0) & 1);
        case CNT0: case CNT1: { int i = op - CNT0; return (ss[i] == NEW) || ((ss[i] == RUN || ss[i] == STOP) && lockfree(g[i])); }
        case ATT: return !att && (ss[0] == RUN || ss[1] == RUN);
        case DET: case CDEL: return had && (!att || lockfree(cg));
        case CW: case CR: return had;
        } return false;
    }
    bool access(int op) {           // data access, checked against the model
        bool srv = op < ATT; int i = (op - W0) & 1; bool wr = op == W0 || op == W1 || op == CW;
        int gen = srv ? g[i] : cg;
        bool want = srv ? ss[i] == RUN : att;
        if (want) want = lockfree(gen);
        int r = gen < 0 ? 2 : gens[gen].r, cc = gen < 0 ? 2 : gens[gen].c;
        if (srv) { r = R(i); cc = C(i); }
        Tensor<T, L> t(r, cc); t.setConstant(val(wr ? step + 1 : 77)); TRef<T, L> f(t);
        bool ok = srv ? (wr ? s[i]->write(f, 0, 0) : s[i]->read(f, 0, 0)) : (wr ? c->write(f, 0, 0) : c->read(f, 0, 0));
        if (ok != want) bad(std::string(N[op]) + (ok ? " succeeds although it must be refused" : " is refused although nothing prevents it"));
        if (ok && wr) gens[gen].val = (double)val(step + 1);
        if (ok && !wr) for (int a = 0; a < r; ++a) for (int b = 0; b < cc; ++b) if ((double)t(a, b) != gens[gen].val)
            bad(std::string(N[op]) + " returns " + std::to_string((double)t(a, b)) + ", expected " + std::to_string(gens[gen].val));
        return ok;
    }
    void op(int o) {
        ++step; log += (log.empty() ? "" : "; ") + std::string(N[o]); note("%s", N[o]);
        bool must = false, threw = false; std::string what;
        try {
            switch (o) {
            case NEW0: case NEW1: case NEWF1: {
                int i = o == NEW0 ? 0 : 1; must = o != NEWF1 && other_up(i);
                s[i].reset(new Server<T, L>(R(i), C(i), "n", "s", false, VL::V0, o == NEWF1, true));
                if (must) break;
                if (set < 0) { set = nsets++; held.push_back(-1); }
                gens.push_back({R(i), C(i), 0, 0, set}); g[i] = current = gens.size() - 1; ss[i] = NEW; held[set] = i; break; }
            case RUN0: case RUN1: {
                int i = o - RUN0; if (ss[i] == RUN) { s[i]->run(); break; }
                must = ss[i] == CLOSED || g[i] != current;
                s[i]->run(); if (must) break;
                if (ss[i] == NEW) held[gens[g[i]].set] = -1;
                ss[i] = RUN; break; }
            case STOP0: case STOP1: { int i = o - STOP0; s[i]->stop(); if (ss[i] == RUN) ss[i] = STOP; break; }
            case CLOSE0: case CLOSE1: case DEL0: case DEL1: {
                int i = (o - CLOSE0) & 1;
                if (o < DEL0) s[i]->close(); else s[i].reset();
                if (ss[i] == NEW) held[gens[g[i]].set] = -1;
                if (ss[i] != CLOSED && g[i] == current) { current = -1; set = -1; }
                ss[i] = o < DEL0 ? CLOSED : NONE; break; }
            case W0: case W1: case R0: case R1: case CW: case CR: access(o); break;
            case CNT0: case CNT1: { int i = o - CNT0, n = s[i]->getNClients(); if (n != gens[g[i]].clients) bad(std::string(N[o]) + " is " + std::to_string(n) + " with " + std::to_string(gens[g[i]].clients) + " clients attached"); break; }
            case ATT: c->attach(); att = had = true; cg = current; ++gens[cg].clients;
                if (c->getNRows() != gens[cg].r || c->getNCols() != gens[cg].c) bad("the client reports other dimensions than those of the running server"); break;
            case DET: c->detach(); if (att) --gens[cg].clients; att = false; break;
            case CDEL: c.reset(); if (att) --gens[cg].clients; att = had = false; cg = -1; c.reset(new Client<T, L>("n", "s", false, VL::V0, true)); break;
            }
        } catch (std::exception& e) { threw = true; what = e.what(); }
        if (threw && !must) bad(std::string(N[o]) + " fails: " + what);
        if (!threw && must) bad(std::string(N[o]) + " appears to succeed although another server has the name (or it was closed)");
        for (int i = 0; i < 2; ++i) if (s[i] && s[i]->isRunning() != (ss[i] == RUN)) bad(std::string(i ? "B" : "A") + ".isRunning() is wrong");
        if (s[0] && s[1] && s[0]->isRunning() && s[1]->isRunning()) bad("two servers run at the same time");
        if (c->isAttached() != att) bad("isAttached() is wrong");
        if (shm_exists("/sn") != (current >= 0)) bad(current >= 0 ? "the memory of the current server has disappeared" : "the memory remains although its server was closed");
        if (current < 0) for (auto& n : list_names()) if (n.find(MemDef::isSrvrRunningName()) == std::string::npos) bad("after the last server was closed the name " + n + " still exists");
    }
    void go() {
        c.reset(new Client<T, L>("n", "s", false, VL::V0, true));
        if (up) { op(NEW0); op(RUN0); op(W0); op(ATT); }
        for (int d = 0; d < depth; ++d) {
            std::vector<int> v; for (int x = 0; x < NOPS; ++x) if (en(x) && (d || x == first)) v.push_back(x);
            if (v.empty()) break;
            int n = choose(v.size() + (d ? 1 : 0), "next call");
            if (n == (int)v.size()) break;
            op(v[n]);
        }
        // whoever runs now serves a client which arrives now
        for (int i = 0; i < 2; ++i) if (ss[i] == RUN) {
            log += "; late client"; Own<Client<T, L>> l; l.reset(new Client<T, L>("n", "s", false, VL::V0, true)); l->attach();
            if (l->getNRows() != R(i) || l->getNCols() != C(i)) bad("a client arriving late reports other dimensions than those of the running server");
            ++gens[g[i]].clients; op(i ? CNT1 : CNT0); --gens[g[i]].clients; l.reset();
        }
        for (int x : {W0, W1, CR, R0, R1}) if (en(x)) op(x);
        for (int x : {CDEL, DEL0, DEL1}) if (en(x)) op(x);
        c.reset(); s[0].reset(); s[1].reset();
        outcome(std::hash<std::string>()(log));
    }
};
template <class T, int L> inline void add(std::vector<Scenario>& v, const std::string& name, int depth, bool up) {
    for (int f = 0; f < NOPS; ++f) {
        if (!up && f != NEW0 && f != NEW1) continue;
        if (up && (f == NEW0 || f == ATT)) continue;
        Scenario s; s.name = name + ", first " + N[f]; s.bounds.cache = false; s.bounds.max_steps = 200000;
        s.build = [=] { spawn("caller", [=] { Atomic a; auto* h = new H<T, L>(); h->depth = depth; h->first = f; h->up = up; struct D { H<T, L>* p; ~D() { delete p; } } d{h}; h->go(); }); };
        v.push_back(s);
    }
}
}
