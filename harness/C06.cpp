// C06: only one server runs per name and a contender cannot disturb it.
#include "succ.hpp"
#include "anyc.hpp"
namespace {
struct Span { int who; u64 from, to; };
struct St { AnyServer* s[3] = {}; AnyClient* c[2] = {}; std::vector<Span> run; std::vector<Span> busy; int done = 0, ready = 0; bool over = false; int last[3] = {}; std::string log[3]; };
struct Srv { int kind, r, c; std::string pre, prog; bool alone = false; };   // alone: its calls must not fail
// server programs: n new, N new with a second attempt, r run, s stop, c close, d destroy, w write, R read, q count
Scenario mk(const std::string& name, std::vector<Srv> srv, std::vector<std::string> cl, int preempt, bool winner = false) {
    Scenario s; s.name = name; s.bounds.preempt = preempt; s.bounds.timeout = 1; s.bounds.max_steps = 60000;
    static std::shared_ptr<St> st; int ns = srv.size(), nc = cl.size(), n = ns + nc;
    auto busy_during = [](int who, u64 from) { for (auto& b : st->busy) if (b.who != who && b.to >= from) return true; return false; };
    auto exec = [=](int i, char o, bool conc) {
        auto& S = *st; auto& D = srv[i]; std::string nm = "s";
        size_t b = S.busy.size(); event(0x10 + i); S.busy.push_back({i, now_seq(), ~0ull});
        auto close_run = [&] { for (auto& x : S.run) if (x.who == i && x.to == ~0ull) x.to = now_seq(); };
        bool threw = false; std::string what; u64 from = now_seq();
        auto clean = [&] { for (auto& x : S.run) if (x.who != i && x.to >= from) fail("server %d runs while server %d runs as well", i, x.who); };
        try {
            switch (o) {
            case 'n': S.s[i] = make_server(D.kind, D.r, D.c, "t", "ns"); S.log[i] += 'n'; break;
            case 'N': if (!S.s[i]) { S.s[i] = make_server(D.kind, D.r, D.c, "t", "ns"); S.log[i] += 'N'; } break;
            case 'r': if (S.s[i]) { bool was = S.s[i]->running(); S.s[i]->run(); event(0x30 + i); if (!S.s[i]->running()) fail("not running after run()");
                      if (!was) { from = now_seq(); clean(); S.run.push_back({i, now_seq(), ~0ull}); } S.log[i] += 'r'; } break;
            case 's': if (S.s[i]) { close_run(); event(0x40 + i); S.s[i]->stop(); } break;
            case 'c': if (S.s[i]) { close_run(); event(0x50 + i); S.s[i]->close(); } break;
            case 'd': if (S.s[i]) { close_run(); event(0x60 + i); delete S.s[i]; S.s[i] = nullptr; } break;
            case 'w': if (S.s[i] && S.s[i]->running()) { bool ok = S.s[i]->put(20 + i); if (ok) S.last[i] = 20 + i;
                      if (!ok && !busy_during(i, from)) fail("a write of the running server is refused although nobody else is active"); } break;
            case 'R': if (S.s[i] && S.s[i]->running()) { int r = S.s[i]->is(S.last[i]); if (r < 0 && nc == 0) fail("the running server does not read back what it wrote (another server disturbed it)");
                      if (r == 0 && !busy_during(i, from)) fail("a read of the running server is refused although nobody else is active"); } break;
            }
        } catch (std::exception& e) { threw = true; what = e.what(); }
        event((threw ? 0x90 : 0x70) + i); S.busy[b].to = now_seq();
        if (threw && (!conc || D.alone)) fail("%c of server %d fails: %s", o, i, what.c_str());
    };
    s.build = [=] {
        st = std::make_shared<St>();
        for (int i = 0; i < ns; ++i) spawn(std::string("server") + char('A' + i), [=] {
            auto& S = *st;
            block_until([=] { return st->ready == i; }, "turn");
            { Atomic a; for (char o : srv[i].pre) exec(i, o, false); }
            ++S.ready;
            block_until([=] { return st->ready == n; }, "set up");
            for (char o : srv[i].prog) exec(i, o, true);
            ++S.done;
            if (i == 0) {
                block_until([=] { return st->done == n; }, "everybody done");
                Atomic a;
                int up = -1; for (int k = 0; k < ns; ++k) if (S.s[k] && S.s[k]->running()) { if (up >= 0) fail("two servers are running"); up = k; }
                if (winner && up < 0) fail("no server runs in the end");
                if (up >= 0) {
                    int cnt = 0; for (int k = 0; k < nc; ++k) cnt += S.c[k] && S.c[k]->attached();
                    AnyClient* l = make_client(srv[up].kind, "t", "ns"); l->attach();
                    if (l->rows() != srv[up].r || l->cols() != srv[up].c) fail("a client arriving late reports %dx%d, the running server is %dx%d", l->rows(), l->cols(), srv[up].r, srv[up].c);
                    if (!S.last[up] || nc == 0) { if (!l->is(S.last[up])) fail("a client arriving late does not read the data of the running server"); }
                    int got = 0; (void)got;
                    if (!l->put(9)) fail("the lock of the running server is not free although nobody uses it");
                    delete l; S.log[0] += char('0' + up); S.last[up] = 9; observe(cnt);
                }
                S.over = true;
            }
            block_until([=] { return st->over; }, "checked");
            { Atomic a;
              if (S.s[i] && S.s[i]->running()) { if (S.s[i]->is(9) != 1) fail("the running server does not read what its client wrote");
                  int cnt = 0; for (int k = 0; k < nc; ++k) cnt += S.c[k] && S.c[k]->attached();
                  int q = S.s[i]->count(); if (q != cnt) fail("the running server counts %d clients, %d are attached", q, cnt);
                  S.s[i]->acquire(); S.s[i]->release(); } }
            ++S.done;
            block_until([=] { return st->done >= n + ns; }, "all servers checked");
            if (i == 0) {
                block_until([=] { for (int k = 1; k < n; ++k) if (status(k) != DONE) return false; return true; }, "everybody else gone");
                Atomic a; delete S.s[0]; S.s[0] = nullptr;
                for (auto& nme : list_names()) if (nme.compare(0, 4, "shm:") == 0 && nme.find(MemDef::isSrvrRunningName()) == std::string::npos) fail("after all servers are gone the name %s still exists", nme.c_str());
                AnyServer* f = make_server(0, 1, 1, "t", "ns"); f->run();       // the name can be used again
                if (!f->put(3)) fail("a new server is not functional after all others are gone");
                delete f;
            } else { Atomic a; delete S.s[i]; S.s[i] = nullptr; }
        });
        for (int k = 0; k < nc; ++k) spawn("client" + std::to_string(k), [=] {
            auto& S = *st; int w = ns + k;
            block_until([=] { return st->ready == w; }, "turn");
            { Atomic a; S.c[k] = make_client(srv[0].kind, "t", "ns"); if (cl[k][0] == 'A') S.c[k]->attach(); }
            ++S.ready;
            block_until([=] { return st->ready == n; }, "set up");
            for (size_t q = 1; q < cl[k].size(); ++q) {
                size_t b = S.busy.size(); event(0x110 + k); u64 from = now_seq(); S.busy.push_back({w, from, ~0ull}); bool ok = true;
                switch (cl[k][q]) {
                case 'w': ok = S.c[k]->put(40 + k); break;
                case 'r': ok = S.c[k]->readable(); break;
                case 'a': S.c[k]->attach(); if (S.c[k]->rows() != srv[0].r || S.c[k]->cols() != srv[0].c) fail("the client joins with other dimensions"); break;
                case 'd': S.c[k]->detach(); break;
                }
                event(0x120 + k); S.busy[b].to = now_seq();
                if (!ok && !busy_during(w, from)) fail("an operation of an attached client is refused although nobody else is active");
            }
            ++S.done;
            block_until([=] { return st->done >= n + ns; }, "all servers checked");
            Atomic a;
            if (S.s[0] && S.s[0]->running() && S.c[k]->attached() && !S.c[k]->is(9)) fail("clients of the running server do not share its data");
            delete S.c[k]; S.c[k] = nullptr;
        });
    };
    s.finish = [=] { outcome(std::hash<std::string>()(st->log[0] + "|" + st->log[1] + "|" + st->log[2])); st.reset(); };
    return s;
}
}
Registry vmc::registry() {
    Registry R;
    R.scenarios = [](bool th, std::vector<Scenario>& v) {
        succ::add<int, RowMajor>(v, "histories of two servers, int row", th ? 7 : 5, false);
        succ::add<int, RowMajor>(v, "histories of two servers, the first running, int row", th ? 6 : 4, true);
        succ::add<double, ColMajor>(v, "histories of two servers, the first running, double col", th ? 5 : 3, true);
        int U = -1;
        v.push_back(mk("contender while the server works", {{4, 2, 2, "nrw", "wR", true}, {4, 2, 2, "", "nr"}}, {}, U));
        v.push_back(mk("contender of other type and shape while the server works", {{4, 2, 2, "nrw", "wR", true}, {3, 3, 1, "", "nr"}}, {}, U));
        v.push_back(mk("contender retrying while the server works", {{4, 2, 1, "nrw", "wR", true}, {2, 1, 3, "", "nNr"}}, {}, th ? U : 4));
        v.push_back(mk("contender while the client works", {{4, 1, 2, "nrw", "", true}, {2, 3, 1, "", "nr"}}, {"Awr"}, U));
        v.push_back(mk("contender while server and client work", {{4, 1, 1, "nrw", "w", true}, {0, 3, 1, "", "nr"}}, {"Aw"}, th ? 5 : 3));
        v.push_back(mk("contender while a client arrives and leaves", {{4, 1, 2, "nrw", "", true}, {0, 2, 1, "", "nr"}}, {".ad"}, th ? U : 4));
        v.push_back(mk("two servers from scratch", {{4, 2, 1, "", "nrw"}, {4, 1, 2, "", "nrw"}}, {}, U, true));
        v.push_back(mk("two servers after an earlier one", {{4, 2, 1, "nrd", "nr"}, {2, 1, 2, "", "nr"}}, {}, U, true));
        v.push_back(mk("two servers of different types from scratch", {{1, 2, 1, "", "nr"}, {6, 1, 2, "", "nr"}}, {}, U, true));
        v.push_back(mk("three servers from scratch", {{4, 1, 1, "", "nr"}, {4, 1, 2, "", "nr"}, {4, 2, 1, "", "nr"}}, {}, th ? 4 : 2, true));
        v.push_back(mk("paused server resumes while another is created", {{4, 2, 1, "nrws", "r"}, {4, 1, 2, "", "nr"}}, {}, U));
        v.push_back(mk("server pauses and resumes while another is created", {{4, 2, 1, "nrw", "srw"}, {4, 1, 2, "", "nr"}}, {}, th ? U : 5));
        v.push_back(mk("paused server closes while another is created", {{4, 2, 1, "nrws", "c"}, {4, 1, 2, "", "nrw"}}, {}, U));
        v.push_back(mk("paused server closes while another is created, with retry", {{4, 2, 1, "nrws", "d"}, {4, 1, 2, "", "nNr"}}, {}, th ? U : 5));
        v.push_back(mk("running server closes while another is created", {{4, 2, 1, "nrw", "c"}, {4, 1, 2, "", "nrw"}}, {}, U));
        v.push_back(mk("running server closes while another is created, with retry", {{4, 2, 1, "nrw", "d"}, {4, 1, 2, "", "nNr"}}, {}, th ? U : 5));
        v.push_back(mk("server never run closes while another is created", {{4, 2, 1, "n", "c"}, {4, 1, 2, "", "nNr"}}, {}, th ? U : 5));
        v.push_back(mk("paused server resumes and closes while another is created", {{4, 2, 1, "nrs", "rc"}, {4, 1, 2, "", "nr"}}, {}, th ? U : 5));
        v.push_back(mk("two servers replace a paused one", {{4, 2, 1, "nrs", "r"}, {4, 1, 2, "", "nr"}, {4, 1, 1, "", "nr"}}, {}, th ? 3 : 2));
    };
    return R;
}
