// C03: a client joins its server whichever starts first.  Every interleaving of the construction and
// start of a server with the attachment of clients, with and without earlier servers of the same name.
#include "common.hpp"
using namespace vmc;

namespace {
template <class T, int L> struct St {
    Own<Server<T, L>> srv; Own<Client<T, L>> cl[3];
    struct Run { u64 from, to; int r, c; }; std::vector<Run> runs;
    int phase = 0, nrow = 0, ncol = 0, got = 0, att = 0, in = 0; bool over = false;
};
// server program: A new 2x3, B new 3x2, r run, s stop, c close and destroy
template <class T, int L>
Scenario mk(const std::string& name, const std::string& prelude, const std::string& prog, int ncl, int preempt, bool force = false, int polls = 0, bool verbose = false) {
    Scenario s; s.name = name; s.bounds.preempt = preempt; s.bounds.max_steps += 4 * polls * ncl;
    static std::shared_ptr<St<T, L>> st;
    auto steps = [=](const std::string& pr) {
        auto& S = *st;
        for (char o : pr) switch (o) {
            case 'A': S.srv.reset(new Server<T, L>(2, 3, "t", "ns", false, VL::V0, force, true)); S.nrow = 2; S.ncol = 3; break;
            case 'B': S.srv.reset(new Server<T, L>(3, 2, "t", "ns", false, VL::V0, force, true)); S.nrow = 3; S.ncol = 2; break;
            case 'r': event(0x11); S.runs.push_back({now_seq(), ~0ull, S.nrow, S.ncol}); S.srv->run();
                      if (!S.srv->isRunning()) fail("not running after run()"); break;
            case 'p': block_until([=] { if (st->in < ncl) return false; for (int i = 1; i <= ncl; ++i) if (idle_left(i)) return false; return true; }, "the clients have polled for a long time"); break;
            case 's': S.srv->stop(); event(0x12); S.runs.back().to = now_seq(); break;
            case 'c': S.srv.reset(); event(0x13); if (!S.runs.empty() && S.runs.back().to == ~0ull) S.runs.back().to = now_seq(); break;
        }
    };
    s.build = [=] {
        st = std::make_shared<St<T, L>>();
        spawn("server", [=] {
            auto& S = *st;
            { Atomic a; steps(prelude); }
            S.runs.clear(); S.phase = 1;
            point("programs start");
            steps(prog);
            // the first values are published while clients may be joining
            Tensor<T, L> t(S.nrow, S.ncol); for (int i = 0; i < S.nrow; ++i) for (int j = 0; j < S.ncol; ++j) t(i, j) = payload<T>(5, i, j);
            TRef<T, L> ref(t);
            int tries = 0;
            while (!S.srv->write(ref, 0, 0)) {         // may be refused while a client holds the lock to join
                if (++tries > 2 * ncl) fail("a running server's write is refused %d times with %d clients joining once", tries, ncl);
                usleep(1000);
            }
            S.phase = 2;
            block_until([=] { return st->got == ncl; }, "all clients read");
            { Atomic a; int n = S.srv->getNClients(); if (n != ncl) fail("client count is %d with %d clients attached", n, ncl);
              Tensor<T, L> q(S.nrow, S.ncol); TRef<T, L> qr(q); if (!S.srv->read(qr, 0, 0)) fail("read refused although nobody holds the lock");
              T want = payload<T>(6, 0, 0); if (q(0, 0) != want) fail("what a client wrote is not what the server reads"); S.over = true; }
            block_until([=] { for (int i = 1; i <= ncl; ++i) if (status(i) != DONE) return false; return true; }, "clients gone");
            { Atomic a; S.srv.reset(); }
        });
        for (int i = 0; i < ncl; ++i) spawn("client" + std::to_string(i + 1), [=] {
            auto& S = *st;
            block_until([] { return st->phase >= 1; }, "earlier servers are gone");
            S.cl[i].reset(new Client<T, L>("t", "ns", verbose, verbose ? VL::V3 : VL::V0, true));
            event(0x20 + i); u64 call = now_seq();
            if (polls) { idle(polls); ++S.in; }
            S.cl[i]->attach();
            event(0x30 + i); u64 ret = now_seq();
            if (!S.cl[i]->isAttached()) fail("attach() returned but isAttached() is false");
            int r = S.cl[i]->getNRows(), c = S.cl[i]->getNCols(); bool any = false;
            for (auto& q : S.runs) if (q.from <= ret && q.to >= call) { any = true; if (q.r != r || q.c != c) fail("the client reports %dx%d, the server is %dx%d", r, c, q.r, q.c); }
            if (!any) fail("attach() returned although no server was running at any time during the call");
            ++S.att;
            block_until([=] { return st->phase >= 2 && st->att == ncl; }, "first values published, everybody attached");
            { Atomic a;
              if (r != S.nrow || c != S.ncol) fail("the client reports %dx%d, the server is %dx%d", r, c, S.nrow, S.ncol); }
            { Atomic a;
              Tensor<T, L> q(S.nrow, S.ncol); TRef<T, L> qr(q);
              if (!S.cl[i]->read(qr, 0, 0)) fail("read refused although nobody holds the lock");
              for (int x = 0; x < r; ++x) for (int y = 0; y < c; ++y) if (S.got == 0 && q(x, y) != payload<T>(5, x, y)) fail("the client does not read what the server wrote");
              Tensor<T, L> o(1, 1); o(0, 0) = payload<T>(6, 0, 0); TRef<T, L> orf(o);
              if (!S.cl[i]->write(orf, 0, 0)) fail("write refused although nobody holds the lock");
              ++S.got; }
            block_until([=] { return st->over; }, "server checked");
            { Atomic a; S.cl[i].reset(); }
        });
    };
    s.finish = [=] { outcome(st->runs.size()); st.reset(); };
    return s;
}

// a client joins while its server is replaced: it joins one of them or is told that it could not,
// and the new server is served as it was published
template <class T, int L>
Scenario replaced(const std::string& name, const std::string& prelude, const std::string& prog, int ncl, int preempt, bool force = false) {
    Scenario s; s.name = name; s.bounds.preempt = preempt;
    static std::shared_ptr<St<T, L>> st;
    s.build = [=] {
        st = std::make_shared<St<T, L>>();
        auto steps = [=](const std::string& pr) {
            auto& S = *st;
            for (char o : pr) switch (o) {
                case 'A': S.srv.reset(new Server<T, L>(2, 3, "t", "ns", false, VL::V0, force, true)); S.nrow = 2; S.ncol = 3; break;
                case 'B': S.srv.reset(new Server<T, L>(3, 2, "t", "ns", false, VL::V0, force, true)); S.nrow = 3; S.ncol = 2; break;
                case 'C': S.srv.reset(new Server<T, L>(1, 1, "t", "ns", false, VL::V0, force, true)); S.nrow = 1; S.ncol = 1; break;
                case 'r': S.srv->run(); break;
                case 's': S.srv->stop(); break;
                case 'c': S.srv.reset(); break;
                case 'w': { Tensor<T, L> t(S.nrow, S.ncol); t.setConstant(T(1)); TRef<T, L> f(t); int tries = 0;
                    while (!S.srv->write(f, 0, 0)) { if (++tries > 2 * ncl) fail("a running server's write is refused %d times with %d clients joining once", tries, ncl); usleep(1000); } break; }
            }
        };
        spawn("server", [=] {
            auto& S = *st;
            { Atomic a; steps(prelude); } S.phase = 1;
            steps(prog);
            S.phase = 2;
            block_until([=] { return st->att == ncl; }, "clients tried");
            { Atomic a;
              if (S.srv && S.srv->isRunning()) {
                long size = long(S.nrow) * S.ncol * sizeof(T);
                if (shm_size("/nst") != size) fail("the running server's memory has %ld bytes instead of %ld", shm_size("/nst"), size);
                Tensor<T, L> q(S.nrow, S.ncol); TRef<T, L> qr(q);
                if (!S.srv->read(qr, 0, 0)) fail("the lock of the running server is not free although nobody uses it");
                for (int i = 0; i < S.nrow; ++i) for (int j = 0; j < S.ncol; ++j) if (q(i, j) != T(1)) fail("a joining client altered the data of the server");
                Own<Client<T, L>> l; l.reset(new Client<T, L>("t", "ns", false, VL::V0, true)); l->attach();
                if (l->getNRows() != S.nrow || l->getNCols() != S.ncol) fail("a client arriving late reports %dx%d, the running server is %dx%d", l->getNRows(), l->getNCols(), S.nrow, S.ncol);
                q.setConstant(T(0)); if (!l->read(qr, 0, 0)) fail("the lock of the running server is not free although nobody uses it");
                for (int i = 0; i < S.nrow; ++i) for (int j = 0; j < S.ncol; ++j) if (q(i, j) != T(1)) fail("a client arriving late does not read the server's data");
                l.reset();
                int n = S.srv->getNClients(), want = S.got; if (n != want) fail("client count is %d with %d clients attached to the running server", n, want);
              }
              S.over = true; }
            block_until([=] { for (int i = 1; i <= ncl; ++i) if (status(i) != DONE) return false; return true; }, "clients gone");
            { Atomic a; if (S.srv && S.srv->isRunning() && S.srv->getNClients()) fail("client count is not 0 after everybody left"); S.srv.reset(); }
        });
        for (int i = 0; i < ncl; ++i) spawn("client" + std::to_string(i + 1), [=] {
            auto& S = *st;
            block_until([] { return st->phase >= 1; }, "set up");
            S.cl[i].reset(new Client<T, L>("t", "ns", false, VL::V0, true));
            for (int k = 0; ; ++k) {
                int before = S.phase; event(0x20 + i * 4 + before);
                try { S.cl[i]->attach(); event(0x80); break; }
                catch (std::exception& e) { event(0x90); if (before == 2) fail("attach() fails although only the running server is there: %s", e.what()); if (k > 2) fail("attach() fails again and again"); }
                if (S.cl[i]->isAttached()) fail("attach() raised an error but isAttached() is true");
                block_until([] { return st->phase == 2; }, "the new server is up");
            }
            int r = S.cl[i]->getNRows(), c = S.cl[i]->getNCols();
            if (!((r == 2 && c == 3) || (r == 3 && c == 2) || (r == 1 && c == 1))) fail("the client reports %dx%d, which no server ever had", r, c);
            ++S.in; block_until([=] { return st->phase == 2 && st->in == ncl; }, "the new server is up and everybody joined");
            { Atomic a; Tensor<T, L> q(r, c); TRef<T, L> f(q); if (!S.cl[i]->read(f, 0, 0)) fail("a joined client's read is refused although nobody uses the lock");
              if (r == S.nrow && c == S.ncol) { for (int x = 0; x < r; ++x) for (int y = 0; y < c; ++y) if (q(x, y) != T(1)) fail("the client does not read what the server wrote"); ++S.got; } }
            ++S.att;
            block_until([=] { return st->over; }, "server checked");
            { Atomic a; S.cl[i].reset(); }
        });
    };
    s.finish = [=] { outcome(st->got); st.reset(); };
    return s;
}
template <class T, int L> void base(std::vector<Scenario>& v, bool th, const std::string& t) {
    v.push_back(mk<T, L>(t + ": fresh server, 1 client", "", "Ar", 1, -1));
    v.push_back(mk<T, L>(t + ": earlier server of other dimensions, 1 client", "Brc", "Ar", 1, -1));
    (void)th;
}
}
Registry vmc::registry() {
    Registry R;
    R.scenarios = [](bool th, std::vector<Scenario>& v) {
        base<int, RowMajor>(v, th, "int row"); base<double, ColMajor>(v, th, "double col");
        base<float, ColMajor>(v, th, "float col"); base<bool, RowMajor>(v, th, "bool row");
        v.push_back(mk<int, RowMajor>("paused and restarted server, 1 client", "", "Arsr", 1, -1));
        v.push_back(mk<int, RowMajor>("paused and restarted server, seen by an early client", "Ars", "r", 1, -1));
        v.push_back(mk<int, RowMajor>("earlier server closed without ever running while a client waits", "", "BcAr", 1, -1));
        v.push_back(mk<int, RowMajor>("same, after a server that ran", "Brc", "BcAr", 1, -1));
        v.push_back(mk<int, RowMajor>("two earlier servers closed without ever running while a client waits", "", "AcBcAr", 1, -1));
        v.push_back(mk<int, RowMajor>("earlier server, forced new server, 1 client", "Brc", "Ar", 1, -1, true));
        v.push_back(mk<int, RowMajor>("fresh server, 2 clients", "", "Ar", 2, th ? 4 : 2));
        v.push_back(mk<int, RowMajor>("earlier server of other dimensions, 2 clients", "Brc", "Ar", 2, th ? 4 : 2));
        v.push_back(mk<double, ColMajor>("paused and restarted server, 2 clients", "", "Arsr", 2, th ? 3 : 2));
        v.push_back(replaced<int, RowMajor>("a client joins while its server is replaced", "Arw", "cBrw", 1, -1));
        v.push_back(replaced<float, RowMajor>("a client joins while its server is replaced, float", "Arw", "cBrw", 1, -1));
        v.push_back(replaced<double, ColMajor>("a client joins while its server is replaced by a smaller one", "Brw", "cCrw", 1, -1));
        v.push_back(replaced<bool, RowMajor>("a client joins while its server is replaced, never stopped", "Ars", "rcBrw", 1, -1));
        v.push_back(replaced<int, RowMajor>("2 clients join while their server is replaced", "Arw", "cBrw", 2, th ? 3 : 2));
        // patience: the client polls for minutes before the server is created, or started
        int many = th ? 1000000 : 150000;
        v.push_back(mk<int, RowMajor>("a client waits for minutes before its server is created", "", "pAr", 1, th ? 2 : 1, false, many));
        v.push_back(mk<int, RowMajor>("a client waits for minutes before its server is started", "", "Apr", 1, th ? 2 : 1, false, many));
        v.push_back(mk<double, ColMajor>("a client waits for minutes, after an earlier server", "Brc", "pAr", 1, 0, false, many));
        v.push_back(mk<int, RowMajor>("two clients wait for a minute", "", "pAr", 2, 0, false, many / 2));
        if (th) {
            v.push_back(mk<int, RowMajor>("earlier server closed without ever running, 2 clients wait", "Brc", "BcAr", 2, 3));
            v.push_back(mk<int, RowMajor>("paused and restarted twice", "Brc", "Arsrsr", 1, -1));
            v.push_back(mk<bool, ColMajor>("fresh server, 3 clients", "", "Ar", 3, 2));
        }
    };
    return R;
}
