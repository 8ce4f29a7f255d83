// C04: a client with another element type or layout is refused and harms nobody.
// All 64 pairs: every order of the mismatched client's calls among the calls of working peers, and
// every interleaving of its attach with them.
#include "anyc.hpp"
using namespace vmc;
namespace {
struct St { Own<AnyServer> srv; Own<AnyClient> peer, odd; int ks = 0, kc = 0, phase = 0, done = 0; int last = 0, R = 2, C = 3; bool up = false, over = false; int refused = 0; };
static std::shared_ptr<St> st;

const int DIMS[][2] = {{2, 3}, {1, 1}, {1, 4}, {4, 1}, {3, 3}, {17, 5}};
std::string dname(int d) { return std::to_string(DIMS[d][0]) + "x" + std::to_string(DIMS[d][1]); }
// the mismatched (or matching) client tries to attach; checks the verdict
void try_attach(St& S) {
    bool threw = false;
    try { S.odd->attach(); } catch (std::exception&) { threw = true; }
    bool same = S.ks == S.kc;
    if (threw && same) fail("a %s client is refused by a %s server", KIND[S.kc], KIND[S.ks]);
    if (!threw && !same) fail("a %s client attaches to a %s server", KIND[S.kc], KIND[S.ks]);
    if (same && (S.odd->rows() != S.R || S.odd->cols() != S.C)) fail("an attached %s client reports %dx%d at a %dx%d server", KIND[S.kc], S.odd->rows(), S.odd->cols(), S.R, S.C);
    if (S.odd->attached() != same) fail("isAttached() is wrong after attach() of a %s client at a %s server", KIND[S.kc], KIND[S.ks]);
    if (!same) { ++S.refused; if (S.odd->put(3) || S.odd->readable()) fail("a refused %s client reads or writes", KIND[S.kc]); }
}
void verify(St& S, const char* when) {
    int att = S.odd && S.odd->attached();
    int n = S.srv->count(); if (n != 1 + att) fail("%s: client count is %d with %d attached (%s client, %s server)", when, n, 1 + att, KIND[S.kc], KIND[S.ks]);
    int r = S.srv->is(S.last); if (r != 1) fail("%s: the server %s (%s client, %s server)", when, r ? "does not read the last value written" : "is refused although nobody holds the lock", KIND[S.kc], KIND[S.ks]);
    if (!S.peer->is(S.last)) fail("%s: the working client does not read the last value written (%s client, %s server)", when, KIND[S.kc], KIND[S.ks]);
    S.srv->acquire(); if (S.peer->readable()) fail("%s: the lock is not exclusive", when); S.srv->release();
    S.peer->acquire(); if (S.srv->is(S.last) != 0) fail("%s: the lock is not exclusive", when); S.peer->release();
}
// sequential: depth calls by the odd client and the peers in every order
Scenario seq(int ks, int dim, int depth) {
    Scenario s; s.name = std::string("call orders, ") + KIND[ks] + " server " + dname(dim); s.bounds.cache = false; s.bounds.max_steps = 200000;
    s.build = [=] {
        st = std::make_shared<St>(); st->ks = ks;
        spawn("caller", [=] {
            Atomic a; St& S = *st;
            S.kc = choose(8, "kind of the other client");
            S.R = DIMS[dim][0]; S.C = DIMS[dim][1];
            S.srv.reset(make_server(ks, S.R, S.C, "t", "ns")); S.srv->run();
            S.peer.reset(make_client(ks, "t", "ns")); S.peer->attach();
            S.odd.reset(make_client(S.kc, "t", "ns"));
            u64 h = 0;
            for (int d = 0; d < depth; ++d) {
                int op = choose(8, "next call"); h = h * 9 + op + 1;
                switch (op) {
                case 0: try_attach(S); break;
                case 1: S.last = 10 + d; if (!S.srv->put(S.last)) fail("the server's write is refused (%s client, %s server)", KIND[S.kc], KIND[S.ks]); break;
                case 2: S.last = 10 + d; if (!S.peer->put(S.last)) fail("the working client's write is refused (%s client, %s server)", KIND[S.kc], KIND[S.ks]); break;
                case 3: S.odd->detach(); break;
                case 4: S.odd->close(); break;
                case 5: S.odd.reset(); S.odd.reset(make_client(S.kc, "t", "ns")); break;
                case 6: S.peer->detach(); S.peer->attach(); break;
                case 7: S.srv->stop(); S.srv->run(); break;
                }
                verify(S, "after a call");
            }
            S.odd.reset(); verify(S, "after the other client is gone");
            { Own<AnyClient> late; late.reset(make_client(ks, "t", "ns")); late->attach(); if (!late->is(S.last)) fail("a later matching client does not read the shared values"); late.reset(); }
            S.peer.reset(); S.srv.reset(); outcome(h * 8 + S.kc);
        });
    };
    s.finish = [] { st.reset(); };
    return s;
}
// concurrent: the odd client attaches while the server and the peer work
Scenario conc(int ks, int kc, int preempt, bool late, int dim) {
    Scenario s; s.name = std::string(late ? "attach during start-up, " : "attach among working peers, ") + KIND[kc] + " client, " + KIND[ks] + " server " + dname(dim); s.bounds.preempt = preempt;
    s.build = [=] {
        st = std::make_shared<St>(); st->ks = ks; st->kc = kc; st->R = DIMS[dim][0]; st->C = DIMS[dim][1];
        spawn("server", [=] {
            St& S = *st;
            if (late) { S.srv.reset(make_server(ks, S.R, S.C, "t", "ns")); S.srv->run(); }
            else { Atomic a; S.srv.reset(make_server(ks, S.R, S.C, "t", "ns")); S.srv->run(); }
            S.up = true;
            block_until([] { return st->phase >= 1 || status(1) == CRASHED; }, "peer attached");
            S.srv->count();
            bool ok = S.srv->put(11); if (ok) S.last = 11;
            ++S.done;
            block_until([] { return st->done == 3; }, "everyone done");
            { Atomic a; if (!S.srv->put(12)) fail("the server's write is refused although nobody holds the lock (%s client, %s server)", KIND[kc], KIND[ks]); S.last = 12;
              int n = S.srv->count(); int want = 1 + (ks == kc); if (n != want) fail("client count is %d with %d attached (%s client, %s server)", n, want, KIND[kc], KIND[ks]); S.over = true; }
            block_until([] { return status(1) == DONE && status(2) == DONE; }, "clients gone");
            { Atomic a; int n = S.srv->count(); if (n) fail("client count is %d after everybody left (%s client, %s server)", n, KIND[kc], KIND[ks]); S.srv.reset(); }
        });
        spawn("peer", [=] {
            St& S = *st;
            block_until([] { return st->up; }, "server up");
            if (late) { S.peer.reset(make_client(ks, "t", "ns")); S.peer->attach(); }
            else { Atomic a; S.peer.reset(make_client(ks, "t", "ns")); S.peer->attach(); }
            S.phase = 1;
            S.peer->readable(); S.peer->acquire(); S.peer->release();
            ++S.done;
            block_until([] { return st->over; }, "server checked");
            { Atomic a; if (!S.peer->is(12)) fail("the working client does not read the last value written (%s client, %s server)", KIND[kc], KIND[ks]);
              S.srv ? void() : void(); S.peer.reset(); }
        });
        spawn("other client", [=] {
            St& S = *st;
            if (!late) block_until([] { return st->phase >= 1; }, "peer attached");
            { Atomic a; S.odd.reset(make_client(kc, "t", "ns")); }
            bool threw = false;
            try { S.odd->attach(); } catch (std::exception&) { threw = true; }
            bool same = S.ks == S.kc;
            if (threw == same) fail(threw ? "a %s client is refused by a %s server" : "a %s client attaches to a %s server", KIND[S.kc], KIND[S.ks]);
            ++S.done;
            block_until([] { return st->over; }, "server checked");
            { Atomic a; S.odd.reset(); }
        });
    };
    s.finish = [] { outcome(st->last); st.reset(); };
    return s;
}
}
Registry vmc::registry() {
    Registry R;
    R.scenarios = [](bool th, std::vector<Scenario>& v) {
        for (int k = 0; k < 8; ++k) for (int d = 0; d < 6; ++d) v.push_back(seq(k, d, d ? (th ? 4 : 3) : th ? 5 : 4));
        for (int a = 0; a < 8; ++a) for (int b = 0; b < 8; ++b) for (int d = 0; d < 4; ++d) v.push_back(conc(a, b, d ? (th ? 2 : 1) : th ? 3 : 2, false, d));
        for (int a = 0; a < 8; ++a) for (int b : {a, a ^ 1, (a + 2) & 7, (a + 5) & 7}) for (int d = 0; d < 4; ++d) v.push_back(conc(a, b, d ? (th ? 2 : 1) : th ? 3 : 2, true, d));
    };
    return R;
}
