// The caller's data in every arrangement, and every read and write form executed while a peer
// reads, writes or takes the lock at every point of it.
#pragma once
#include "common.hpp"
#include <limits>
namespace forms {
const int NFORM = 8;
static const char* FORM[] = {"reference", "reference to a block", "reference, default position", "view", "view with padding", "view with inner stride", "view of a block", "view with swapped strides"};
template <class T, int L> struct Caller {          // the caller's data in one of the arrangements
    int form, h, w; long inner, outer, off, n; T* buf; Tensor<T, L> t;
    Caller(int f, int h, int w) : form(f), h(h), w(w), off(0) {
        int in = L == RowMajor ? w : h, out = L == RowMajor ? h : w;
        switch (f) {
        case 1: case 6: t.resize(h + 2, w + 2); inner = 1; outer = in + 2; off = outer + 1; n = (h + 2) * (w + 2); buf = t.data(); return;
        case 4: inner = 1; outer = in + 2; break;
        case 5: inner = 2; outer = 2 * in + 1; break;
        case 7: inner = out + 1; outer = 1; break;
        default: inner = 1; outer = in;
        }
        n = (in - 1) * inner + (out - 1) * outer + 1; t.resize(1, n); buf = t.data();
        if (f == 0 || f == 2) { t.resize(h, w); buf = t.data(); }
    }
    T& at(int a, int b) { return buf[off + (L == RowMajor ? a * outer + b * inner : b * outer + a * inner)]; }
    template <class P> bool go(P& p, bool write, int i, int j) {
        switch (form) {
        case 0: { TRef<T, L> r(t); return write ? p.write(r, i, j) : p.read(r, i, j); }
        case 1: { TRef<T, L> r(t.block(1, 1, h, w)); return write ? p.write(r, i, j) : p.read(r, i, j); }
        case 2: { TRef<T, L> r(t); return write ? p.write(r) : p.read(r); }
        case 6: { auto v = helpers::createViewFrom<T, L>(t, 1, 1, h, w); return write ? p.write(v, i, j) : p.read(v, i, j); }
        default: { TensorView<T, L> v(buf, h, w, DStrides(outer, inner)); return write ? p.write(v, i, j) : p.read(v, i, j); }
        }
    }
};
// values: old contents, what the operation writes, what the peer writes
template <class T> T vold(int k) { return T(k + 1); }
template <class T> T vnew(int k) { return T(-k - 1); }
template <class T> T vpeer(int k) { return T(k + 1000); }
template <> inline bool vold<bool>(int) { return false; }
template <> inline bool vnew<bool>(int) { return true; }
template <> inline bool vpeer<bool>(int) { return true; }

struct Blk { int i, j, h, w; };
inline std::vector<Blk> blocks(int R, int C, bool all) {
    std::vector<Blk> v;
    if (all) { for (int i = 0; i < R; ++i) for (int j = 0; j < C; ++j) for (int h = 1; i + h <= R; ++h) for (int w = 1; j + w <= C; ++w) v.push_back({i, j, h, w}); return v; }
    v = {{0, 0, R, C}};
    auto add = [&](int i, int j, int h, int w) { if (h < 1 || w < 1 || i < 0 || j < 0 || i + h > R || j + w > C) return; for (auto& b : v) if (b.i == i && b.j == j && b.h == h && b.w == w) return; v.push_back({i, j, h, w}); };
    add(0, 0, 1, 1); add(R - 1, C - 1, 1, 1); add(R / 2, 0, 1, C); add(0, C / 2, R, 1); add(0, 0, R - 1, C); add(1, 0, R - 1, C); add(0, 0, R, C - 1); add(0, 1, R, C - 1); add(1, 1, R - 2, C - 2);
    return v;
}
enum Act { PEER_READS, PEER_WRITES, PEER_LOCKS };
template <class T, int L> struct St {
    vmc::u64 dummy = 0; Own<Server<T, L>> s; Own<Client<T, L>> c, raw; bool up = false, both = false, over = false, done = false, started = false, ok = false; int left = 0;
    int form = 0, bi = 0; bool wr = false, later = false;
};
// acts: bit set of peer actions; who acts (server or client) and who interferes
template <class T, int L>
vmc::Scenario mk(const std::string& name, int R, int C, bool all, int acts, bool srv_acts, int preempt, bool coarse = false, int onlyform = -1, bool loud = false) {
    using namespace vmc;
    Scenario s; s.name = name; s.bounds.preempt = preempt; s.bounds.coarse = coarse; s.bounds.max_steps = 400000;
    static std::shared_ptr<St<T, L>> st;
    auto B = std::make_shared<std::vector<Blk>>(blocks(R, C, all));
    auto desc = [=] { auto& S = *st; const Blk& b = (*B)[S.bi]; char x[200]; snprintf(x, 200, "%s of the %dx%d block at %d,%d of a %dx%d %s %s tensor by the %s (%s)", S.wr ? "write" : "read", b.h, b.w, b.i, b.j, R, C, TN<T>::n(), LN(L), srv_acts ? "server" : "client", FORM[S.form]); return std::string(x); };
    auto idx = [=](int a, int b) { return a * C + b; };
    // the raw contents, without any access of the library
    auto raw = [=](Tensor<T, L>& t) { t.resize(R, C); shm_bytes_of("/nst", 0, t.data(), sizeof(T) * R * C); };
    auto actor = [=](auto& P) {
        auto& S = *st; const Blk b = (*B)[S.bi];
        Caller<T, L> c(S.form, b.h, b.w); for (int a = 0; a < b.h; ++a) for (int d = 0; d < b.w; ++d) c.at(a, d) = S.wr ? vnew<T>(idx(b.i + a, b.j + d)) : vnew<T>(7);
        S.started = true; event(1);
        bool ok = c.go(P, S.wr, b.i, b.j);
        S.ok = ok; S.done = true; event(2 + ok);
        if (!S.wr) {                      // what was read: all old, or (if the peer wrote) all of the peer's
            int o = 0, p = 0, k = 0;
            for (int a = 0; a < b.h; ++a) for (int d = 0; d < b.w; ++d) { T v = c.at(a, d); int q = idx(b.i + a, b.j + d); o += v == vold<T>(q); p += v == vpeer<T>(q); k += v == vnew<T>(7); event(u64(v)); }
            int n = b.h * b.w;
            if (!ok && k != n) fail("a refused operation changed the caller's data: %s", desc().c_str());
            if (ok && o != n && !((S.dummy == 1 + PEER_WRITES) && p == n)) fail(S.dummy == 1 + PEER_LOCKS ? "a read made while a participant held the lock returns what it was writing: %s" : "a read returns a mixture: %s", desc().c_str());
        }
    };
    auto peer = [=](auto& P) {
        auto& S = *st; const Blk b = (*B)[S.bi]; int act = S.dummy - 1;
        auto whole = [&](bool write, Tensor<T, L>& t) { TRef<T, L> r(t); return write ? P.write(r, 0, 0) : P.read(r, 0, 0); };
        Tensor<T, L> t(R, C);
        if (S.later) block_until([] { return st->started; }, "the operation begins");
        if (act == PEER_LOCKS) {
            bool before;
            P.dataSemAcquire(); Atomic a;
            before = !S.started;
            Tensor<T, L> snap, now; raw(snap);
            int o = 0, n = 0; for (int x = 0; x < R; ++x) for (int y = 0; y < C; ++y) { bool in = x >= b.i && x < b.i + b.h && y >= b.j && y < b.j + b.w; if (!in) { if (snap(x, y) != vold<T>(idx(x, y))) fail("an element outside the block was changed: %s", desc().c_str()); continue; }
                o += snap(x, y) == vold<T>(idx(x, y)); n += snap(x, y) == vnew<T>(idx(x, y)); }
            if (o != b.h * b.w && !(S.wr && n == b.h * b.w)) fail("a participant that got the lock finds half of a block: %s", desc().c_str());
            // while the lock is held nothing changes, and what is written is not seen by anybody
            for (int x = 0; x < R; ++x) for (int y = 0; y < C; ++y) t(x, y) = vpeer<T>(idx(x, y));
            { TRef<T, L> r(t); if (!S.raw->write(r, 0, 0)) fail("a write without locking is refused"); }
            block_until([] { return st->done; }, "the operation returned");
            raw(now); if (now != t) fail("the tensor is changed while a participant holds the lock: %s", desc().c_str());
            if (before && S.ok) fail("succeeds although another participant holds the lock: %s", desc().c_str());
            if (S.ok && S.wr && n != b.h * b.w) fail("a write appears to succeed but is not there: %s", desc().c_str());
            { TRef<T, L> r(snap); S.raw->write(r, 0, 0); }
            P.dataSemRelease();
        } else {
            Atomic a;
            for (int x = 0; x < R; ++x) for (int y = 0; y < C; ++y) t(x, y) = act == PEER_READS ? vpeer<T>(3) : vpeer<T>(idx(x, y));
            bool inside = S.started && !S.done, done = S.done;
            bool ok = whole(act == PEER_WRITES, t);
            if (!ok && !inside) fail("refused although nothing overlapped: peer of a %s", desc().c_str());
            if (act == PEER_READS && ok) {
                int o = 0, n = 0; for (int x = 0; x < R; ++x) for (int y = 0; y < C; ++y) { bool in = x >= b.i && x < b.i + b.h && y >= b.j && y < b.j + b.w; if (!in) { if (t(x, y) != vold<T>(idx(x, y))) fail("an element outside the block was changed: %s", desc().c_str()); continue; }
                    o += t(x, y) == vold<T>(idx(x, y)); n += t(x, y) == vnew<T>(idx(x, y)); }
                int k = b.h * b.w;
                if (o != k && n != k) fail("a read overlapping another operation returns part of it: %s", desc().c_str());
                if (done && S.wr && S.ok && n != k) fail("a completed operation is not seen: %s", desc().c_str());
                if (!S.started && o != k) fail("the tensor is changed before the operation: %s", desc().c_str());
            }
            block_until([] { return st->done; }, "the operation returned");
            if (!S.ok) fail("refused although nothing overlapped: %s", desc().c_str());
            Tensor<T, L> now; raw(now);       // the final contents are those of one of the two orders
            bool p = act == PEER_WRITES && ok; int o = 0, n = 0, q = 0, k = b.h * b.w;
            for (int x = 0; x < R; ++x) for (int y = 0; y < C; ++y) { bool in = x >= b.i && x < b.i + b.h && y >= b.j && y < b.j + b.w; T base = p ? vpeer<T>(idx(x, y)) : vold<T>(idx(x, y));
                if (!in) { if (now(x, y) != base) fail("the final tensor is not explained by any order: %s", desc().c_str()); continue; }
                n += now(x, y) == vnew<T>(idx(x, y)); q += now(x, y) == base; (void)o; }
            if (S.wr ? n != k && !(p && q == k) : q != k) fail("the final tensor is not explained by any order: %s", desc().c_str());
        }
    };
    s.build = [=] {
        st = std::make_shared<St<T, L>>();
        spawn("server", [=] {
            auto& S = *st;
            { Atomic a;
              std::vector<int> av; for (int k = 0; k < 3; ++k) if (acts >> k & 1) av.push_back(k);
              S.dummy = 1 + av[choose(av.size(), "the peer")]; S.wr = choose(2, "read or write"); S.later = choose(2, "peer waits"); S.form = onlyform >= 0 ? onlyform : choose(NFORM, "call form"); S.bi = choose(B->size(), "block");
              const Blk& b = (*B)[S.bi]; if (S.form == 2 && (b.i || b.j)) S.form = 0;
              S.s.reset(new Server<T, L>(R, C, "t", "ns", loud, loud ? VL::V3 : VL::V0, false, true)); S.s->run();
              Tensor<T, L> t(R, C); for (int x = 0; x < R; ++x) for (int y = 0; y < C; ++y) t(x, y) = vold<T>(idx(x, y)); TRef<T, L> r(t); if (!S.s->write(r, 0, 0)) fail("refused"); S.up = true; }
            block_until([] { return st->both; }, "everyone is ready");
            if (srv_acts) actor(*S.s); else peer(*S.s);
            { Atomic a; ++S.left; }
            block_until([] { return st->over; }, "client gone");
            { Atomic a; Tensor<T, L> t(R, C); TRef<T, L> r(t); if (!S.s->read(r, 0, 0)) fail("the lock is not free afterwards: %s", desc().c_str());
              if (!S.s->write(r, 0, 0)) fail("the lock is not free afterwards: %s", desc().c_str()); S.s.reset(); }
        });
        spawn("client", [=] {
            auto& S = *st;
            block_until([] { return st->up; }, "server up");
            { Atomic a; S.c.reset(new Client<T, L>("t", "ns", loud, loud ? VL::V3 : VL::V0, true)); S.c->attach(); S.raw.reset(new Client<T, L>("t", "ns", false, VL::V0, false)); S.raw->attach(); S.both = true; }
            if (srv_acts) peer(*S.c); else actor(*S.c);
            block_until([] { return st->left; }, "server done");
            { Atomic a; S.raw.reset(); S.c.reset(); S.over = true; }
        });
    };
    s.finish = [=] { outcome((u64(st->bi) * 8 + st->form) * 8 + st->wr * 4 + st->dummy); st.reset(); };
    return s;
}
// the usual set for one property
template <class T, int L>
void add(std::vector<vmc::Scenario>& v, int acts, bool th, bool full) {
    std::string t = std::string(TN<T>::n()) + " " + LN(L) + " ";
    auto one = [&](int R, int C, bool all, int pre, bool coarse) {
        for (int w = 0; w < 2; ++w) v.push_back(mk<T, L>("every form, " + t + std::to_string(R) + "x" + std::to_string(C) + (w ? ", the server acts" : ", a client acts"), R, C, all, acts, w, pre, coarse));
    };
    one(1, 1, true, 2, false); one(1, 3, true, 2, false); one(3, 1, true, 2, false); one(2, 2, true, 2, false);
    one(2, 3, true, full || th ? 2 : 1, false); one(1, 40, false, 1, true); one(40, 1, false, 1, true); one(9, 9, false, 1, true);
    if (full || th) { one(3, 3, true, 1, false); one(20, 20, false, 1, true); one(3, 70, false, 1, true); }
    if (th) { one(3, 3, true, 2, false); one(2, 3, false, 3, false); one(4, 4, true, 1, false); one(100, 40, false, 1, true); }
}
}
