// C09: strings survive the round trip and never spill.
#include "common.hpp"
#include "jobs.hpp"
#include <EigenIPC/StringTensor.hpp>
#include <climits>
using namespace vmc;
namespace {
using SS = StringTensor<StrServer>; using SC = StringTensor<StrClient>; using VS = std::vector<std::string>;
std::string show(const std::string& s) {
    std::string o = "\"" ; for (size_t i = 0; i < s.size() && i < 12; ++i) { char b[8]; unsigned char c = s[i]; snprintf(b, 8, c < 32 || c > 126 ? "\\x%02x" : "%c", c); o += b; }
    return o + "\"(" + std::to_string(s.size()) + " bytes)";
}
std::string fillstr(int n, int seed) { std::string s(n, 0); for (int i = 0; i < n; ++i) s[i] = 1 + (unsigned)(i * 37 + seed * 101 + i / 4) % 255; return s; }
struct List {                                     // a list with its server and two clients, and the reference
    SS s; SC a, b; int n; VS ref;
    List(int n, bool safe) : s(n, "t", "ns", false, VL::V0, false, safe), a("t", "ns", false, VL::V0, safe), b("t", "ns", false, VL::V0, safe), n(n), ref(n) {
        s.run(); a.run(); b.run(); if (a.getLength() != n || s.getLength() != n) fail("a list of %d strings reports %d / %d", n, s.getLength(), a.getLength());
    }
    static bool okstr(const std::string& x) { return x.size() <= 1024; }
    static bool wr(SS& p, const std::string& x, int i) { return p.write(x, i); }
    bool w1(int who, const std::string& x, int i) { std::string k = x; bool r = who == 0 ? s.write(x, i) : who == 1 ? a.write(x, i) : b.write(x, i); if (k != x) fail("a write changed the caller's string"); return r; }
    bool wv(int who, const VS& x, int i) { return who == 0 ? s.write(x, i) : who == 1 ? a.write(x, i) : b.write(x, i); }
    bool r1(int who, std::string& x, int i) { return who == 0 ? s.read(x, i) : who == 1 ? a.read(x, i) : b.read(x, i); }
    bool rv(int who, VS& x, int i) { return who == 0 ? s.read(x, i) : who == 1 ? a.read(x, i) : b.read(x, i); }
    void write(int who, const std::string& x, int i) {
        bool fits = okstr(x) && i >= 0 && i < n, ok = w1(who, x, i);
        if (ok != fits) fail(ok ? "%s at %d is accepted" : "%s at %d is refused", show(x).c_str(), i);
        if (ok) ref[i] = x;
    }
    void write(int who, const VS& x, int i) {
        bool fits = i >= 0 && (long)i + (long)x.size() <= n; for (auto& q : x) fits &= okstr(q);
        bool ok = wv(who, x, i);
        if (x.empty()) { if (ok && (i < 0 || i > n)) fail("an empty sequence at %d is accepted", i); return; }
        if (ok != fits) fail(ok ? "%d strings at %d are accepted" : "%d strings at %d are refused", (int)x.size(), i);
        if (ok) for (size_t k = 0; k < x.size(); ++k) ref[i + k] = x[k];
    }
    void check_reads(int who, bool forms) {
        for (int i = 0; i < n; ++i) { std::string q = "before"; if (!r1(who, q, i)) fail("a read at %d is refused", i); if (q != ref[i]) fail("participant %d reads %s at %d instead of %s", who, show(q).c_str(), i, show(ref[i]).c_str()); }
        if (!forms) return;
        for (int i = 0; i < n; ++i) for (int k = 1; i + k <= n; ++k) { VS v(k, "before"); if (!rv(who, v, i)) fail("a read of %d strings at %d is refused", k, i);
            for (int x = 0; x < k; ++x) if (v[x] != ref[i + x]) fail("participant %d reads %s at %d (as string %d of a sequence) instead of %s", who, show(v[x]).c_str(), i + x, x, show(ref[i + x]).c_str()); }
    }
    void check(bool forms) { for (int who = 0; who < 3; ++who) check_reads(who, forms); }
};
VS lengths(bool th) { VS v; for (int n = 0; n <= (th ? 40 : 17); ++n) v.push_back(fillstr(n, n)); for (int n : {255, 256, 257, 511, 512, 513, 1019, 1020, 1021, 1022, 1023, 1024}) v.push_back(fillstr(n, n)); return v; }
void bytes(PlainResult& r, int part, bool th) {
    Enum E{r};
    std::vector<int> pos; for (int p = 0; p < 9; ++p) pos.push_back(p); for (int p = 1017; p < 1024; ++p) pos.push_back(p);
    for (int p : pos) { if (p % 4 != part) continue; E.world([&] {
        int c = 0; E.desc = [&] { return "byte " + std::to_string(c) + " at position " + std::to_string(p); };
        List l(2, true); l.write(0, "neighbour", 1); HeapGuard g;
        for (c = 1; c < 256; ++c) for (int tail = 0; tail < 4; ++tail) {
            std::string x(p + 1 + tail > 1024 ? 1024 : p + 1 + tail, 'a'); x[p] = (char)c;
            l.write(c % 3, x, 0); for (int w = 0; w < 3; ++w) l.check_reads(w, false); E.hit(true);
        }
    }); }
}
void longlists(PlainResult& r, bool th) {          // every index, and sequences of every length from both ends and around the middle
    Enum E{r};
    for (int n : {5, 16, 17, 33, 64, th ? 250 : 100}) for (int safe = 0; safe < 2; ++safe) E.world([&] {
        int i = 0, k = 0; E.desc = [&] { return std::to_string(k) + " strings at " + std::to_string(i) + " of a list of " + std::to_string(n); };
        List l(n, safe); HeapGuard g;
        auto look = [&] { for (int who = 0; who < 3; ++who) { VS v(n, "before"); if (!l.rv(who, v, 0)) fail("a read of the whole list is refused"); for (int x = 0; x < n; ++x) if (v[x] != l.ref[x]) fail("participant %d reads %s at %d instead of %s", who, show(v[x]).c_str(), x, show(l.ref[x]).c_str());
            int x = (i + who + n) % n; std::string q = "before"; if (!l.r1(who, q, x) || q != l.ref[x]) fail("participant %d reads %s at %d instead of %s", who, show(q).c_str(), x, show(l.ref[x]).c_str()); } E.hit(true); };
        for (i = 0; i < n; ++i) { k = 1; l.write(i % 3, fillstr((i * 131) % 1025, i), i); if (n < 40 || i % 7 == 0 || i > n - 4) look(); }
        for (i = -1; i <= n; i += n < 40 || i < 1 || i > n - 3 ? 1 : 6) for (int kk : {1, 2, 3, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, n - 1, n, n + 1}) { k = kk; if (k < 1 || k > n + 1) continue; VS v; for (int q = 0; q < k; ++q) v.push_back(fillstr((q * 57 + i + 3 * k) % 40 + (q % 9 == 4 ? 980 : 0), q + k)); l.write((i + k) % 3 < 0 ? 0 : (i + k) % 3, v, i); if (n < 40 || k % 3 == 0) look(); }
        look();
    });
}
void words(PlainResult& r, bool th) {              // every short string over the delicate bytes
    Enum E{r};
    const unsigned char A[] = {1, 'z', 127, 128, 255};
    for (int n = 0; n <= (th ? 7 : 5); ++n) E.world([&] {
        long i = 0; std::string x(n, 0); E.desc = [&] { return "string " + show(x); };
        List l(2, true); HeapGuard g; long N = 1; for (int k = 0; k < n; ++k) N *= 5;
        for (i = 0; i < N; ++i) { long q = i; for (int k = 0; k < n; ++k, q /= 5) x[k] = A[q % 5]; l.write(i % 3, x, i & 1); l.check_reads((i / 3) % 3, false); E.hit(true); }
        l.check(true);
    });
}
void pairs(PlainResult& r, bool th, bool safe, bool seq) { // every pair of successive values, in every place of the list
    Enum E{r}; VS v = lengths(th);
    for (int i = 0; i < 3; ++i) for (int who = 0; who < 3; ++who) E.world([&] {
        int x = 0, y = 0; E.desc = [&] { return "participant " + std::to_string(who) + " stores " + show(v[y]) + " at " + std::to_string(i) + " over " + show(v[x]) + (seq ? " as a sequence" : ""); };
        List l(3, safe); HeapGuard g; l.write(1, VS{"first", "second", "the third"}, 0);
        for (x = 0; x < (int)v.size(); ++x) for (y = 0; y < (int)v.size(); ++y) {
            l.write((who + 1) % 3, v[x], i);
            if (seq) l.write(who, i == 2 ? VS{v[y]} : VS{v[y], v[x]}, i); else l.write(who, v[y], i);
            l.check_reads((who + x) % 3, false); E.hit(true);
        }
        l.check(true);
    });
}
void limits(PlainResult& r, bool th) {              // what has to be refused
    Enum E{r};
    for (int n = 1; n <= 4; ++n) for (int safe = 0; safe < 2; ++safe) E.world([&] {
        std::string what; E.desc = [&] { return "list of " + std::to_string(n) + ": " + what; };
        List l(n, safe); HeapGuard g; VS init; for (int k = 0; k < n; ++k) init.push_back(fillstr(k == 0 ? 1024 : 3 + k, k + 5)); l.write(0, init, 0);
        auto raw = [&] { std::string s(256 * n * 4, 0); shm_bytes_of("/nst", 0, &s[0], s.size()); return s; };
        std::string before = raw();
        std::vector<int> idx; for (int i = -3; i <= n + 2; ++i) idx.push_back(i); for (int i : {INT_MIN, INT_MIN + 1, -256, 255, 256, INT_MAX - 1, INT_MAX}) idx.push_back(i);
        VS X; for (int k : {0, 1, 5, 1024, 1025, 1026, 1028, 1029, 2048, 5000}) X.push_back(fillstr(k, k + 9));
        for (int who = 0; who < 3; ++who) for (int i : idx) {
            for (auto& x : X) { what = "participant " + std::to_string(who) + " writes " + show(x) + " at " + std::to_string(i); VS keep = l.ref; l.write(who, x, i);
                if (l.ref != keep) { l.check_reads((who + 1) % 3, false); l.write(0, init, 0); } if (raw() != before) fail("the list was changed"); E.hit(i >= 0 && i < n); }
            for (int k = 0; k <= n + 2; ++k) for (int bad = -1; bad < k; ++bad) for (size_t big : {1025ul, 4000ul}) {
                what = "participant " + std::to_string(who) + " writes " + std::to_string(k) + " strings at " + std::to_string(i) + (bad >= 0 ? ", number " + std::to_string(bad) + " too long" : ""); VS v; for (int q = 0; q < k; ++q) v.push_back(q == bad ? fillstr(big, 1) : fillstr(7 + q, q));
                VS keep = l.ref; l.write(who, v, i); if (l.ref != keep) { l.check_reads((who + 1) % 3, true); l.write(0, init, 0); } if (raw() != before) fail("the list was changed"); E.hit(bad < 0); }
            { what = "participant " + std::to_string(who) + " reads at " + std::to_string(i); std::string q = "before"; bool in = i >= 0 && i < n, ok = l.r1(who, q, i); if (ok != in) fail(ok ? "accepted" : "refused");
              if (!ok && q != "before") fail("a refused read changed the caller's string"); if (ok && q != l.ref[i]) fail("wrong string"); E.hit(ok); }
            for (int k = 0; k <= n + 2; ++k) { what = "participant " + std::to_string(who) + " reads " + std::to_string(k) + " strings at " + std::to_string(i); VS q(k, "before"); bool in = i >= 0 && (long)i + k <= n, ok = l.rv(who, q, i);
                if (k == 0) { if (ok && (i < 0 || i > n)) fail("accepted"); continue; }
                if (ok != in) fail(ok ? "accepted" : "refused"); if (!ok) for (auto& s : q) if (s != "before") fail("a refused read changed the caller's strings");
                if (ok) for (int z = 0; z < k; ++z) if (q[z] != l.ref[i + z]) fail("wrong string"); E.hit(ok); }
            if (raw() != before) fail("the list was changed");
        }
        what = "afterwards"; l.check(true);
    });
}
// every history of writes by every participant; all of them read everything after each step
void histories(PlainResult& r, int depth, int n) {
    Enum E{r};
    struct Op { int who, i; VS v; bool one; };
    std::vector<Op> A; VS X{"", "abcd", "abcde\xff", fillstr(1024, 3)};
    for (int who = 0; who < 3; ++who) {
        for (int i = 0; i < n; ++i) for (auto& x : X) A.push_back({who, i, {x}, true});
        for (int i = 0; i < n; ++i) { A.push_back({who, i, {X[1], X[2]}, false}); A.push_back({who, i, {X[2], X[3]}, false}); }
        A.push_back({who, n, {X[1]}, true}); A.push_back({who, 0, {std::string(1030, 'q')}, true}); A.push_back({who, 0, {X[1], std::string(1025, 'q')}, false});
    }
    long N = 1; for (int d = 0; d < depth; ++d) N *= A.size();
    long per = A.size() * 8;
    for (long base = 0; base < N; base += per) E.world([&] {
        std::string h; E.desc = [&] { return h; };
        List l(n, true);
        for (long k = base; k < N && k < base + per; ++k) {
            h.clear(); long q = k; for (int i = 0; i < n; ++i) if (!l.ref[i].empty()) l.write(0, std::string(), i);
            for (int d = 0; d < depth; ++d, q /= A.size()) { const Op& o = A[q % A.size()];
                h += "P" + std::to_string(o.who) + " writes " + (o.one ? "" : "sequence ") + show(o.v[0]) + " at " + std::to_string(o.i) + "; ";
                if (o.one) l.write(o.who, o.v[0], o.i); else l.write(o.who, o.v, o.i);
                l.check_reads((o.who + 1) % 3, d == depth - 1); if (d == depth - 1) { l.check_reads(o.who, true); l.check_reads((o.who + 2) % 3, false); } }
            E.hit(true);
        }
    });
}
}
Registry vmc::registry() {
    Registry R;
    R.jobs = [](bool th, std::vector<PlainJob>& v) {
        for (int p = 0; p < 4; ++p) v.push_back({"every byte at positions " + std::to_string(p) + " modulo 4", [=](PlainResult& r) { bytes(r, p, th); }});
        v.push_back({"every short string over delicate bytes", [=](PlainResult& r) { words(r, th); }});
        for (int safe = 0; safe < 2; ++safe) for (int seq = 0; seq < 2; ++seq)
            v.push_back({std::string("every pair of successive values") + (seq ? ", sequences" : "") + (safe ? ", safe" : ", unsafe"), [=](PlainResult& r) { pairs(r, th, safe, seq); }});
        v.push_back({"everything which has to be refused", [=](PlainResult& r) { limits(r, th); }});
        v.push_back({"long lists", [=](PlainResult& r) { longlists(r, th); }});
        v.push_back({"every history of writes", [=](PlainResult& r) { histories(r, 2, 2); }});
        v.push_back({"every history of writes, longer", [=](PlainResult& r) { histories(r, th ? 3 : 2, th ? 2 : 3); }});
    };
    return R;
}
