// C08: reading or writing a block touches exactly that block or is refused.
// Every shape, position, block size, call form and caller arrangement within the bounds, on real servers and clients.
#include "common.hpp"
#include "jobs.hpp"
#include "forms.hpp"
#include <climits>
#include <limits>
using namespace vmc;
namespace {
// value number k of pattern p
template <class T> T val(int p, int k) {
    switch (p) {
    case 0: return T(k + 1);
    case 1: return T(-3 * k - 7);
    default: { static const T x[] = {std::numeric_limits<T>::max(), std::numeric_limits<T>::lowest(), T(0), std::numeric_limits<T>::infinity(), -std::numeric_limits<T>::infinity(),
                     std::numeric_limits<T>::denorm_min(), T(-0.0), std::numeric_limits<T>::epsilon(), T(1)}; return x[k % 9]; }
    }
}
template <> bool val<bool>(int p, int k) { return p == 0 ? k & 1 : p == 1 ? (k * 5 + 2) % 3 == 0 : (k * 7 / 3) & 1; }
using forms::NFORM; using forms::FORM;
template <class T, int L> struct Caller : forms::Caller<T, L> { using forms::Caller<T, L>::Caller;
    void fill(int p, int base) { for (long k = 0; k < this->n; ++k) this->buf[k] = val<T>(p, base + k); }
};
template <class T, int L> struct Blocks {
    static void run(PlainResult& r, bool th, bool loud) {
        Enum E{r}; int M = th ? 4 : 3, NP = loud ? 1 : 3;
        for (int R = 1; R <= M; ++R) for (int C = 1; C <= M; ++C) for (int safe = loud; safe < 2; ++safe) for (int pat = 0; pat < NP; ++pat)
        E.world([&] {
            int i = 0, j = 0, h = 0, w = 0, f = 0; bool wr = false, cl = false;
            E.desc = [&] { char b[300]; snprintf(b, 300, "%s of a %dx%d block at %d,%d of a %dx%d %s %s tensor by a %s (%s, safe %d, values %d)", wr ? "write" : "read", h, w, i, j, R, C,
                TN<T>::n(), LN(L), cl ? "client" : "server", FORM[f], safe, pat); return std::string(b); };
            Server<T, L> S(R, C, "t", "ns", loud, loud ? VL::V3 : VL::V0, false, safe); S.run();
            Client<T, L> K("t", "ns", loud, loud ? VL::V3 : VL::V0, safe); K.attach();
            HeapGuard g;
            std::vector<int> pi, pj; for (int k = -2; k <= R + 1; ++k) pi.push_back(k); for (int k = -2; k <= C + 1; ++k) pj.push_back(k);
            for (int x : {INT_MIN, INT_MIN + 1, INT_MAX - 1, INT_MAX}) { pi.push_back(x); pj.push_back(x); }
            Tensor<T, L> ref(R, C), now(R, C), prev(R, C);
            auto raw = [&](Tensor<T, L>& t) { shm_bytes_of("/nst", 0, t.data(), sizeof(T) * R * C); };
            for (h = 1; h <= R + 1; ++h) for (w = 1; w <= C + 1; ++w) for (f = 0; f < NFORM; ++f) for (int pos = 0; pos < (int)(pi.size() * pj.size()); ++pos) {
                i = pi[pos / pj.size()]; j = pj[pos % pj.size()];
                if (f == 2 && (i || j)) continue;
                bool fits = i >= 0 && j >= 0 && (long)i + h <= R && (long)j + w <= C;
                for (int k = 0; k < 4; ++k) {
                    wr = k & 1; cl = k & 2;
                    // known contents
                    for (int a = 0; a < R; ++a) for (int b = 0; b < C; ++b) ref(a, b) = val<T>(pat, 40 + a * C + b);
                    { TRef<T, L> q(ref); if (!S.write(q, 0, 0)) fail("a write of the whole tensor is refused"); }
                    raw(now); if (memcmp(now.data(), ref.data(), sizeof(T) * R * C)) fail("a write of the whole tensor stores something else");
                    Caller<T, L> c(f, h, w), keep(f, h, w); c.fill(pat, 3); keep.fill(pat, 3);
                    bool ok = cl ? c.go(K, wr, i, j) : c.go(S, wr, i, j);
                    if (ok != fits) fail(ok ? "accepted although the block is not inside the tensor" : "refused although the block lies inside the tensor");
                    if (ok) for (int a = 0; a < h; ++a) for (int b = 0; b < w; ++b) { if (wr) ref(i + a, j + b) = c.at(a, b); else keep.at(a, b) = ref(i + a, j + b); }
                    raw(now);
                    if (memcmp(now.data(), ref.data(), sizeof(T) * R * C)) fail(wr && ok ? "the tensor differs from the expected one" : "the tensor was changed");
                    if (memcmp(c.buf, keep.buf, sizeof(T) * c.n)) fail(!wr && ok ? "the caller's data differs from the expected one" : "the caller's data was changed");
                    E.hit(ok);
                }
            }
            if (shm_size("/nst") != (long)sizeof(T) * R * C) fail("the shared memory has %ld bytes", shm_size("/nst"));
        });
    }
};
// larger tensors: blocks around every size at which an implementation might change its way of copying
template <class T, int L> void large(PlainResult& r, bool th) {
    Enum E{r}; std::vector<std::pair<int, int>> shapes{{1, 300}, {300, 1}, {40, 35}, {17, 64}, {65, 16}, {120, 70}}; if (th) { shapes.push_back({129, 128}); shapes.push_back({3, 5000}); shapes.push_back({5000, 3}); }
    for (auto sh : shapes) for (int safe = 0; safe < 2; ++safe) E.world([&] {
        int R = sh.first, C = sh.second, i = 0, j = 0, h = 0, w = 0, f = 0; bool wr = false, cl = false;
        E.desc = [&] { char b[300]; snprintf(b, 300, "%s of a %dx%d block at %d,%d of a %dx%d %s %s tensor by a %s (%s, safe %d)", wr ? "write" : "read", h, w, i, j, R, C, TN<T>::n(), LN(L), cl ? "client" : "server", FORM[f], safe); return std::string(b); };
        Server<T, L> S(R, C, "t", "ns", false, VL::V0, false, safe); S.run(); Client<T, L> K("t", "ns", false, VL::V0, safe); K.attach();
        HeapGuard g; Tensor<T, L> ref(R, C), now(R, C); int gen = 1;
        for (int a = 0; a < R; ++a) for (int b = 0; b < C; ++b) ref(a, b) = val<T>(0, a * C + b);
        { TRef<T, L> q(ref); if (!S.write(q, 0, 0)) fail("a write of the whole tensor is refused"); }
        auto sizes = [&](int n) { std::vector<int> v; for (int x : {n, n + 1, n - 1, 1, 2, 9, 16, 33, 64, 65}) if (x >= 1 && x <= n + 1 && std::find(v.begin(), v.end(), x) == v.end() && (th || n < 100 || x >= n - 1 || x == 1 || x == 33)) v.push_back(x); return v; };
        auto places = [&](int n, int k) { std::vector<int> v; for (int x : {0, 1, n - k, n - k + 1, n / 2}) if (std::find(v.begin(), v.end(), x) == v.end()) v.push_back(x); return v; };
        for (int H : sizes(R)) for (int W : sizes(C)) for (int x : places(R, H)) for (int y : places(C, W)) {
            if (!th && (x != 0) + (y != 0) + (H != R) + (W != C) > 3) continue;
            h = H; w = W; i = x; j = y; bool fits = i >= 0 && j >= 0 && i + h <= R && j + w <= C;
            for (f = 0; f < NFORM; ++f) { if (f == 2 && (i || j)) continue; if (!th && h * w > 500 && (f == 3 || f == 5 || f == 7) && (x + y) % 2) continue;
            for (int k = 0; k < 4; ++k) { if (!th && h * w > 300 && (k + f) % 2) continue;
                wr = k & 1; cl = k & 2; ++gen;
                Caller<T, L> c(f, h, w), keep(f, h, w); c.fill(gen % 2, gen); keep.fill(gen % 2, gen);
                bool ok = cl ? c.go(K, wr, i, j) : c.go(S, wr, i, j);
                if (ok != fits) fail(ok ? "accepted although the block is not inside the tensor" : "refused although the block lies inside the tensor");
                if (ok) for (int a = 0; a < h; ++a) for (int b = 0; b < w; ++b) { if (wr) ref(i + a, j + b) = c.at(a, b); else keep.at(a, b) = ref(i + a, j + b); }
                shm_bytes_of("/nst", 0, now.data(), sizeof(T) * R * C);
                if (memcmp(now.data(), ref.data(), sizeof(T) * R * C)) fail(wr && ok ? "the tensor differs from the expected one" : "the tensor was changed");
                if (memcmp(c.buf, keep.buf, sizeof(T) * c.n)) fail(!wr && ok ? "the caller's data differs from the expected one" : "the caller's data was changed");
                E.hit(ok);
            } }
        }
    });
}
// empty blocks never change anything
template <class T, int L> void empties(PlainResult& r) {
    Enum E{r};
    for (int R = 1; R <= 3; ++R) for (int C = 1; C <= 3; ++C) E.world([&] {
        Server<T, L> S(R, C, "t", "ns", false, VL::V0, false, true); S.run();
        Client<T, L> K("t", "ns", false, VL::V0, true); K.attach();
        HeapGuard g; Tensor<T, L> ref(R, C), now(R, C);
        for (int a = 0; a < R; ++a) for (int b = 0; b < C; ++b) ref(a, b) = val<T>(0, a * C + b);
        { TRef<T, L> q(ref); S.write(q, 0, 0); }
        for (int h = 0; h <= R; ++h) for (int w = 0; w <= C; ++w) { if (h && w) continue;
            for (int i = -2; i <= R + 1; ++i) for (int j = -2; j <= C + 1; ++j) for (int k = 0; k < 4; ++k) {
                Tensor<T, L> t(h, w); TRef<T, L> q(t);
                bool ok = k == 0 ? S.write(q, i, j) : k == 1 ? S.read(q, i, j) : k == 2 ? K.write(q, i, j) : K.read(q, i, j);
                shm_bytes_of("/nst", 0, now.data(), sizeof(T) * R * C);
                if (memcmp(now.data(), ref.data(), sizeof(T) * R * C)) fail("a %dx%d block at %d,%d of a %dx%d tensor changes it", h, w, i, j, R, C);
                if (ok && (i < 0 || j < 0 || i > R || j > C)) fail("an empty block at %d,%d outside a %dx%d tensor is accepted", i, j, R, C);
                E.hit(false);
            } }
    });
}
template <class T, int L> void views(PlainResult& r, bool th) {
    Enum E{r}; int M = th ? 5 : 4;
    for (int R = 1; R <= M; ++R) for (int C = 1; C <= M; ++C) E.world([&] {
        int i = 0, j = 0, h = 0, w = 0;
        E.desc = [&] { char b[200]; snprintf(b, 200, "view of %dx%d at %d,%d of a %dx%d %s %s tensor", h, w, i, j, R, C, TN<T>::n(), LN(L)); return std::string(b); };
        HeapGuard g; Tensor<T, L> t(R, C), keep(R, C);
        for (int k = 0; k < R * C; ++k) t.data()[k] = val<T>(0, k);
        keep = t;
        auto one = [&] {
            bool in = i >= 0 && j >= 0 && h >= 0 && w >= 0 && (long)i + h <= R && (long)j + w <= C, empty = h == 0 || w == 0, got = true;
            try {
                auto v = helpers::createViewFrom<T, L>(t, i, j, h, w);
                if (!in) fail("a view which does not lie inside the tensor is handed out");
                if (v.rows() != h || v.cols() != w) fail("the view is %dx%d", (int)v.rows(), (int)v.cols());
                for (int a = 0; a < h; ++a) for (int b = 0; b < w; ++b) if (&v(a, b) != &t(i + a, j + b)) fail("element %d,%d of the view denotes another element", a, b);
                Tensor<T, L> z(h, w); for (int k = 0; k < h * w; ++k) z.data()[k] = val<T>(1, k);
                v = z;
                for (int a = 0; a < R; ++a) for (int b = 0; b < C; ++b) { bool inside = a >= i && a < i + h && b >= j && b < j + w;
                    T want = inside ? z(a - i, b - j) : keep(a, b); if (t(a, b) != want) fail("writing through the view changes the wrong elements"); }
                t = keep;
            } catch (std::exception&) { got = false; }
            if (!got && in && !empty) fail("a view inside the tensor is refused");
            E.hit(got);
        };
        for (i = -2; i <= R + 1; ++i) for (j = -2; j <= C + 1; ++j) for (h = -2; h <= R + 2; ++h) for (w = -2; w <= C + 2; ++w) one();
        int X[] = {INT_MIN, INT_MAX, 0, 1};
        for (int a = 0; a < 4; ++a) for (int b = 0; b < 4; ++b) for (int c = 0; c < 4; ++c) for (int d = 0; d < 4; ++d) { i = X[a]; j = X[b]; h = X[c]; w = X[d]; one(); }
    });
}
template <class T, int L> void add(std::vector<PlainJob>& v, bool th) {
    std::string n = std::string(TN<T>::n()) + " " + LN(L);
    v.push_back({"blocks of " + n + " tensors", [=](PlainResult& r) { Blocks<T, L>::run(r, th, false); }});
    v.push_back({"blocks of " + n + " tensors, verbose", [=](PlainResult& r) { Blocks<T, L>::run(r, false, true); }});
    v.push_back({"blocks of large " + n + " tensors", [=](PlainResult& r) { large<T, L>(r, th); }});
    v.push_back({"views of " + n + " tensors", [=](PlainResult& r) { views<T, L>(r, th); }});
    v.push_back({"empty blocks of " + n + " tensors", [=](PlainResult& r) { empties<T, L>(r); }});
}
}
Registry vmc::registry() {
    Registry R;
    R.jobs = [](bool th, std::vector<PlainJob>& v) {
        add<float, RowMajor>(v, th); add<float, ColMajor>(v, th); add<double, RowMajor>(v, th); add<double, ColMajor>(v, th);
        add<int, RowMajor>(v, th); add<int, ColMajor>(v, th); add<bool, RowMajor>(v, th); add<bool, ColMajor>(v, th);
    };
    return R;
}
