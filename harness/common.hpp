// Shared by the C++ harnesses: instrumented participants, histories, linearizability check.
#pragma once
#include "vmc.hpp"
#include <EigenIPC/Server.hpp>
#include <EigenIPC/Client.hpp>
#include <EigenIPC/Helpers.hpp>
#include <EigenIPC/DTypes.hpp>
#include <memory>
#include <sstream>
#include <cstring>

using namespace EigenIPC;
using VL = Journal::VLevel;

template <class T> struct TN;
template <> struct TN<int> { static const char* n() { return "int"; } };
template <> struct TN<float> { static const char* n() { return "float"; } };
template <> struct TN<double> { static const char* n() { return "double"; } };
template <> struct TN<bool> { static const char* n() { return "bool"; } };
// owns a library object inside a logical process; abandoned (killed) processes just leak it
template <class T> struct Own {
    T* p = nullptr;
    void reset(T* q = nullptr) { T* o = p; p = q; delete o; }
    T* operator->() const { return p; }
    T& operator*() const { return *p; }
    explicit operator bool() const { return p; }
};
inline const char* LN(int l) { return l == RowMajor ? "row" : "col"; }

// element k of the payload number id (id 0: the zero initialised tensor)
template <class T> T payload(int id, int r, int c) { return id == 0 ? T(0) : T(id * 100 + r * 10 + c + 1); }
template <> inline bool payload<bool>(int id, int r, int c) { return (id >> ((r * 2 + c) & 3)) & 1; }

struct Model {                     // the boring reference: a matrix
    int R, C; std::vector<double> v;
    Model(int r = 0, int c = 0) : R(r), C(c), v(r * c, 0) {}
    bool fits(int r, int c, int h, int w) const { return r >= 0 && c >= 0 && r < R && c < C && r + h <= R && c + w <= C; }
    double& at(int r, int c) { return v[r * C + c]; }
    double at(int r, int c) const { return v[r * C + c]; }
};

// a timed call which nobody answers fails when its time is up, not earlier and not much later; tried from several points of a second
template <class F> void durations(const char* what, F f) {
    for (vmc::u64 frac : {0ull, 1ull, 500000000ull, 998999999ull, 999000000ull, 999999999ull})
        for (int ms : {1, 2, 9, 10, 99, 100, 999, 1000, 1001, 1500, 5000, 59999, 60000, 3600000, 86400000}) {
            vmc::pass_time((1000000000ull - vmc::clock_ns() % 1000000000ull) + frac);
            vmc::u64 t0 = vmc::clock_ns(); bool ok = f(ms); vmc::u64 el = vmc::clock_ns() - t0, want = ms * 1000000ull;
            if (ok) vmc::fail("%s with a time-out of %d ms succeeds although nothing happened", what, ms);
            if (el + 2000 < want) vmc::fail("%s with a time-out of %d ms gives up after %.3f ms", what, ms, el / 1e6);      // clocks are read in microseconds
            if (el > want + want / 4 + 20000000) vmc::fail("%s with a time-out of %d ms gives up only after %.3f ms", what, ms, el / 1e6);
        }
}

struct OpRec {
    int proc; char kind;           // 'W' or 'R'
    int id;                        // payload of a write
    int r, c, h, w;
    bool ok; u_int64_t call, ret;
    std::vector<double> got;
    std::string str() const {
        std::ostringstream o; o << "P" << proc << (kind == 'W' ? " write#" : " read ") ;
        if (kind == 'W') o << id;
        o << "[" << r << "," << c << " " << h << "x" << w << "]" << (ok ? " ok" : " refused");
        if (kind == 'R' && ok) { o << " ->"; for (double d : got) o << " " << d; }
        return o.str();
    }
};

// is there an order of the successful operations, consistent with real time, that explains every read?
struct Lin {
    const std::vector<OpRec>& h; Model m0; std::vector<int> done; std::function<double(int, int, int)> pay;
    bool rec(Model& m, u_int64_t mask) {
        bool all = true;
        for (size_t i = 0; i < h.size(); ++i) if (!(mask >> i & 1) && h[i].ok) all = false;
        if (all) return true;
        u_int64_t minret = ~0ull;
        for (size_t i = 0; i < h.size(); ++i) if (!(mask >> i & 1) && h[i].ok && h[i].ret < minret) minret = h[i].ret;
        for (size_t i = 0; i < h.size(); ++i) {
            if (mask >> i & 1 || !h[i].ok || h[i].call > minret) continue;
            const OpRec& o = h[i];
            if (o.kind == 'W') {
                Model keep = m;
                for (int a = 0; a < o.h; ++a) for (int b = 0; b < o.w; ++b) m.at(o.r + a, o.c + b) = pay(o.id, a, b);
                if (rec(m, mask | 1ull << i)) return true;
                m = keep;
            } else {
                bool same = true;
                for (int a = 0; a < o.h && same; ++a) for (int b = 0; b < o.w; ++b) if (m.at(o.r + a, o.c + b) != o.got[a * o.w + b]) { same = false; break; }
                if (same && rec(m, mask | 1ull << i)) return true;
            }
        }
        return false;
    }
};
inline bool linearizable(const std::vector<OpRec>& h, const Model& m0, std::function<double(int, int, int)> pay) {
    Lin l{h, m0, {}, pay}; Model m = m0; return l.rec(m, 0);
}
inline std::string hist_str(const std::vector<OpRec>& h) { std::string s; for (auto& o : h) { s += s.empty() ? "" : "; "; s += o.str(); } return s; }

// one read or write through one of the overloads, recorded
template <class T, int L, class Peer>
void do_op(Peer& p, std::vector<OpRec>& hist, int proc, char kind, int id, int r, int c, int h, int w, bool view) {
    size_t k = hist.size(); hist.push_back(OpRec{proc, kind, id, r, c, h, w, false, 0, 0, {}});
    Tensor<T, L> t(h, w);
    for (int a = 0; a < h; ++a) for (int b = 0; b < w; ++b) t(a, b) = kind == 'W' ? payload<T>(id, a, b) : T(77);
    vmc::event(0x100 + k); hist[k].call = vmc::now_seq();
    bool ok;
    if (view) {
        auto v = helpers::createViewFrom<T, L>(t, 0, 0, h, w);
        ok = kind == 'W' ? p.write(v, r, c) : p.read(v, r, c);
    } else {
        TRef<T, L> ref(t);
        ok = kind == 'W' ? p.write(ref, r, c) : p.read(ref, r, c);
    }
    vmc::event(0x200 + k + (ok ? 0x1000 : 0)); hist[k].ret = vmc::now_seq(); hist[k].ok = ok;
    if (kind == 'R') {
        for (int a = 0; a < h; ++a) for (int b = 0; b < w; ++b) hist[k].got.push_back((double)t(a, b));
        if (!ok) for (double d : hist[k].got) if (d != (double)T(77)) vmc::fail("a refused read changed the caller's buffer (%s)", hist[k].str().c_str());
        for (double d : hist[k].got) { u_int64_t bits; std::memcpy(&bits, &d, 8); vmc::event(bits); }
    } else {
        for (int a = 0; a < h; ++a) for (int b = 0; b < w; ++b) if (t(a, b) != payload<T>(id, a, b)) vmc::fail("a write changed the caller's source data");
    }
}
