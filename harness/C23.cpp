// C23: return codes compose, subtract, test and describe faithfully.
// The reachable states of an accumulated code are explored breadth first against a set of conditions.
#include "common.hpp"
#include "jobs.hpp"
#include <EigenIPC/ReturnCodes.hpp>
#include <set>
using namespace vmc;
namespace {
using RC = ReturnCode; using u64 = u_int64_t;
struct N { RC c; const char* n; };
#define X(a) {RC::a, #a}
// RESET and NONE are not conditions: they clear and denote nothing
const std::vector<N> COND = {X(MEMOPEN), X(MEMOPENFAIL), X(MEMCREAT), X(MEMCREATFAIL), X(MEMSET), X(MEMSETFAIL), X(MEMEXISTS), X(MEMCLEAN), X(MEMFDCLOSED), X(MEMUNLINK), X(MEMMAP), X(MEMMAPFAIL),
    X(INDXOUT), X(NOFIT), X(SEMACQTIMEOUT), X(SEMACQ), X(SEMACQFAIL), X(SEMACQTRY), X(SEMACQSIGINT), X(SEMOPEN), X(SEMOPENFAIL), X(SEMREL), X(SEMRELFAIL), X(SEMCLOSE), X(SEMUNLINK),
    X(WRITEFAIL), X(READFAIL), X(SEMACQRETRY), X(OTHER), X(UNKNOWN)};
#undef X
const int K = COND.size();
// the reference: a code is a set of conditions, bit i is COND[i]
RC code(u64 s) { RC c = RC::NONE; for (int i = 0; i < K; ++i) if (s >> i & 1) c = c + COND[i].c; return c; }
std::string show(u64 s) { std::string o = "{"; for (int i = 0; i < K; ++i) if (s >> i & 1) o += (o.size() > 1 ? " " : "") + std::string(COND[i].n); return o + "}"; }
std::string ul(RC c) { return std::to_string((unsigned long long)c); }
// everything that can be asked about a code agrees with the set
void ask(RC c, u64 s, const std::function<std::string()>& how) {
    for (int i = 0; i < K; ++i) if (isin(COND[i].c, c) != (bool)(s >> i & 1)) fail("%s %s in %s", COND[i].n, s >> i & 1 ? "is not" : "is", how().c_str());
}
void describe(RC c, u64 s, const std::function<std::string()>& how) {
    std::string d = getDescriptions(c); std::multiset<std::string> got, want;
    for (int i = 0; i < K; ++i) if (s >> i & 1) want.insert(COND[i].n);
    if (d.size() < 2 || d.front() != '[' || d.back() != ']') fail("the description of %s is '%s'", how().c_str(), d.c_str());
    std::string w; for (size_t i = 1; i < d.size(); ++i) { char ch = d[i]; if (isalnum(ch) || ch == '_') w += ch; else { if (!w.empty()) got.insert(w); w.clear(); } }
    if (got != want) fail("the description of %s is '%s'", how().c_str(), d.c_str());
    if (toString(c) != ul(c)) fail("toString of %s is '%s'", how().c_str(), toString(c).c_str());
}
// all subsets of up to k conditions and their complements
void subsets(int k, const std::function<void(u64)>& f) {
    u64 all = (1ull << K) - 1;
    std::function<void(int, int, u64)> rec = [&](int from, int left, u64 s) { f(s); if (s != (all & ~s)) f(all & ~s); if (left) for (int i = from; i < K; ++i) rec(i + 1, left - 1, s | 1ull << i); };
    rec(0, k, 0);
}
void singles(PlainResult& r) {
    Enum E{r}; E.world([&] {
        std::string in; E.desc = [&] { return in; };
        for (int i = 0; i < K; ++i) for (int j = 0; j < K; ++j) {
            in = std::string(COND[i].n) + " and " + COND[j].n;
            u64 a = 1ull << i, b = 1ull << j; auto h = [&] { return in; };
            if ((COND[i].c == COND[j].c) != (i == j)) fail("two conditions have one code");
            if (isin(COND[i].c, COND[j].c) != (i == j)) fail("one condition contains another one");
            ask(COND[i].c + COND[j].c, a | b, h); describe(COND[i].c + COND[j].c, a | b, h);
            ask(COND[i].c - COND[j].c, a & ~b, h); describe(COND[i].c - COND[j].c, a & ~b, h);
            if (COND[i].c + COND[j].c != COND[j].c + COND[i].c) fail("the sum depends on the order");
            E.hit(i != j);
        }
        for (int i = 0; i < K; ++i) { in = COND[i].n; auto h = [&] { return in; };
            if (getDescription(COND[i].c) != COND[i].n) fail("%s is described as '%s'", COND[i].n, getDescription(COND[i].c).c_str());
            describe(COND[i].c, 1ull << i, h); ask(COND[i].c, 1ull << i, h);
            if (COND[i].c == RC::NONE || COND[i].c == RC::RESET) fail("%s is no condition of its own", COND[i].n);
            if (COND[i].c + RC::RESET != RC::NONE || RC::RESET + COND[i].c != RC::NONE) fail("adding RESET does not clear %s", COND[i].n);
            if (COND[i].c + RC::NONE != COND[i].c || RC::NONE + COND[i].c != COND[i].c || COND[i].c - RC::NONE != COND[i].c) fail("NONE alters %s", COND[i].n);
            if (isin(RC::RESET, COND[i].c)) fail("%s contains RESET", COND[i].n);
            E.hit(true); }
        in = "NONE"; auto h = [&] { return in; }; describe(RC::NONE, 0, h); ask(RC::NONE, 0, h);
        if (getDescription(RC::NONE) != "NONE") fail("NONE is described as '%s'", getDescription(RC::NONE).c_str());
        if (getDescription(RC::RESET) != "RESET") fail("RESET is described as '%s'", getDescription(RC::RESET).c_str());
        if (RC::RESET + RC::RESET != RC::NONE || RC::NONE + RC::RESET != RC::NONE) fail("adding RESET leaves something");
        if (getDescriptions(RC::RESET) != "[RESET]") fail("RESET is described as '%s'", getDescriptions(RC::RESET).c_str());
    });
}
// breadth first over the states reachable by adding and subtracting single conditions
void reach(PlainResult& r, bool th) {
    Enum E{r}; int k = th ? 5 : 4;
    E.world([&] {
        u64 cur = 0; E.desc = [&] { return show(cur); };
        auto h = [&] { return show(cur); };
        subsets(k, [&](u64 s) {
            cur = s; RC c = code(s); ask(c, s, h);
            if (__builtin_popcountll(s) <= 3 || th || __builtin_popcountll(~s & ((1ull << K) - 1)) <= 2) describe(c, s, h);
            if (c + RC::RESET != RC::NONE || RC::RESET + c != RC::NONE) fail("adding RESET does not clear %s", show(s).c_str());
            for (int i = 0; i < K; ++i) {
                u64 b = 1ull << i;
                RC p = c + COND[i].c, q = COND[i].c + c, m = c - COND[i].c;
                if (p != q) fail("the sum of %s and %s depends on the order", show(s).c_str(), COND[i].n);
                if (p != code(s | b)) fail("%s + %s is not %s", show(s).c_str(), COND[i].n, show(s | b).c_str());
                if (m != code(s & ~b)) fail("%s - %s is not %s", show(s).c_str(), COND[i].n, show(s & ~b).c_str());
                E.hit(true); ++r.transitions;
            }
            ++r.states;
        });
    });
}
// pairs of combined codes
void pairs(PlainResult& r, bool th) {
    Enum E{r}; E.world([&] {
        std::vector<u64> A, B; subsets(th ? 3 : 2, [&](u64 s) { A.push_back(s); }); subsets(2, [&](u64 s) { B.push_back(s); });
        u64 a = 0, b = 0; E.desc = [&] { return show(a) + " and " + show(b); };
        std::vector<RC> CB; for (u64 s : B) CB.push_back(code(s));
        for (u64 s : A) { a = s; RC c = code(s);
            for (size_t i = 0; i < B.size(); ++i) { b = B[i]; RC d = CB[i];
                RC p = c + d, m = c - d;
                for (int k = 0; k < K; ++k) { u64 x = 1ull << k;
                    if (isin(COND[k].c, p) != (bool)((a | b) & x)) fail("%s is wrong in the sum", COND[k].n);
                    if (isin(COND[k].c, m) != (bool)(a & ~b & x)) fail("%s is wrong in the difference", COND[k].n); }
                if (isin(d, c) != ((a & b) == b)) fail("membership of the second in the first is wrong");
                if (isin(RC::RESET, p) || isin(RC::RESET, m)) fail("RESET appears");
                E.hit(a && b); } }
    });
}
// sequences of operations on an accumulator, as the library uses it (conditions of the calls it accumulates), RESET and NONE included
void sequences(PlainResult& r, bool th) {
    Enum E{r}; int D = th ? 4 : 3;
    E.world([&] {
        std::string in; E.desc = [&] { return in; };
        std::function<void(int, RC, u64, std::string)> rec = [&](int left, RC c, u64 s, std::string how) {
            in = how; ask(c, s, [&] { return how; }); if (left == 0 ? false : true) describe(c, s, [&] { return how; });
            E.hit(s != 0); ++r.states;
            if (!left) return;
            for (int i = -2; i < K; ++i) for (int sub = 0; sub < 2; ++sub) {
                if (th && left < D - 1 && i >= 0 && i % 3) continue;     // deep tails: a third of the conditions
                RC o = i == -2 ? RC::RESET : i == -1 ? RC::NONE : COND[i].c; u64 b = i < 0 ? 0 : 1ull << i;
                if (sub && i == -2) continue;
                ++r.transitions;
                rec(left - 1, sub ? c - o : c + o, i == -2 ? 0 : sub ? s & ~b : s | b, th ? how : how + (sub ? " - " : " + ") + (i == -2 ? "RESET" : i == -1 ? "NONE" : COND[i].n));
            }
        };
        rec(D, RC::NONE, 0, "NONE");
    });
}
}
Registry vmc::registry() {
    Registry R;
    R.jobs = [](bool th, std::vector<PlainJob>& v) {
        v.push_back({"single codes and pairs", [](PlainResult& r) { singles(r); }});
        v.push_back({"states reachable by single additions and subtractions", [=](PlainResult& r) { reach(r, th); }});
        v.push_back({"pairs of combined codes", [=](PlainResult& r) { pairs(r, th); }});
        v.push_back({"sequences of additions and subtractions", [=](PlainResult& r) { sequences(r, th); }});
    };
    return R;
}
