// C12: acknowledgements are counted exactly.
#include "pc.hpp"
Registry vmc::registry() {
    Registry R;
    R.scenarios = [](bool th, std::vector<Scenario>& v) {
        using pc::mk; int sp = th ? 2 : 1, to = th ? 2 : 1;
        v.push_back(mk("1 consumer, 1 ack", "k", {"a"}, -1, 0, sp));
        v.push_back(mk("1 consumer, 2 acks collected at once", "k2", {"aa"}, -1, 0, sp));
        v.push_back(mk("1 consumer, 3 acks, 3 wanted", "k3", {"aaa"}, -1, 0, sp));
        v.push_back(mk("1 consumer, 1 ack, 2 wanted", "k2", {"a"}, -1, 0, 2, false, true));
        v.push_back(mk("1 consumer, 1 ack, 2 wanted, timed", "q2", {"a"}, -1, 2, 2, false, true));
        v.push_back(mk("1 consumer, given up, then blocking", "qk", {"a"}, -1, to, sp, false, true));
        v.push_back(mk("1 consumer, given up, then timed", "qq", {"a"}, -1, to, sp, false, true));
        v.push_back(mk("1 consumer, 2 wanted, given up, then blocking", "q2k2", {"aa"}, -1, to, sp, false, true));
        v.push_back(mk("1 consumer, more acks than wanted", "k1", {"aaa"}, -1, 0, sp));
        v.push_back(mk("1 consumer, all acks first, fewer wanted", "dk1", {"aa"}, -1, 0, sp));
        v.push_back(mk("1 consumer, collected in two steps", "k1k1", {"aa"}, -1, 0, sp, false, true));
        v.push_back(mk("1 consumer, rounds", "tktktk", {"bbb"}, -1, 0, th));
        v.push_back(mk("1 consumer, timed rounds", "tKtK", {"bb"}, -1, to, th));
        v.push_back(mk("2 consumers, 1 ack each", "k", {"a", "a"}, -1, 0, sp));
        v.push_back(mk("2 consumers, 1 ack each, timed until collected", "K", {"a", "a"}, th ? -1 : 5, to, sp));
        v.push_back(mk("2 consumers, 1 wanted", "k1", {"a", "a"}, -1, 0, sp));
        v.push_back(mk("2 consumers, 3 wanted", "k3", {"a", "a"}, -1, 0, sp, false, true));
        v.push_back(mk("2 consumers, 2 acks each", "k4", {"aa", "aa"}, th ? -1 : 5, 0, sp));
        v.push_back(mk("2 consumers, given up, then blocking", "qk", {"a", "a"}, th ? -1 : 5, to, sp, false, true));
        v.push_back(mk("2 consumers, rounds", "tktk", {"bb", "bb"}, th ? 4 : 3, 0, th));
        v.push_back(mk("2 consumers, timed rounds", "tKtK", {"BB", "BB"}, th ? 3 : 2, th, 0));
        v.push_back(mk("2 consumers, arrival", "tk", {"b", "b"}, th ? 3 : 2, 0, 0, true));
        v.push_back(mk("3 consumers, 1 ack each", "k", {"a", "a", "a"}, th ? -1 : 5, 0, sp));
        v.push_back(mk("3 consumers, 1 ack each, timed", "qk", {"a", "a", "a"}, th ? 4 : 3, 1, 0, false, true));
        v.push_back(mk("3 consumers, 2 wanted", "k2", {"a", "a", "a"}, th ? 6 : 4, 0, th));
        v.push_back(mk("3 consumers, rounds", th ? "tktk" : "tk", th ? std::vector<std::string>{"bb", "bb", "bb"} : std::vector<std::string>{"b", "b", "b"}, 1, 0, 0));
        v.push_back(mk("1 consumer, the function fails", "tktk", {"fb"}, -1, 0, sp)); v.push_back(mk("2 consumers, the function of one fails", "tktk", {"fb", "bf"}, th ? 3 : 2, 0, 0));
        // long histories, one order
        auto rep = [](const char* p, int n) { std::string s; while (n--) s += p; return s; };
        int N = th ? 4000 : 700;
        v.push_back(mk("1 consumer, many rounds", rep("tk", N), {rep("b", N)}, 0)); v.push_back(mk("2 consumers, more rounds", rep("tk", 6), {rep("b", 6), rep("swa", 6)}, 0));
        v.push_back(mk("2 consumers, many acknowledgements collected one by one", "d" + rep("k1", 1), {rep("a", N), rep("a", N)}, 0)); v.push_back(mk("1 consumer, 9 acknowledgements at a time", rep("k9", N / 9), {rep("a", N / 9 * 9)}, 0, 0, 0, false, true));
        if (th) v.push_back(mk("4 consumers, 1 ack each", "k", {"a", "a", "a", "a"}, 4));
        v.push_back(pc::howlong(true)); v.push_back(pc::marathon("very many rounds", th ? 300000 : 70000, 1, true)); v.push_back(pc::marathon("very many rounds, 3 consumers", th ? 100000 : 23000, 3, true)); v.push_back(pc::marathon("rounds of very many consumers", th ? 200 : 40, 300, true));
    };
    return R;
}
