// C11: every trigger reaches every registered consumer exactly once.
#include "pc.hpp"
Registry vmc::registry() {
    Registry R;
    R.scenarios = [](bool th, std::vector<Scenario>& v) {
        using pc::mk; int sp = th ? 2 : 1, to = th ? 2 : 1;
        v.push_back(mk("1 consumer, 1 trigger", "t", {"w"}, -1, 0, sp));
        v.push_back(mk("1 consumer, 2 triggers", "TT", {"ww"}, -1, 0, sp));
        v.push_back(mk("1 consumer, 3 triggers", "TTT", {"www"}, -1, 0, th));
        v.push_back(mk("1 consumer, trigger before wait", "t", {"nw"}, -1, 0, sp));
        v.push_back(mk("1 consumer, timed waits until taken", "TT", {"WW"}, -1, to + 1, sp));
        v.push_back(mk("1 consumer, timed wait given up, then blocking", "t", {"qw"}, -1, to, sp, false, true));
        v.push_back(mk("1 consumer, waits without a trigger", "", {"w"}, -1, 0, 2, false, true));
        v.push_back(mk("1 consumer, one trigger and two waits", "t", {"ww"}, -1, 0, 2, false, true));
        v.push_back(mk("1 consumer, one trigger and two timed waits", "t", {"qq"}, -1, 2, 2, false, true));
        v.push_back(mk("1 consumer, two triggers missed", "tt", {"mx"}, -1));
        v.push_back(mk("1 consumer, arrival of both sides", "t", {"w"}, th ? 6 : 4, 0, 0, true));
        v.push_back(mk("1 consumer, rounds with acknowledgements", "tktk", {"bb"}, -1, 0, sp));
        v.push_back(mk("1 consumer, rounds with acknowledgements, timed", "tKtK", {"BB"}, th ? -1 : 4, to, th));
        v.push_back(mk("2 consumers, 1 trigger", "t", {"w", "w"}, -1, 0, sp));
        v.push_back(mk("2 consumers, 2 triggers", "TT", {"ww", "ww"}, th ? -1 : 5, 0, sp));
        v.push_back(mk("2 consumers, timed waits until taken", "TT", {"WW", "WW"}, th ? 5 : 3, to, th));
        v.push_back(mk("2 consumers, one late", "t", {"w", "nw"}, -1, 0, sp));
        v.push_back(mk("2 consumers, rounds with acknowledgements", "tktk", {"bb", "bb"}, th ? 4 : 3, 0, th));
        v.push_back(mk("2 consumers, arrival of both sides", "t", {"w", "w"}, th ? 3 : 2, 0, 0, true));
        v.push_back(mk("3 consumers, 1 trigger", "t", {"w", "w", "w"}, th ? -1 : 5, 0, th));
        v.push_back(mk("3 consumers, 2 triggers, timed and blocking", "TT", {"ww", "WW", "ww"}, th ? 3 : 1, 1, 0));
        v.push_back(mk("3 consumers, rounds with acknowledgements", th ? "tktk" : "tk", th ? std::vector<std::string>{"bb", "bb", "bb"} : std::vector<std::string>{"b", "b", "b"}, 1, 0, 0));
        auto rep = [](const char* p, int n) { std::string s; while (n--) s += p; return s; };
        int N = th ? 4000 : 700;
        v.push_back(mk("1 consumer, many triggers", rep("T", N), {rep("w", N)}, 0)); v.push_back(mk("1 consumer, many triggers, trigger before wait", rep("T", N), {rep("nw", N)}, 0)); v.push_back(mk("2 consumers, more rounds", rep("tk", 6), {rep("b", 6), rep("swa", 6)}, 0)); v.push_back(mk("4 consumers, rounds", "tktk", {"bb", "sbsb", "swasb", "sbswa"}, 0));
        v.push_back(pc::howlong(false)); v.push_back(pc::marathon("very many triggers", th ? 300000 : 70000, 1, false)); v.push_back(pc::marathon("very many triggers, 2 consumers", th ? 150000 : 34000, 2, false)); v.push_back(pc::marathon("triggers for very many consumers", th ? 200 : 40, 300, false));
        if (th) {
            v.push_back(mk("4 consumers, 1 trigger", "t", {"w", "w", "w", "w"}, 4));
            v.push_back(mk("1 consumer, 5 triggers", "TTTTT", {"wwwww"}, -1, 0, 1));
            v.push_back(mk("2 consumers, 3 triggers, mixed", "TTT", {"wWw", "Www"}, 4, 1, 1));
        }
    };
    return R;
}
