// Command line around a harness: --list, --run NAME, --replay FILE.  Results are JSON on fd 1.
#include "vmc.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <sstream>
#include <iostream>
#include <unistd.h>
#include <fcntl.h>
#include <regex>
using namespace vmc;
static std::string esc(const std::string& s) {
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o + "\"";
}
static FILE* OUT;
static std::vector<std::pair<std::string, std::string>> known_list; // scenario regex, message regex
int main(int argc, char** argv) {
    std::string mode, name, file; bool thorough = false, nocache = false; u_int64_t cap = 0; double tl = 0; std::string known;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        if (a == "--list") mode = "list";
        else if (a == "--run") { mode = "run"; name = argv[++i]; }
        else if (a == "--replay") { mode = "replay"; file = argv[++i]; }
        else if (a == "--selftest") { mode = "selftest"; name = argv[++i]; }
        else if (a == "--thorough") thorough = true;
        else if (a == "--nocache") nocache = true;
        else if (a == "--cap") cap = atoll(argv[++i]);
        else if (a == "--limit") tl = atof(argv[++i]);
        else if (a == "--known") { known = argv[++i]; }
    }
    int fd = dup(1); OUT = fdopen(fd, "w");
    int nul = open("/dev/null", O_WRONLY); dup2(nul, 1); ::close(nul);
    if (!known.empty()) {
        std::ifstream f(known); std::string l;
        while (std::getline(f, l)) { auto t = l.find('\t'); if (t != std::string::npos) known_list.push_back({l.substr(0, t), l.substr(t + 1)}); }
        is_known = [](const std::string& sc, const std::string& m) {
            for (auto& k : known_list) if (std::regex_match(sc, std::regex(k.first)) && std::regex_search(m, std::regex(k.second))) return true;
            return false;
        };
    }
    Registry R = registry();
    std::vector<Scenario> sc; std::vector<PlainJob> jobs;
    if (R.scenarios) R.scenarios(thorough, sc);
    if (R.jobs) R.jobs(thorough, jobs);
    if (mode == "list") {
        for (auto& s : sc) fprintf(OUT, "S %s\n", s.name.c_str());
        for (auto& j : jobs) fprintf(OUT, "J %s\n", j.name.c_str());
        fflush(OUT); return 0;
    }
    if (mode == "replay") {
        std::ifstream f(file); std::string l, scn; std::vector<int> ch; std::string expect;
        while (std::getline(f, l)) {
            if (l.rfind("scenario: ", 0) == 0) scn = l.substr(10);
            if (l.rfind("choices:", 0) == 0) { std::istringstream is(l.substr(8)); int x; while (is >> x) ch.push_back(x); }
        }
        for (auto& s : sc) if (s.name == scn) {
            Result r = replay(s, ch);
            fprintf(OUT, "%s%s\n", r.trace.c_str(), r.violated ? ("VIOLATED: " + r.msg).c_str() : "no violation");
            fflush(OUT); return r.violated ? 1 : 0;
        }
        for (auto& j : jobs) if (j.name == scn) {
            PlainResult r; j.run(r);
            fprintf(OUT, "%s\n%s\n", r.input.c_str(), r.violated ? ("VIOLATED: " + r.msg).c_str() : "no violation");
            fflush(OUT); return r.violated ? 1 : 0;
        }
        fprintf(OUT, "unknown scenario %s\n", scn.c_str()); fflush(OUT); return 2;
    }
    // state caching must not hide anything: the final states with and without it are the same
    if (mode == "selftest") {
        for (auto& s : sc) if (s.name == name) {
            bool bad = false; u_int64_t nu = 0, nc = 0, eu = 0, ec = 0; bool full = true;
            for (int pre = 0; pre <= 2; ++pre) {
                if (s.bounds.preempt >= 0 && pre > s.bounds.preempt) break;
                Scenario u = s, c = s; u.bounds.preempt = c.bounds.preempt = pre; u.bounds.cache = false; u.bounds.max_execs = 6000;
                Result a = explore(u, tl, true), b = explore(c, tl, true);
                if (!b.exhaustive) break;
                nu = a.finals.size(); nc = b.finals.size(); eu = a.execs; ec = b.execs; full = a.exhaustive;
                for (auto f : a.finals) if (!b.finals.count(f)) bad = true;
                if (full && nu != nc) bad = true;
                if (a.violated != b.violated && full) bad = true;
                if (!full || bad) break;
            }
            fprintf(OUT, "{\"scenario\":%s,\"bad\":%s,\"finals_uncached\":%lu,\"finals_cached\":%lu,\"execs_uncached\":%lu,\"execs_cached\":%lu,\"complete\":%s}\n", esc(s.name).c_str(), bad ? "true" : "false", nu, nc, eu, ec, full ? "true" : "false");
            fflush(OUT); _exit(0);
        }
        _exit(2);
    }
    for (auto& s : sc) if (s.name == name) {
        if (nocache) s.bounds.cache = false;
        if (cap) s.bounds.max_execs = cap;
        Result r = explore(s, tl);
        fprintf(OUT, "{\"scenario\":%s,\"kind\":\"schedules\",\"execs\":%lu,\"digest\":%lu,\"states\":%lu,\"transitions\":%lu,\"points\":%lu,\"hits\":%lu,\"outcomes\":%lu,\"maxdepth\":%lu,"
            "\"crash_execs\":%lu,\"fault_execs\":%lu,\"exhaustive\":%s,\"cap\":%s,\"violated\":%s,\"msg\":%s,\"trace\":%s,\"wall\":%.3f,\"preempt\":%d,\"choices\":[",
            esc(r.scenario).c_str(), r.execs, r.digest, r.states, r.transitions, r.points, r.hits, r.outcomes, r.maxdepth, r.crashes, r.faults,
            r.exhaustive ? "true" : "false", esc(r.cap).c_str(), r.violated ? "true" : "false", esc(r.msg).c_str(), esc(r.trace).c_str(), r.wall, s.bounds.preempt);
        for (size_t i = 0; i < r.choices.size(); ++i) fprintf(OUT, "%s%d", i ? "," : "", r.choices[i]);
        fprintf(OUT, "],\"samples\":[");
        for (size_t i = 0; i < r.samples.size(); ++i) fprintf(OUT, "%s%s", i ? "," : "", esc(r.samples[i]).c_str());
        fprintf(OUT, "],\"known\":{");
        bool f = true; for (auto& k : r.known) { fprintf(OUT, "%s%s:%lu", f ? "" : ",", esc(k.first).c_str(), k.second); f = false; }
        fprintf(OUT, "}}\n"); fflush(OUT); _exit(0);
    }
    for (auto& j : jobs) if (j.name == name) {
        PlainResult r; j.run(r);
        fprintf(OUT, "{\"scenario\":%s,\"kind\":\"inputs\",\"evaluations\":%lu,\"distinct\":%lu,\"states\":%lu,\"transitions\":%lu,\"violated\":%s,\"msg\":%s,\"input\":%s,\"exhaustive\":true,\"samples\":[",
            esc(j.name).c_str(), r.evaluations, r.distinct, r.states, r.transitions, r.violated ? "true" : "false", esc(r.msg).c_str(), esc(r.input).c_str());
        for (size_t i = 0; i < r.samples.size(); ++i) fprintf(OUT, "%s%s", i ? "," : "", esc(r.samples[i]).c_str());
        fprintf(OUT, "]}\n"); fflush(OUT); _exit(0);
    }
    fprintf(stderr, "unknown scenario %s\n", name.c_str());
    _exit(2);
}
