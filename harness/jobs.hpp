// exhaustive enumerations of inputs: bookkeeping shared by the harnesses
#pragma once
#include "vmc.hpp"
struct Enum {                                       // one enumeration job
    vmc::PlainResult& r; std::function<std::string()> desc;
    u_int64_t sig = 0; std::vector<u_int64_t> sigs;
    // body runs one world; desc (set by the body) tells the input in progress
    bool world(std::function<void()> body) {
        if (r.violated) return false;
        desc = nullptr; std::string m = vmc::run_plain(body);
        if (!m.empty()) { r.violated = true; r.input = desc ? desc() : ""; r.msg = m + (desc ? " -- " + r.input : ""); }
        return !r.violated;
    }
    void hit(bool nontrivial) { ++r.evaluations; if (nontrivial) ++r.distinct; }
};
