// C15: interrupted waits never break mutual exclusion.
#include "locks.hpp"
Registry vmc::registry() {
    Registry R;
    R.scenarios = [](bool th, std::vector<Scenario>& v) {
        using locks::mk; int k = th ? 2 : 1;
        v.push_back(mk<int, RowMajor>("srv hold / client hold", {"hh", "hh"}, -1, 2));
        v.push_back(mk<int, RowMajor>("srv hold+write / client hold+read", {"hw", "hr"}, -1, 2));
        v.push_back(mk<double, ColMajor>("srv count / client hold", {"nn", "hh"}, -1, 2));
        v.push_back(mk<int, RowMajor>("srv hold / client detach+attach", {"hh", "dw"}, th ? -1 : 4, 2));
        v.push_back(mk<float, RowMajor>("srv hold / arriving and leaving client", {"hh", "w"}, th ? -1 : 4, 2, true));
        v.push_back(mk<int, RowMajor>("srv write / client1 hold / client2 hold", {"w", "h", "h"}, 3, k));
        v.push_back(mk<int, RowMajor>("srv count / client1 hold / client2 leaving", {"n", "h", "r"}, 2, k, true));
        v.push_back(mk<int, RowMajor>("srv hold / client1 hold / client2 hold", {"h", "h", "h"}, th ? 4 : 3, k));
        if (th) {
            v.push_back(mk<bool, ColMajor>("srv hold+count / client1 detach+attach / client2 hold", {"hn", "d", "h"}, 3, 2));
            v.push_back(mk<int, RowMajor>("srv hold x3 / client hold x3", {"hhh", "hhh"}, -1, 3));
        }
    };
    return R;
}
