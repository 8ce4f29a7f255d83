// C02: the data lock is exclusive and never lost or duplicated.
#include "life.hpp"
#include "locks.hpp"
#include "forms.hpp"
Registry vmc::registry() {
    Registry R;
    R.scenarios = [](bool th, std::vector<Scenario>& v) {
        using locks::mk;
        // every interleaving of two lock users
        v.push_back(mk<int, RowMajor>("srv hold / client hold", {"hh", "hh"}, -1));
        v.push_back(mk<int, RowMajor>("srv hold / client write+read", {"hw", "wrw"}, -1));
        v.push_back(mk<int, RowMajor>("srv write+read / client hold", {"wrw", "hw"}, -1));
        v.push_back(mk<double, ColMajor>("srv count+hold / client detach+attach+hold", {"nh", "dh"}, -1));
        v.push_back(mk<float, RowMajor>("srv hold+count / arriving client", {"hnh", "h"}, -1, 0, true));
        v.push_back(mk<int, ColMajor>("srv restart / client hold+write", {"shw", "hwh"}, -1));
        // three
        v.push_back(mk<int, RowMajor>("srv hold / client1 hold / client2 hold", {"h", "h", "h"}, th ? -1 : 3));
        v.push_back(mk<int, RowMajor>("srv write / client1 hold / client2 read", {"w", "h", "r"}, th ? -1 : 3));
        v.push_back(mk<int, RowMajor>("srv count / client1 hold / client2 detach+attach", {"n", "h", "d"}, th ? 4 : 2));
        if (th) {
            v.push_back(mk<int, RowMajor>("srv hold x3 / client hold x3", {"hhh", "hhh"}, -1));
            v.push_back(mk<int, RowMajor>("srv hold / client1 arriving / client2 arriving", {"h", "r", "h"}, 3, 0, true));
            v.push_back(mk<double, RowMajor>("srv restart / client1 hold / client2 write", {"sw", "h", "w"}, 4));
            v.push_back(mk<bool, RowMajor>("srv hold+count / client detach+attach x2", {"hnhn", "dd"}, -1));
        }
        // threads of one process which share one object, and a participant of another process
        using locks::threads;
        v.push_back(threads<int, RowMajor>("2 threads with the server's object: hold, read+write / client hold", true, {"h", "rw"}, "h", th ? 3 : 2));
        v.push_back(threads<double, ColMajor>("2 threads with the client's object: hold, read+write / server hold", false, {"h", "rw"}, "h", th ? 3 : 2));
        v.push_back(threads<int, RowMajor>("2 threads with the server's object: hold, hold / client write", true, {"h", "h"}, "w", th ? 3 : 2));
        v.push_back(threads<float, RowMajor>("2 threads with the client's object: hold, hold / server read", false, {"h", "h"}, "r", th ? 3 : 2));
        v.push_back(threads<int, RowMajor>("2 threads with the server's object: count, write / client hold", true, {"n", "ww"}, "h", th ? 3 : 2));
        // the same with every access to a member of the shared object being a step
        v.push_back(threads<int, RowMajor>("2 threads with the server's object, members: write, write / client hold", true, {"w", "w"}, "h", th ? 3 : 2, true));
        v.push_back(threads<int, RowMajor>("2 threads with the client's object, members: write, read / server hold", false, {"w", "r"}, "h", th ? 3 : 2, true));
        v.push_back(threads<float, ColMajor>("2 threads with the client's object, members: hold, read / server write", false, {"h", "r"}, "w", th ? 3 : 2, true));
        v.push_back(threads<int, RowMajor>("2 threads with the server's object, members: count, write / client hold", true, {"n", "w"}, "h", th ? 3 : 2, true));
        v.push_back(threads<bool, RowMajor>("3 threads with the server's object: hold, read, count / client hold", true, {"h", "r", "n"}, "h", th ? 2 : 1));
        // every call form, block and shape, with the lock taken by another participant at every point of it
        forms::add<int, RowMajor>(v, 1 << forms::PEER_LOCKS, th, true); forms::add<double, ColMajor>(v, 1 << forms::PEER_LOCKS, th, true);
        forms::add<float, ColMajor>(v, 1 << forms::PEER_LOCKS, th, false); forms::add<bool, RowMajor>(v, 1 << forms::PEER_LOCKS, th, false);
        // every history of calls
        life::Opts o; o.lock = true; o.nclients = 1;
        o.ops = life::mask({life::S_NEW, life::S_NEWF, life::S_RUN, life::S_STOP, life::S_CLOSE, life::S_DEL, life::S_WRITE, life::S_ACQ, life::S_REL, life::S_COUNT,
                            life::C_ATTACH, life::C_DETACH, life::C_CLOSE, life::C_READ, life::C_ACQ, life::C_REL});
        o.depth = th ? 7 : 5;
        life::add<int, RowMajor>(v, "histories", o);
        o.up = true; o.depth = th ? 6 : 4;
        life::add<double, ColMajor>(v, "histories of a running pair", o);
        o.nclients = 2; o.depth = th ? 5 : 3;
        life::add<float, RowMajor>(v, "histories of a running server with 2 clients", o);
        o.nclients = 1; o.forms = true; o.depth = th ? 5 : 3;
        o.R = 1; o.C = 1; life::add<int, ColMajor>(v, "histories of a running pair 1x1", o); o.C = 6; o.loud = true; life::add<bool, RowMajor>(v, "histories of a running pair 1x6 with messages", o); o.R = 7; o.C = 3; o.loud = false; life::add<float, ColMajor>(v, "histories of a running pair 7x3", o);
    };
    return R;
}
