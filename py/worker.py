"""One scenario of the exploration of the Python bindings (see common.py)."""
import sys, os, json, importlib, re, traceback
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common


def main():
    a = sys.argv[1:]
    prop = a[0]
    g = {"--mod": None, "--run": None, "--known": None, "--limit": "400", "--replay": None, "--beat": None}
    lst = False
    i = 1
    while i < len(a):
        if a[i] == "--list": lst = True; i += 1
        elif a[i] == "--thorough": common.OPT["thorough"] = True; i += 1
        else: g[a[i]] = a[i + 1]; i += 2
    sys.path.insert(0, g["--mod"])
    common.OPT["limit"] = float(g["--limit"])
    if g["--beat"]:
        common.beat_open(g["--beat"])
    if g["--known"]:
        common.OPT["known"] = [tuple(l.rstrip("\n").split("\t")) for l in open(g["--known"])]
    m = importlib.import_module(prop.lower())
    sc = m.scenarios(common.OPT["thorough"])      # [(name, kind, fn(report, only))]
    if lst:
        for n, _, _ in sc:
            print("S " + n)
        return 0
    name, only = g["--run"], None
    if g["--replay"]:
        t = open(g["--replay"]).read()
        name = re.search(r"^scenario: (.*)$", t, re.M).group(1)
        c = re.search(r"^choices: (.*)$", t, re.M)
        only = [int(x) for x in c.group(1).split()] if c else None
    for n, kind, fn in sc:
        if n == name:
            rep = common.Report(n)
            common.beat("start of the scenario")
            try:
                fn(rep, only)
            except common.Violation as e:
                try:
                    common.settle(rep, e)
                except common.Violation:
                    pass
            except Exception as e:
                if common.own_error(e):
                    raise
                rep.bad = rep.bad or ("%s: %s" % (type(e).__name__, e), traceback.format_exc(), None)
            finally:
                common.cleanup()
            r = rep.result(kind)
            if g["--replay"]:
                print(r.get("msg") or "no violation"); print(r.get("input", ""))
                sys.stdout.flush(); os._exit(1 if r["violated"] else 0)
            print("\n" + json.dumps(r))
            sys.stdout.flush()
            os._exit(0)
    print("no such scenario"); return 2


if __name__ == "__main__":
    sys.exit(main())
