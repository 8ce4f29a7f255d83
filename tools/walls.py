"""time per scenario of the last run of a check (from its evidence)"""
import json, sys
for c in sys.argv[1:]:
    for s in json.load(open('%s/evidence/%s.json' % (__import__('os').path.dirname(__import__('os').path.dirname(__import__('os').path.abspath(__file__))), c)))["coverage"]["scenarios"]:
        print("%s %7.1f s %9d states %9d execs %5d depth | %s" % (c, s.get("wall", 0), s.get("states", 0), s.get("execs", s.get("evaluations", 0)), s.get("maxdepth", 0), s["scenario"]))
