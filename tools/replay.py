"""replay.py FILE: run the recorded counterexample on the real code."""
import json, sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import irbuild, driver
v = json.load(open(sys.argv[1]))
irbuild.settle_parts([v["entry"]])
rb = irbuild.build_replay()
prof, o = driver.confirm(rb, v["entry"], v["arg"], v["inputs"])
print(v["entry"], v["arg"], v["inputs"], "->", o, "(%s build)" % prof if o else "")
sys.exit(1 if o else 0)
