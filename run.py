#!/usr/bin/env python3
"""run.py setup | run.py check <id>   (VERIF_SEED, VERIF_TIER from the environment)"""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import vf

def main():
    if sys.argv[1] == "setup":
        os.makedirs(vf.OUT, exist_ok=True)
        vf.java_ready()
        t = vf.tlc("RatTest", open(os.path.join(vf.SPEC, "RatTest.cfg")).read(), vf.OUT)
        if "RATTEST OK" not in t.out: print(t.out[-3000:]); return 2
        print("setup ok"); return 0
    prop = sys.argv[2]
    try:
        mod = importlib.import_module("checks_" + next(m for m, ids in MAP.items() if prop in ids))
        c = vf.Check(prop)
        getattr(mod, prop)(c)
        return c.finish()
    except vf.CheckError as e:
        print("CHECK-ERROR property=%s %s" % (prop, e)); return 2
    except Exception:
        traceback.print_exc(); print("CHECK-ERROR property=%s" % prop); return 2

MAP = {"market": ["C01", "C02", "C03", "C04", "C05"],
       "contract": ["C06", "C07", "C08"],
       "mc": ["C09", "C10", "C11", "C12", "C13", "C14"],
       "model": ["C15", "C16", "C17", "C18", "C19"],
       "random": ["C20", "C21", "C22"],
       "fdm": ["C23", "C24", "C25"],
       "num": ["C26", "C27", "C28", "C29"],
       "session": ["C30", "C31", "C32", "C33", "C34", "C35", "C36", "C37"]}
if __name__ == "__main__": sys.exit(main())
