#!/opt/veriftools/pyvenv/bin/python
"""development aid: print the symbolic post-state of a function.  sx.py TU[,TU] qualified::name [this=Class] [sub=..] [n=700]"""
import sys, os, threading; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__)))); sys.setrecursionlimit(20000); threading.stack_size(512*1024*1024)
def main():
    from engine.spec import V, Program, T, show
    kw = dict(a.split("=", 1) for a in sys.argv[3:])
    P = Program(sys.argv[1].split(","))
    for q in sys.argv[2].split(","):
        for f in P.find(q, kw.get("sub")):
            v = V("X", P); n = int(kw.get("n", 700))
            print("==", f["sig"], "" if f.get("body") else "(no body)")
            if not f.get("body"): continue
            try:
                r = v.fn(f["sig"], this=kw.get("this"))
                if not r.alive: print("   does not return normally"); 
                else:
                    for k, x in r.st.mem.items():
                        if "~" not in k[0] or "all" in kw: print("   ", ".".join(k), "=", show(x)[:n] if isinstance(x, T) else x)
                print("  ret", show(r.ret)[:n] if isinstance(r.ret, T) else r.ret, "\n  throws", show(r.throws)[:n]); print("  notes", r.ex.notes, "loop obls", len(r.ex.loop_obls), "epochs", [p for p, _ in r.st.epoch] if r.alive else "")
            except Exception as e:
                import traceback; traceback.print_exc(limit=-int(kw.get("tb", 2))); print("!!", f["sig"], e)
t = threading.Thread(target=main); t.start(); t.join()
