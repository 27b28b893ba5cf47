#!/usr/bin/env python3
"""Developer helper: run the obligations of one spec (optionally only those whose name matches a pattern) and print the result.
   usage: ob.py P05 [regex] [--trace]"""
import importlib.util, os, re, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "engine"))
import vfe
from concurrent.futures import ThreadPoolExecutor, as_completed
args = [a for a in sys.argv[1:] if not a.startswith("--")]
spec = importlib.util.spec_from_file_location("s", os.path.join(vfe.VERIF, "specs", args[0] + ".py"))
m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
pat = re.compile(args[1] if len(args) > 1 else ".")
obs = [o for o in m.OBS if pat.search(o.name)]
w = vfe.Work("dev")
try:
    t = time.time(); w.build_ir(); print("ir %.1fs" % (time.time() - t))
    harn = {o.file: vfe.Harness(w, o.file) for o in obs}
    with ThreadPoolExecutor(int(os.environ.get("VF_JOBS", "8"))) as ex:
        for f in as_completed([ex.submit(vfe.run_ob, w, harn, o) for o in obs]):
            r = f.result()
            if "does not compile" in r["reason"] or "llvm-link" in r["reason"] or "mark:" in r["reason"]:
                print(r["reason"][:900]); break
            print("%-30s %-9s %d/%d cov=%s %.1fs %s" % (r["name"], r["status"], r["discharged"], r["obligations"], r.get("covers"), r["time"], r["reason"].replace("\n"," ")[:int(os.environ.get("W","220"))]), flush=True)
            for p, d in r["failed"][:6]:
                print("    FAILED", p, d)
            if "--trace" in sys.argv and r["failed"]:
                vals, out = vfe.trace_inputs(w, r, r["failed"][0][0])
                print("    inputs", vals); open("/tmp/p/trace.txt", "w").write(out)
                print("    replay", vfe.replay_native(w, harn, r["ob"], vals, w.dir + "/rp.txt"))
finally:
    w.close()
