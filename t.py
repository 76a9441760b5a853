"""dev helper: t.py ENTRY p0,p1 [seconds] -- run one harness directly"""
import sys, vz, json, time, os
os.makedirs(vz.BUILD, exist_ok=True)
crate = os.environ.get("CRATE", "harness")
sx = vz.build_symex()
for spec in sys.argv[1:]:
    f = spec.split(":")
    e = f[0]; params = [int(x) for x in f[1].split(",")] if len(f) > 1 and f[1] else []
    tl = int(f[2]) if len(f) > 2 else 120
    ll = vz.build_ir(crate, [e], "t-" + e) if not os.environ.get("NOBUILD") else os.path.join(vz.BUILD, "ir-" + crate, "t-" + e + ".ll")
    r = vz.symex(sx, ll, e, params, "quick", tl, {"max_instr": int(os.environ.get("MAXI", "3000000")), "preempt": int(os.environ.get("PREEMPT","2"))})
    print("%s%r: complete=%s paths=%d assume=%d checks=%d queries=%d solver=%.1f wall=%.1f maxpath=%d instrs=%d covers=%s" % (e, params, r["complete"], r["paths_ok"], r["paths_assume"], r["checks"], r["queries"], r["solver_s"], r["wall"], r["max_path"], r["instrs"], r["covers"]))
    for v in r["violations"][:2]:
        print("  VIOL", v["kind"], v["msg"]); print("  inputs", [x for _, x in v["inputs"]]); 
        for s in vz.demangle(v["stack"])[:12]: print("     ", s)
        if v["kind"] != "fatal" and not os.environ.get("NOREPLAY"):
            ok, det = vz.replay(crate, e, params, v, int(os.environ.get("PREEMPT","2"))); print("  confirmed", ok, {k: (x[0], x[1][-300:]) for k, x in det.items()})
    if not r["complete"]: print(r["log"][-500:])
