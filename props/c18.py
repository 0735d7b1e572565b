"""C18: parallel loops and the thread pool, under controlled schedules; the parallel options."""
import json, os, re
from core import R, X, F, OK, ANY, Scenario
import build

NAMES = r"std::(atomic\w*|mutex|timed_mutex|recursive_mutex|condition_variable\w*|thread|this_thread|async|future)\b"


def sources(d, free):
    """The library's own text, with the names of the standard library's threads those of driver/vstd.h."""
    os.makedirs(d, exist_ok=True)
    for src, dst in (("ThreadPool.h", "sched_ThreadPool.h"), ("ParallelTools.cpp", "sched_ParallelTools.inc")):
        s = open(f"{build.REPO}/CEX/{src}", encoding="utf-8", errors="replace", newline="").read()
        open(f"{d}/{dst}", "w", newline="").write(s if free else re.sub(NAMES, r"vstd::\1", s))
    return ["-I" + d] + (["-DCEXV_FREE"] if free else [])


def scfg(what, steps, gen):
    return f"CONSTANTS What = \"{what}\"\n Steps = {steps}\n Gen = \"{gen}\"\nCHECK_DEADLOCK FALSE\nINIT Init\nNEXT Next\nINVARIANT Emit\n"


def options(b, label, recs):
    sc = Scenario(None, label, b)
    st = {"min": 0, "lanes": 1, "last": None}
    rec = {"kind": b["h"][0]["kind"], "bs": b["h"][0]["bs"], "simd": b["h"][0]["simd"], "ev": []}

    def state(r):
        v = [int(x) for x in r[2:].split()]
        return {"bs": v[0], "deg": v[1], "min": v[2], "size": v[3], "on": v[4] == 1, "cpu": v[5], "def": v[7] == 1}

    def take(op, n, d, on, refusable=True):
        def got(r):
            if r.startswith("X Processing") and refusable and st["last"]:
                rec["ev"].append({"op": op, "n": n, "d": d, "on": on, "refused": True, "r": st["last"]})
                return None
            if not r.startswith("R "):
                return "expected the options, got " + r
            st["last"] = state(r)
            rec["ev"].append({"op": op, "n": n, "d": d, "on": on, "refused": False, "r": st["last"]})
            return None
        return F(got)
    for e in b["h"]:
        unit = rec["bs"]
        size = e.get("m", 0) * unit * (1 if not rec["simd"] else 4) + e.get("d", 0)
        if e["o"] == "new":
            tf = lambda x: "1" if x else "0"
            if e["kind"] == "auto":
                sc.do(f"opt.auto o {e['bs']} {tf(e['simd'])} {e['cache']} {tf(e['split'])} {e['deg']}", take("new", 0, e["deg"], True, False))
            elif e["kind"] == "forced":
                sc.do(f"opt.forced o {e['bs']} {tf(e['simd'])} {e['cache']} {tf(e['split'])} {e['deg']} {tf(e['on'])}", take("new", 0, e["deg"], e["on"], False))
            else:
                sc.do(f"opt.manual o {e['bs']} {tf(e['on'])} {size} {e['deg']} {tf(e['simd'])} {e['cache']} {tf(e['split'])}", take("new", size, e["deg"], e["on"], False))
        elif e["o"] == "size":
            sc.do(f"opt.size o {size}", take("size", size, 0, False))
        elif e["o"] == "degree":
            sc.do(f"opt.degree o {e['n']}", take("degree", e["n"], 0, False))
        else:
            sc.do(f"opt.calc o {int(e['on'])} {size} {e['n']}", take("calc", size, e["n"], e["on"]))
    recs[label] = rec
    return sc


def body(chk):
    d = os.path.join(chk.scratch, "sched")
    chk.build(["par"], defines=sources(d, False), without=("ParallelTools",), fallback=sources(d + "2", True))
    T = chk.thorough
    for n, m in ((3, 2), (2, 3)) if not T else ((3, 2), (4, 2), (3, 3), (4, 3)):
        chk.model("ThreadPool", f"CONSTANTS N = {n}\n Max = {m}\n LooseCount = FALSE\n LooseStop = FALSE\nSPECIFICATION Spec\nINVARIANT All\nINVARIANT Sound\nPROPERTY Ends\nPROPERTY Implements\n",
                  f"{n} tasks, at most {m} threads, every interleaving", workers=2)
    chk.model("Tasks", "CONSTANTS Ids = {1, 2, 3}\n Waiters = {1}\nSPECIFICATION Spec\nINVARIANT Once\nINVARIANT Bounded\nCHECK_DEADLOCK FALSE\n", "three tasks, any history", workers=2)
    short = chk.generate("Scripts", scfg("pool", 3, "all"))
    walks = chk.generate("Scripts", scfg("pool", 9, "walk"), num=(3000 if T else 300), depth=12, workers=2)
    opts = [chk.generate("Scripts", scfg("opts", n, "walk"), num=(6000 if T else 500), depth=n + 3, workers=2, seed=chk.seed + n) for n in (1, 6)]
    scs, recs, orecs = [], {}, {}

    def record(label, line, mx):
        sc = Scenario(None, label, line)
        def got(r, sc=sc):
            if not r.startswith("R "):
                return "expected a history, got " + r
            recs[label] = {"max": mx, "ev": json.loads(r[2:])}
        sc.do(line, F(got))
        scs.append(sc)
    n = 0
    for f, reps in ((short, 4 if T else 1), (walks, 4 if T else 2)):
        for b in f.result():
            for r in range(reps):
                n += 1
                th = (0, 2, 3, 2, 1025, 1, 4)[n % 7]
                ops = " ".join(e["o"] + (str(e["k"]) if e["k"] >= 0 else "") for e in b["h"] if e["o"] != "-")
                record(f"pool/{n}", f"par.pool {chk.seed * 1000003 + n} {(1, 2, 3, 6)[(n // 7) % 4]} {th} {ops}", th if 2 <= th <= 1024 else 1024)
    for n in range(2000 if T else 400):
        lo = n % 3
        record(f"for/{n}", f"par.for {chk.seed * 1000003 + n} {1 + n % 4} {n % 5} {lo} {lo + n % 9}" + (f" {1 + n % 3}" if n % 4 == 3 else ""), 0)
        if n % 10 == 0:
            record(f"task/{n}", f"par.task {chk.seed * 1000003 + n} {1 + n % 4} {n % 5}", 0)
    for g, f in enumerate(opts):
        for i, b in enumerate(f.result()):
            scs.append(options(b, f"options/{g}/{i}", orecs))
    chk.log(len(scs), "scenarios")
    chk.replay(scs)
    cfg = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT Done\n"
    for l, k in chk.validate("TasksTrace", cfg, recs)[:8] if recs else ():
        chk.fail(l, f"the specification does not allow event {k} of the recorded schedule: {json.dumps(recs[l]['ev'][k])}", {"history": recs[l]})
    orecs = {l: r for l, r in orecs.items() if r["ev"]}
    for l, k in chk.validate("ParOptions", cfg + "CONSTANT Lanes = 8\n", orecs)[:8] if orecs else ():
        chk.fail(l, f"the specification does not allow event {k} of the recorded history: {json.dumps(orecs[l]['ev'][k])}", {"history": orecs[l]})
    chk.assumptions += ["schedules switch threads at operations on threads, mutexes, conditions and atomics (sequentially consistent)",
                        "the library's text is compiled with these names bound to the scheduler's (driver/vstd.h); the tasks do not throw",
                        "SIMD lanes of the build (8: AVX2)"]
