"""C17: the memory pool's blocks, and the contents of secure containers."""
import json, ref
from core import R, X, F, OK, Scenario


def table(configs):
    return {"PoolCfg.tla": "---- MODULE PoolCfg ----\nConfigs == {%s}\n====\n" % ", ".join("[size |-> %d, min |-> %d, max |-> %d, al |-> %d]" % c for c in configs)}


def pcfg(steps, gen):
    s = f"CONSTANTS Steps = {steps}\n Gen = \"{gen}\"\nCHECK_DEADLOCK FALSE\n"
    return s + ("SPECIFICATION Spec\nINVARIANT Safe\nINVARIANT Whole\nINVARIANT Exact\n" if gen == "no" else "INIT Init\nNEXT Next\nINVARIANT Emit\n")


LIST = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT Conserved\nINVARIANT Joined\nINVARIANT Enough\nPROPERTY Implements\n"


def vcfg(widths, counts, steps, gen):
    s = f"CONSTANTS Widths = {{{widths}}}\n Counts = {{{counts}}}\n Steps = {steps}\n Gen = \"{gen}\"\nCHECK_DEADLOCK FALSE\n"
    return s + ("SPECIFICATION Spec\nINVARIANT Whence\nINVARIANT Whole2\n" if gen == "no" else "INIT Init\nNEXT Next\nINVARIANT Emit\n")


def val(seed, d):
    return b"".join(ref.prg(seed + r["s"], r["o"], r["n"]) if r["s"] else bytes(r["n"]) for r in d)


def vectors(b, label, seed):
    sc = Scenario(None, label, b)
    w = b["w"]
    hx = lambda d: val(seed, d).hex() or "-"
    kinds = {}
    for k, e in enumerate(b["h"], 1):
        op, exp = e["op"], R(" ".join(hx(d) for d in e["after"]))
        if op == "new":
            sc.do(f"sv {w} new v{e['a']} {'sec' if e['sec'] else 'plain'} {'@%d:0:%d' % (seed + k, e['n']) if e['n'] else '-'}", exp)
        elif op in ("resize", "push", "clear"):
            held = next((r for r in e["held"] if r["s"] and r["n"] >= 16), None) if e["sec"] else None
            if held:
                sc.do(f"sv.watch @{seed + held['s']}:{held['o']}:{min(held['n'], 32)}")
            sc.do(f"sv {w} {op} v{e['a']}" + ("" if op == "clear" else f" {e['n']}" if op == "resize" else f" @{seed + k}:0:{e['n']}"), exp)
            if held:
                sc.do("sv.freed", R("no"), "memory a secure container gave back holds its contents")
        else:
            sc.do(f"sv {w} {op} v{e['a']} v{e['b']}" + "".join(f" {n}" for n in e.get("n", ())), exp)
    for i, v in enumerate(b["vs"], 1):
        sc.do(f"sv {w} show v{i}", R(hx(v["d"])), "in the end")
        held = next((r for r in v["d"] if r["s"] and r["n"] >= 16), None) if v["sec"] else None
        if held:
            sc.do(f"sv.watch @{seed + held['s']}:{held['o']}:{min(held['n'], 32)}")
            sc.do(f"sv {w} drop v{i}")
            sc.do("sv.freed", R("no"), "memory of a destroyed secure container holds its contents")
    return sc


def body(chk):
    chk.build(["pool"])
    T = chk.thorough
    small = [(s, 1, s, al) for s in ((6, 7, 8) if not T else (6, 7, 8, 9)) for al in (1, 2, 4)]
    chk.model("Pool", pcfg(0, "no"), "pools of up to %d bytes, any history" % small[-1][0], workers=2, files=table(small))
    chk.model("PoolList", LIST, "the free list implements the pool, any history", workers=2,
              files=table([(s, 1, s, al) for s in ((7, 8, 9) if not T else (8, 9, 10)) for al in (1, 2, 4)]))
    chk.model("Vectors", vcfg("1, 2", "0, 1, 2", 4, "no"), "four operations on up to four vectors", workers=2)
    confs = [(256, 1, 256, 16), (256, 16, 128, 16), (1024, 16, 128, 16), (4096, 16, 4096, 64), (100, 1, 100, 1), (1000, 3, 500, 8), (512, 8, 512, 32), (8192, 1, 8192, 2), (320, 16, 320, 4)]
    gen = [chk.generate("Pool", pcfg(n, "walk"), num=k, depth=n + 2, workers=2, seed=chk.seed + n, files=table(confs))
           for n, k in (((12, 400), (40, 200)) if not T else ((12, 4000), (40, 2000), (150, 400)))]
    vgen = [chk.generate("Vectors", vcfg("1, 2, 4, 8", c, 12, "walk"), num=(2000 if T else 300), depth=15, workers=2, seed=chk.seed + i)
            for i, c in enumerate(("0, 1, 3, 8, 31, 32, 33", "0, 1, 7, 64, 100, 257"))]
    scs, recs = [], {}
    bits = {1: 0, 2: 1, 4: 2, 8: 3, 16: 4, 32: 5, 64: 6}

    def record(cf, label, line, parse=True):
        sc = Scenario(None, label, line)
        def got(r, sc=sc):
            if not r.startswith("R "):
                return "expected a history, got " + r
            recs[label] = {"cf": cf, "ev": json.loads(r[2:])}
        sc.do(line, F(got))
        scs.append(sc)
    n = 0
    for f in gen:
        for b in f.result():
            c = b["cf"]
            ops = " ".join(e["e"] + (str(e["k"]) if e["e"] in "af" else "") for e in b["h"])
            # in the end, all is given back and the whole pool taken
            record(c, f"pool/run/{n}", f"pool.run {c['size']} {c['min']} {c['max']} {bits[c['al']]} {ops} z a{min(c['size'], c['max'])} z a{c['min']}")
            n += 1
    for k in range(60 if T else 16):
        s, mn, mx, al = confs[k % len(confs)]
        record({"size": s, "min": mn, "max": mx, "al": al}, f"pool/threads/{k}", f"pool.threads {s} {mn} {mx} {bits[al]} {2 + k % 7} {4000 if T else 1200} {chk.seed * 1000 + k}")
    sc = Scenario(None, "pool/refused")
    for args, e in (("ok 16 64 4", OK), ("null 16 64 4", X("Crypto")), ("ok 65 64 4", X("Crypto")), ("ok 16 64 7", X("Crypto")), ("ok 64 64 6", OK)):
        sc.do("pool.bad " + args, e)
    scs.append(sc)
    for g, f in enumerate(vgen):
        for i, b in enumerate(f.result()):
            scs.append(vectors(b, f"vectors/{g}/{i}", (chk.seed * 10000000 + g * 1000000 + i) * 100))
    chk.log(len(scs), "scenarios")
    chk.replay(scs)
    full = {l: {"cf": r["cf"], "ev": [{"at": -1, "n": 0, "z": True, "s": False, "ok": True, **e} for e in r["ev"]]} for l, r in recs.items()}
    for l, k in chk.validate("PoolTrace", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT Safe\nINVARIANT Done\n", full)[:8]:
        ev = recs[l]["ev"]
        chk.fail(l, f"the specification does not allow event {k} of the recorded history: {json.dumps(ev[k])}", {"pool": recs[l]["cf"], "history": ev[:k + 1]})
    chk.assumptions += ["pools of up to 8192 bytes whose memory is itself aligned", "thread schedules are those of the run (not controlled)",
                        "a block is live from the return of its allocation to the call that frees it"]
