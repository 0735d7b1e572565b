"""C08: a DRBG hands out each byte of its key's stream once, and re-keys when it has to."""
import core, ref
from core import R, X, OK, Scenario

MC = "CONSTANTS Gens <- MCGens\n MaxReseed = 3\n DefThr = 7\n Steps = 0\n Gen = \"no\"\nSPECIFICATION MCSpec\nCONSTRAINT MCBound\nVIEW MCView\nCHECK_DEADLOCK FALSE\n" \
     "INVARIANT TypeOK\nINVARIANT ReseedsBounded\nINVARIANT ZeroesOnlyHandedOut\nPROPERTY EntropyInTime\nPROPERTY OnceInOrder\nPROPERTY CutStream\n"
NEXT = {"walk": "Next", "sweep": "SweepNext", "keys": "KeyNext", "limit": "LimitNext"}


def gen(gens, steps, kind):
    return f"CONSTANTS Gens <- {gens}\n MaxReseed = 10000\n DefThr = 102400000\n Steps = {steps}\n Gen = \"{kind}\"\nINIT Init\nNEXT {NEXT[kind]}\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n"


def build_scenario(b, label, seed):
    g = b["g"]
    sc = Scenario(None, label, b)
    ps = seed + 40
    sc.do(f"drbg.new g {g['n']} {f'prov:{ps}' if g['prov'] else 'digest' if g['kind'] == 'hcg' and seed % 4 == 0 else 'none'}", R("0"))
    model, used, epoch = None, 0, None
    part = lambda e, k: (ref.prg(seed + e["s"] + 50, 0, e["k"]), ref.prg(seed + e["s"] + 50, 1000, e.get("iv", 0)), ref.prg(seed + e["s"] + 50, 2000, e.get("info", 0)))
    for j, e in enumerate(b["h"]):
        bad = e.get("exp") == "throw"
        if e["op"] == "init":
            sd = seed + e["s"] + 50
            sc.do(f"drbg.init g @{sd}:0:{e['k']} @{sd}:1000:{e['iv']} @{sd}:2000:{e['info']}", X("Generator", "Symmetric") if bad else R("1"))
        elif e["op"] == "upd":
            sc.do(f"drbg.upd g @{seed + e['s'] + 50}:0:{e['k']} {('vec', 'sec')[j % 2]} {e['many']}", X("Generator") if bad else OK, "refused: key size or reseed count" if bad else "")
        elif e["op"] == "thr":
            sc.do(f"drbg.thr g {e['v']}", R(str(e["v"])))
        elif e["op"] == "par":
            p = e["par"]
            sc.do(f"drbg.par g {int(p['on'])} {p['size']} {p['degree']}")
        elif e["op"] == "q":
            sc.do("drbg.q g", core.F(lambda r, v=e["v"]: r[0] == str(int(v)) and r.split()[3:5] == ["10000", "102400000"]))
        else:
            sec = "sec" if e["sec"] else "vec"
            size = e["off"] + e["n"] + (0 if e["off"] == 0 and e["n"] % 2 == 0 else 2)
            if bad and "short" in e:
                size = e["off"] + e["n"] - (1 if e["short"] else 0)
                sc.do(f"drbg.gen g {size} {e['off']} {e['n']} {sec}", X("Generator"), "no key, or too small a buffer")
                continue
            if model is None or e["ev"][:used] != epoch:
                model, used = ref.drbg(g["n"], lambda at, n: ref.prg(ps, at, n)), 0
            for x in e["ev"][used:]:
                model.event(x, *(part(x, x["k"]) if x["t"] in ("load", "upd") else (None, None, None)))
            used, epoch = len(e["ev"]), e["ev"]
            if bad:
                sc.do(f"drbg.gen g {size} {e['off']} {e['n']} {sec}", X("Generator"), "reseed count exceeded")
            else:
                v = b"\xa5" * e["off"] + model.bytes(e["pos"], e["n"])
                v += b"\xa5" * (size - len(v))
                sc.do(f"drbg.gen g {size} {e['off']} {e['n']} {sec}", R(v), f"{g['n']} stream bytes {e['pos']}..{e['pos'] + e['n']}")
    return sc


def body(chk):
    chk.build(["drbg"])
    T = chk.thorough
    chk.model("Drbg", MC, "three generator kinds with and without entropy, blocks of 3 bytes, requests of up to 7, thresholds 4, 7 and 9, three reseeds")
    f = [("sweep", chk.generate("Drbg", gen("CsgSweep", 6, "sweep"), workers=2)),
         ("keys", chk.generate("Drbg", gen("AllGens", 4, "keys"))),
         ("limit", chk.generate("Drbg", gen("PlainGens" if not T else "AllGens", 8, "limit"))),
         ("walk", chk.generate("Drbg", gen("AllGens", 9, "walk"), num=8000 if T else 900, depth=12))]
    scs = []
    for kind, fut in f:
        bs = fut.result()
        step = 1 if T else {"sweep": 4, "keys": 2}.get(kind, 1)
        for i, b in enumerate(bs):
            if i % step == chk.seed % step:
                scs.append(build_scenario(b, f"drbg/{b['g']['n']}{'+' if b['g']['prov'] else ''}/{kind}/{i}", chk.seed * 100000 + i * 100))
    for i, n in enumerate(["BCG", "CSG256", "HCG512"]):
        sc = Scenario(None, f"drbg/{n}/request/{i}")
        sc.do(f"drbg.new g {n} {'factory' if i else 'none'}", R("0"))
        sc.do(f"drbg.init g @{i}:0:64 @{i}:100:32 -", R("1"))
        sc.do("drbg.big g 102400001", X("Generator"), "more than the largest request")
        scs.append(sc)
    chk.replay(scs)
    chk.assumptions += ["the values of the blocks are those of an independent implementation of each generator's construction (ref.py)",
                        "entropy sources are replaced by one with known output"]
