"""C16: asymmetric keys keep their identity through every container and stream."""
import re
import ref
from core import R, X, F, OK, Scenario

NAMES = {1: "ECDH", 2: "Kyber", 3: "McEliece", 5: "Dilithium", 6: "ECDSA", 9: "SPHINCS+", 10: "XMSS", 11: "XMSSMT", 0: "none"}
ALL = [p for p in range(1, 65) if p != 4]


def cfg(params, use, lens, pols, steps, gen, objs=5):
    j = lambda v: "{" + ", ".join(map(str, v)) + "}"
    s = f"CONSTANTS Params = {j(params)}\n UseParams = {j(use)}\n Lens = {j(lens)}\n Policies = {j(pols)}\n Steps = {steps}\n Gen = \"{gen}\"\n MaxObjs = {objs}\nCHECK_DEADLOCK FALSE\n"
    if gen == "no":
        return s + "SPECIFICATION MCSpec\nCONSTRAINT MCBound\nINVARIANT Exact\nINVARIANT Halves\n"
    return s + f"INIT Init\nNEXT {dict(sweep='SweepNext', use='UseNext', walk='Next')[gen]}\nINVARIANT Emit\n"


def build_scenario(b, label, seed):
    sc = Scenario(None, label, b)
    names = {}

    def expr(k):
        if k["id"] == 0:
            return "-"
        return f"@{seed + k['id']}:0:{k['n']}" if k["id"] < 1000 else f"$P{(k['id'] - 1001) // 2 + 1}.{'pub' if k['id'] % 2 else 'prv'}"

    def ident(k, note=""):
        if k["prim"] == 11 and k["id"] >= 1000:          # XMSS-MT pairs name their primitive XMSS
            return F(lambda r: None if re.match(r"R %d %d (10|11) same$" % (k["cls"], k["par"]), r) else f"expected {k}, got {r}")
        return R(f"{k['cls']} {k['par']} {k['prim']} same")

    def header(k):
        return "x%02x%02x%02x" % (k["cls"], k["par"], 10 if k["prim"] == 11 and k["id"] >= 1000 else k["prim"])
    for e in b["h"]:
        op = e["op"]
        k = e.get("k")
        vec = "sec" if e.get("sec") else "vec"
        o = f"k{e['obj']}" if "obj" in e else None
        if op == "make":
            if e["kind"] == "plain":
                sc.do(f"akey.make {o} {expr(k)} {k['prim']} {k['cls']} {k['par']} {vec}")
            else:
                sc.do(f"skey.make {o} {expr(k)} {'@%d:9:%d' % (seed, e['salt']) if e['salt'] else '-'} {k['prim']} {k['cls']} {k['par']} {e['pol']} {vec}")
            names[e["obj"]] = o
        elif op == "seal":
            sc.do(f"skey.make {o} {expr(k)} {'@%d:9:%d' % (seed, e['salt']) if e['salt'] else '-'} {k['prim'] if k['prim'] != 11 or k['id'] < 1000 else 10} {k['cls']} {k['par']} {e['pol']} {vec}")
            names[e["obj"]] = o
        elif op == "refused":
            v = dict(poly=f"@{seed}:0:50", prim=e["prim"], param=e["p"], policy=2)
            v["class"] = 2
            v[e["what"]] = "-" if e["what"] == "poly" else 0
            if e["kind"] == "plain":
                sc.do(f"akey.make no {v['poly']} {v['prim']} {v['class']} {v['param']} {vec}", X("Asymmetric"), "made of nothing: " + e["what"])
            else:
                sc.do(f"skey.make no {v['poly']} @{seed}:9:8 {v['prim']} {v['class']} {v['param']} {v['policy']} {vec}", X("Asymmetric"), "made of nothing: " + e["what"])
        elif op == "pair":
            n = f"P{e['pair']}"
            sc.do(f"agen {n} {e['p']} {seed + 600 + e['pair']}", F(lambda r: None if re.match(r"R [1-9]\d* [1-9]\d*$", r) else "expected a pair, got " + r[:100]))
            names[e["pub"]], names[e["prv"]] = n + ".pub", n + ".prv"
        elif op == "look":
            n = names[e["obj"]]
            sc.do(f"{'akey' if e['kind'] == 'plain' else 'skey'}.look {n} {expr(k)}{' 7' if e['kind'] == 'sealed' and k['n'] % 3 == 0 else ''}", ident(k))
            if e["kind"] == "sealed" and 0 < k["n"]:
                sc.do(f"skey.short {n} {k['n'] - 1}", X("Asymmetric"), "too small an array")
        elif op == "store":
            kind = "akey" if e["kind"] == "plain" else "skey"
            if k["prim"] == 11 and k["id"] >= 1000:
                sc.do(f"{kind}.store s{e['stream']} {names[e['obj']]} x00", F(lambda r: None if r.startswith("R ") else r))
            else:
                sc.do(f"{kind}.store s{e['stream']} {names[e['obj']]} {header(k)}+{expr(k)}", OK, "the serialized key")
        elif op == "load":
            sc.do(f"akey.load {o} $s{e['stream']} {e['by']}")
            names[e["obj"]] = o
            sc.do(f"akey.look {o} {expr(k)}", ident(k), "the key read from a stream")
        elif op == "short":
            sc.do(f"akey.load no $s{e['stream']}[0:{e['n']}] {e['by']}", X("Asymmetric"), "a stream with no key in it")
        elif op == "reset":
            sc.do(f"{'akey' if e['kind'] == 'plain' else 'skey'}.reset {names[e['obj']]}")
            if e["alone"] and 24 <= k["n"] and not any(x["op"] == "store" and x["k"]["id"] == k["id"] for x in b["h"]):
                sc.do(f"akey.mem @{seed + k['id']}:4:16", OK, "the key stays in memory after it was reset")
        elif op == "drop":
            sc.do(f"akey.drop {names[e['obj']]} {'@%d:4:16' % (seed + k['id']) if 24 <= k['n'] else '-'}", OK, "the key stays in memory given back")
        elif op == "atrest":
            sc.do(f"akey.mem @{seed + k['id']}:4:16", OK, "a sealed key lies in memory in the clear")
        elif op == "use":
            sc.do(f"akey.use {e['par']} {names[e['pub']]} {names[e['prv']]}", R("yes" if e["yes"] else "no"), "two halves" if e["yes"] else "halves of different pairs")
        elif op == "box":
            sc.do(f"apair {names[e['pub']]} {names[e['prv']]} {'@%d:3:16' % seed if e['tag'] else '-'}", OK, "a pair of keys")
    return sc


def body(chk):
    chk.build(["asym"], without=("PrngFromName",))
    T = chk.thorough
    pols = range(1, 7)
    chk.model("AsymKey", cfg((1, 9), (1,), (24,), (1,), 4 if T else 3, "no", 3), ("four" if T else "three") + " operations on up to three containers", workers=3)
    use = (1, 2, 3, 5, 6, 7, 8, 9, 10, 11, 12, 13, 17, 18, 34, 37, 42, 48, 53, 61) + ((14, 15, 16, 19, 20, 21, 24, 27, 30, 40, 45, 50, 56, 58, 64) if T else ())
    g = [("sweep", chk.generate("AsymKey", cfg(ALL, (1,), (1, 2, 24, 33, 1000, 70000), pols, 9, "sweep"), workers=2)),
         ("use", chk.generate("AsymKey", cfg((1,), use, (33,), (1,), 14, "use", 9), workers=1)),
         ("walk", chk.generate("AsymKey", cfg(ALL, (1, 5, 7, 9, 10, 12), (1, 24, 64, 65, 300, 5000), pols, 14, "walk"), num=4000 if T else 500, depth=17, workers=2))]
    scs = []
    for kind, fut in g:
        for i, b in enumerate(fut.result()):
            h = b["h"][0]
            scs.append(build_scenario(b, f"akey/{kind}/{h.get('kind', 'pair')}/{h.get('pol', h.get('p', 0))}/{i}", (chk.seed * 100000 + len(scs)) * 1000))
    scs.sort(key=lambda s: -(9 if "/use/" in s.label else 1))
    chk.log(len(scs), "scenarios")
    chk.replay(scs, timeout=600)
    chk.assumptions += ["XMSS-MT pairs may name their primitive XMSS or XMSS-MT", "the clear is looked for in the live heap blocks of the process, by 16 bytes of the key",
                        "the random source is replaced by one with known output"]
