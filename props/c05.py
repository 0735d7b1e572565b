"""C05: a digest is a function of the message bytes alone."""
import core, ref, reftree
from core import R, X, OK, ANY, Scenario

MC = "CONSTANTS Algs <- MCAlgs\n Modes <- MCModes\n Steps = 4\n Gen = \"no\"\nSPECIFICATION Spec\nCONSTRAINT MCBound\nVIEW MCView\nCHECK_DEADLOCK FALSE\n" \
     "INVARIANT TypeOK\nINVARIANT NothingLost\nINVARIANT LeafPartition\nINVARIANT LeafBalance\nPROPERTY ResetsToInitial\n"


def gen(algs, modes, steps, kind):
    return f"CONSTANTS Algs <- {algs}\n Modes <- {modes}\n Steps = {steps}\n Gen = \"{kind}\"\nINIT Init\nNEXT {'SweepNext' if kind == 'sweep' else 'Next'}\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n"


def fan(alg, mode):
    return {"seq": 1, "tree": 4 if alg == "Blake512" else 8, "2": 2, "4": 4, "8": 8}[mode]


def piece(p, sd):
    return ref.prg(sd + p["s"], 0, p["n"])


def build_scenario(b, label, seed, memo):
    alg, mode = b["alg"]["n"], b["mode"]
    F, D = fan(alg, mode), b["alg"]["d"]
    sc = Scenario(None, label, {"alg": alg, "mode": mode, "h": b["h"]})
    tree = F > 1

    def value(term):
        m = b"".join(piece(p, seed) for p in term)
        return ref.digest(alg, m) if not tree else treeval(alg, F, m)

    sc.do(f"dg.new d {alg} {mode}", ANY)
    for e in b["h"] + [{"op": "fin", "size": D, "off": 0, "exp": "ok", "term": b["msg"]}]:
        if e["op"] == "upd":
            o, n = e["off"], e["n"]
            data = f"@{seed + e['s'] + 5000}:0:{o}+@{seed + e['s']}:0:{n}+z3:77"
            sc.do(f"dg.upd d {data} {o} {n}")
        elif e["op"] == "int":
            v = int.from_bytes(ref.prg(seed + e["s"], 0, e["w"] // 8), "little")
            sc.do(f"dg.int d {e['w']} {v}")
        elif e["op"] == "reset":
            sc.do("dg.reset d")
        elif e["op"] == "fin":
            if e["exp"] == "throw":
                sc.do(f"dg.fin d {e['size']} {e['off']}", X("Digest"), "short output")
            else:
                h = value(e["term"])
                buf = bytearray(b"\xa5" * e["size"])
                buf[e["off"]:e["off"] + D] = h
                sc.do(f"dg.fin d {e['size']} {e['off']}", R(buf), f"{alg}/{mode} digest of {sum(p['n'] for p in e['term'])} bytes")
        elif e["op"] == "comp":
            sc.do(f"dg.comp d @{seed + e['s']}:0:{e['n']} {D}", R(value(e["term"])), f"{alg}/{mode} one-shot")
    return sc


def treeval(alg, F, m):
    return reftree.tree(alg, F, m)


def body(chk):
    chk.build(["digest"])
    T = chk.thorough
    chk.model("Digest", MC, "toy block sizes 2 and 3, fan-outs 1, 2, 4, messages up to 40 bytes in 4 pieces")
    g = [chk.generate("Digest", gen("AllDigests", "SeqOnly", 3, "sweep"), workers=2),
         chk.generate("Digest", gen("AllDigests", "SeqOnly", 10, "walk"), num=3000 if T else 500, depth=13),
         chk.generate("Digest", gen("TreeAlgs", "AllModes", 8, "walk"), num=6000 if T else 900, depth=11)]
    scs = []
    for k, f in enumerate(g):
        for i, b in enumerate(f.result()):
            scs.append(build_scenario(b, f"digest/{b['alg']['n']}/{b['mode']}/{['sweep', 'seq', 'tree'][k]}{i}", chk.seed * 100000 + i * 50, {}))
    chk.replay(scs)
    chk.assumptions += ["term values come from hashlib (OpenSSL) and ref.c; the tree construction is the library's own"]
