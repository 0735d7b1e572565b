"""C07: a KDF hands out the published stream of its inputs, each block once, within its limit."""
import core, ref
from core import R, X, OK, Scenario

MC = "CONSTANTS Kdfs <- MCKdfs\n Steps = 9\n Gen = \"no\"\nSPECIFICATION Spec\nCONSTRAINT MCBound\nCHECK_DEADLOCK FALSE\n" \
     "INVARIANT TypeOK\nINVARIANT NoRepeat\nINVARIANT InOrder\nINVARIANT WithinLimit\nINVARIANT Accounted\nPROPERTY OneWay\n"


def gen(steps, kind):
    return f"CONSTANTS Kdfs <- {'SweepKdfs' if kind == 'sweep' else 'AllKdfs'}\n Steps = {steps}\n Gen = \"{kind}\"\nINIT Init\nNEXT {'SweepNext' if kind == 'sweep' else 'Next'}\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n"


def parts(k, seed):
    sd = seed + k["s"] + 20
    return ref.prg(sd, 0, k["k"]), ref.prg(sd, 1000, k["salt"]), ref.prg(sd, 2000, k["info"])


def value(b, e, seed):
    alg, ctor = b["kdf"]["n"], b["ctor"].split(":")
    key, salt, info = parts(e["key"], seed)
    if ctor[0] == "cost":
        return ref.scbkdf(b["kdf"]["b"], int(ctor[1]), int(ctor[2]), key, salt, info, e["calls"] + [e["n"]])[-1]
    return ref.kdf_blocks(alg, key, salt, info, e["from"], e["n"], b["kdf"]["b"], int(ctor[1]) if len(ctor) > 1 else 10000)


def build_scenario(b, label, seed):
    alg = b["kdf"]["n"]
    sc = Scenario(None, label, b)
    sc.do(f"kdf.new k {alg} {b['ctor']}", R("0"))
    for j, e in enumerate(b["h"]):
        if e["op"] == "init":
            k = e["key"]
            sd = seed + k["s"] + 20
            how = "init k" if not alg.startswith("SHAKE") or (seed + j) % 3 == 0 else f"shinit k {('vec', 'sec')[(seed + j) % 3 - 1]}"
            sc.do(f"kdf.{how} @{sd}:0:{k['k']} @{sd}:1000:{k['salt']} @{sd}:2000:{k['info']}", X("Kdf", "Symmetric") if e["exp"] == "throw" else OK)
        elif e["op"] == "reset":
            sc.do("kdf.reset k")
        elif e["op"] == "q":
            sc.do("kdf.q k", R("1" if e["v"] else "0"))
        else:
            sec = "sec" if e["sec"] else "vec"
            if e["exp"] == "throw":
                size = e["off"] + e["n"] + e["tail"] - (1 if e.get("short") else 0)
                sc.do(f"kdf.gen k {size} {e['off']} {e['n']} {sec}", X("Kdf"), "beyond the limit, into too small a buffer, or without a key")
            else:
                v = b"\xa5" * e["off"] + value(b, e, seed) + b"\xa5" * e["tail"]
                sc.do(f"kdf.gen k {len(v)} {e['off']} {e['n']} {sec}", R(v), f"{alg} from block {e['from']}")
    return sc


def costly(label, seed, bits, b, cpu):
    """The memory cost bounds the cache: one derivation that reaches it."""
    sc = Scenario(None, label, {"kdf": {"n": "SCBKDF" + bits}, "cpu": cpu})
    sc.do(f"kdf.new k SCBKDF{bits} cost:{cpu}:1", R("0"))
    sc.do(f"kdf.init k @{seed}:0:32 - -")
    sc.do(f"kdf.gen k 64 0 64 vec", R(ref.scbkdf(b, cpu, 1, ref.prg(seed, 0, 32), b"", b"", [64])[0]), "cache past the memory cost")
    return sc


def body(chk):
    chk.build(["kdf"])
    T = chk.thorough
    chk.model("Kdf", MC, "block sizes 3 and 4, a limit of 7 blocks and none, three requests of up to five blocks")
    g = [chk.generate("Kdf", gen(3, "sweep"), workers=2),
         chk.generate("Kdf", gen(8, "walk"), num=8000 if T else 1500, depth=11)]
    scs = []
    for k, f in enumerate(g):
        for i, b in enumerate(f.result()):
            scs.append(build_scenario(b, f"kdf/{b['kdf']['n']}/{('sweep', 'walk')[k]}/{i}", chk.seed * 100000 + i * 50))
    # the default constructions, one known cost each
    for i, alg in enumerate(["PBKDF2256", "PBKDF2512"]):
        bb = {"kdf": {"n": alg, "b": 32 * (i + 1)}, "ctor": "enum", "h": [
            {"op": "init", "key": {"k": 9, "salt": 16, "info": 0, "s": 1}, "exp": "ok"},
            {"op": "gen", "n": 70, "off": 0, "tail": 0, "sec": False, "exp": "ok", "key": {"k": 9, "salt": 16, "info": 0, "s": 1}, "from": 0, "calls": []}]}
        scs.append(build_scenario(bb, f"kdf/{alg}/default/{i}", chk.seed * 100000))
    if T:
        scs.append(costly("kdf/SCBKDF128/memory/0", chk.seed + 5, "128", 168, 6100))
    chk.replay(scs)
    chk.assumptions += ["HKDF, PBKDF2 and KDF2 terms are evaluated with hashlib; SHAKE and SCBKDF with ref.c's Keccak",
                        "for SCBKDF the documented recurrence (cost-many absorptions of a cache that grows until the memory cost) is the definition"]
