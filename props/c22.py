"""C22: every block cipher is a keyed permutation and computes its documented function."""
import core, ref
from core import R, X, OK, Scenario

MC = "CONSTANTS Ciphers <- MCCiphers\n Widths <- MCWidths\n Steps = 9\n Gen = \"no\"\n Slots = {1}\nSPECIFICATION Spec\nCONSTRAINT MCBound\nCHECK_DEADLOCK FALSE\n" \
     "INVARIANT TypeOK\nINVARIANT Permutation\nPROPERTY Inverse\n"


def gen(steps, kind):
    return f"CONSTANTS Ciphers <- AllCiphers\n Steps = {steps}\n Gen = \"{kind}\"\n Slots = {{1, 2, 3}}\nINIT Init\nNEXT {'SweepNext' if kind == 'sweep' else 'Next'}\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n"


def build_scenario(b, label, seed):
    name = b["c"]["n"]
    sc = Scenario(None, label, b)
    sc.do(f"blk.new b {name}", R(f"{name} 16 0"))
    keys = {}

    def cipher(k):
        t = (k["k"], k["info"], k["s"])
        if t not in keys:
            keys[t] = ref.BlockCipher(name, ref.prg(seed + k["s"] + 20, 0, k["k"]), ref.prg(seed + k["s"] + 20, 2000, k["info"]))
        return keys[t]
    for e in b["h"]:
        if e["op"] == "init":
            k = e["key"]
            sd = seed + k["s"] + 20
            sc.do(f"blk.init b {e['d']} @{sd}:0:{k['k']} @{sd}:2000:{k['info']}",
                  X("Symmetric") if e["exp"] == "throw" else R(f"{e['rounds']} 1 {int(e['d'] == 'enc')}"))
        elif e["op"] == "data":
            sc.do(f"buf s{e['i']} @{seed + e['s']}:0:{16 * e['n']}")
        else:
            v = ref.prg(seed + e["term"]["src"], 0, 16 * e["n"])
            for o in e["term"]["ops"]:
                v = cipher(o["key"]).ecb(v, o["d"] == "dec")
            how = e["d"] if e["how"] == "blk" else e["how"]
            sc.do(f"blk.tr b {how} {e['n']} $s{e['i']} {e['io']} {e['oo']} s{e['i']}", R(b"\xa5" * e["oo"] + v + b"\xa5" * 4),
                  f"{name} {e['d']} {e['n']} blocks, {len(e['term']['ops'])} permutations from the source")
    return sc


def body(chk):
    chk.build(["block"])
    T = chk.thorough
    chk.model("BlockCipher", MC, "one slot, chains of three, toy keyed permutations")
    g = [chk.generate("BlockCipher", gen(5, "sweep")),
         chk.generate("BlockCipher", gen(14, "walk"), num=6000 if T else 800, depth=17)]
    scs = []
    for k, f in enumerate(g):
        for i, b in enumerate(f.result()):
            scs.append(build_scenario(b, f"block/{b['c']['n']}/{('sweep', 'walk')[k]}/{i}", chk.seed * 100000 + i * 50))
    if T:
        for r in range(1, 4):
            scs += [build_scenario(b, f"block/{b['c']['n']}/sweep{r}/{i}", chk.seed * 100000 + r * 7777777 + i * 50) for i, b in enumerate(g[0].result())]
    chk.replay(scs)
    chk.assumptions += ["the value of a slot's normal form is computed by ref.c (Rijndael, Serpent from their specifications) with round keys from hashlib HKDF/HMAC or ref.c cSHAKE"]
