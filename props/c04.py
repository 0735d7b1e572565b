"""C04: the unauthenticated stream ciphers emit one keystream, whatever the call pattern and path."""
import core, ref
from core import R, X, OK, Scenario

MC = "CONSTANTS Profiles <- MCProfiles\n Base = {b}\n Digits = {d}\n Steps = {s}\n Gen = \"no\"\nSPECIFICATION MCSpec\nCHECK_DEADLOCK FALSE\n" \
     "INVARIANT TypeOK\nINVARIANT Follows\nINVARIANT NoRepeat\nINVARIANT CarryRule\n"


def gen(steps, kind):
    return f"CONSTANTS Profiles <- Ciphers\n Base = 2\n Digits = 2\n Steps = {steps}\n Gen = \"{kind}\"\nINIT Init\nNEXT {'SweepNext' if kind == 'sweep' else 'Next'}\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n"


def ivbytes(kind, n, seed):
    r = ref.prg(seed, 1000, n)
    if n < 16 or kind == 0:
        return b"\xff" * n if kind == 1 and n else r
    return {1: b"\xff" * n, 2: b"\xfe" + b"\xff" * 7 + r[8:], 3: b"\xfb" + b"\xff" * 15 + r[16:], 4: b"\xf0" + b"\xff" * 14 + b"\x7f" + r[16:]}[kind]


def build_scenario(b, label, seed):
    name = b["pf"]
    sc = Scenario(None, label, b)
    sc.do(f"cr.new c {name} plain", R("00"))
    cache = {}

    def session(k):
        sd = seed + k["s"] + 20
        if sd not in cache:
            cache[sd] = ref.Stream(name, False, ref.prg(sd, 0, k["k"]), ivbytes(k["iv"], k["ivl"], sd), ref.prg(sd, 2000, k["info"]))
        return cache[sd]
    for e in b["h"]:
        if e["op"] == "init":
            k = e["key"]
            sd = seed + k["s"] + 20
            ivv = ivbytes(k["iv"], k["ivl"], sd)
            sc.do(f"cr.init c {e['d']} @{sd}:0:{k['k']} {'x' + ivv.hex() if ivv else '-'} @{sd}:2000:{k['info']}",
                  X("Symmetric") if e["exp"] == "throw" else R(f"1{int(e['d'] == 'enc')}"))
        elif e["op"] == "par":
            p = e["par"]
            sc.do(f"cr.par c {int(p['on'])} {p['size']} {p['degree']}")
        elif e["op"] == "deg":
            sc.do(f"cr.deg c {e['n']}", X("Symmetric"))
        elif e["op"] == "ser":
            sc.do("cr.ser c", ("F", lambda r: None if r.startswith("R 1") else "a stored state was not restored: " + r), f"{name} state restored")
        elif e["op"] == "q":
            sc.do("cr.q c", R(f"1{int(e['d'] == 'enc')}") if e["st"] else core.ANY)
        else:
            n, s = e["n"], session(e["key"])
            data = ref.prg(seed + e["s"], 0, n)
            ks = s.keystream(e["pos"], n)
            v = (int.from_bytes(data, "big") ^ int.from_bytes(ks, "big")).to_bytes(n, "big")
            sc.do(f"cr.tr c @{seed + e['s']}:0:{n} {e['io']} {e['oo']} {n} {n + 7}", R(b"\xa5" * e["oo"] + v + b"\xa5" * 7),
                  f"{name} {n} bytes from block {e['pos']}")
    return sc


def body(chk):
    chk.build(["stream"])
    T = chk.thorough
    chk.model("Stream", MC.format(b=2, d=4, s=16 if T else 10), "counter of four bits: every start, every mix of sequential, wide and parallel calls of 1..7 blocks")
    chk.model("Stream", MC.format(b=4, d=2, s=20 if T else 12), "counter of two base-4 digits: the same, with every digit-wise increase compared with integer addition")
    g = [chk.generate("Stream", gen(4, "sweep"), workers=3),
         chk.generate("Stream", gen(9, "walk"), num=6000 if T else 1000, depth=12)]
    scs = []
    for k, f in enumerate(g):
        bs = f.result()
        chk.log(k, len(bs))
        for i, b in enumerate(bs):
            scs.append(build_scenario(b, f"stream/{b['pf']}/{('sweep', 'walk')[k]}/{i}", chk.seed * 100000 + i * 50))
    chk.replay(scs)
    chk.assumptions += ["keystreams are computed by ref.c's ChaCha, CSX, Threefish and wide-block Rijndael", "in-place transforms are outside the statement"]
