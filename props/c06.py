"""C06: a tag authenticates exactly the key and the message bytes."""
import core, ref
from core import R, X, OK, ANY, Scenario

MC = "CONSTANTS Macs <- MCMacs\n Steps = 4\n Gen = \"no\"\nSPECIFICATION Spec\nCONSTRAINT MCBound\nVIEW MCView\nCHECK_DEADLOCK FALSE\n" \
     "INVARIANT TypeOK\nINVARIANT NothingLost\nINVARIANT LazyHoldsLast\nINVARIANT EagerDrains\nINVARIANT NoTagWithoutKey\nINVARIANT ResetForgets\nPROPERTY RefusalsAreInert\n"


def gen(macs, steps, kind):
    return f"CONSTANTS Macs <- {macs}\n Steps = {steps}\n Gen = \"{kind}\"\nINIT Init\nNEXT {dict(sweep='SweepNext', edge='EdgeNext').get(kind, 'Next')}\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n"


def keybytes(k, seed):
    sd = seed + k["s"] + 20
    return ref.prg(sd, 0, k["k"]), ref.prg(sd, 1000, k["iv"]), ref.prg(sd, 2000, k["info"])


_BC = {}


def cipher(name, key, info):
    t = (name, key, info)
    if t not in _BC:
        if len(_BC) > 2000:
            _BC.clear()
        _BC[t] = ref.BlockCipher(name or "AES", key, info)
    return _BC[t]


def tag(alg, k, seed, msg, n):
    key, iv, info = keybytes(k, seed)
    if alg.startswith("HMAC"):
        return ref.hmac(alg[4:], key, msg)
    if alg.startswith("KMAC"):
        return ref.kmac(key, msg, iv, ref.RATE[alg[4:]], n, info or b"KMAC")
    if alg.startswith("KPA"):
        return ref.kpa(key, iv, msg, n)
    if alg == "Poly1305":
        return ref.poly1305(key, msg)
    if alg.startswith("CMAC"):
        return ref.cmac(cipher(alg[4:], key, info), msg)
    return ref.gmac(cipher(alg[4:], key, info), iv, msg)


P1305 = (1 << 130) - 5
CLAMP = 0x0ffffffc0ffffffc0ffffffc0fffffff


def edge(e, seed):
    """A key and a message whose Poly1305 accumulator ends exactly where the behaviour asks; None where no last block leads there."""
    r = [1, 2, 4, CLAMP, 0, int.from_bytes(ref.prg(seed, 0, 16), "little") & CLAMP][e["r"]]
    pad = [bytes(16), b"\xff" * 16, ref.prg(seed, 50, 16)][e["sk"]]
    goal = (P1305 + e["at"]["d"] if e["at"]["b"] == 0 else (1 << e["at"]["b"]) + e["at"]["d"]) % P1305
    if r == 0:
        return r.to_bytes(16, "little") + pad, ref.prg(seed, 100, 16 * e["nb"])
    inv = pow(r, -1, P1305)
    for t in range(60):
        fill = [bytes(16), b"\xff" * 16, b"\xff" * 15 + b"\0"]
        blocks = [fill[t % 3] if t < 3 or (t < 12 and i % 2 == t % 2) else ref.prg(seed + t, 100 + 16 * i, 16) for i in range(e["nb"] - 1)]
        h = 0
        for x in blocks:
            h = (h + int.from_bytes(x, "little") + (1 << 128)) * r % P1305
        last = (goal * inv - h) % P1305 - (1 << 128)
        if 0 <= last < 1 << 128:
            return r.to_bytes(16, "little") + pad, b"".join(blocks) + last.to_bytes(16, "little")
    return None


def edge_scenario(e, label, seed):
    km = edge(e, seed)
    if km is None:
        return None
    sc = Scenario(None, label, e)
    key, msg = km
    sc.do("mac.new m Poly1305", R("16 16 0"))
    sc.do(f"mac.init m x{key.hex()} - -")
    cut = len(msg) - 5 if e["split"] else len(msg)
    sc.do(f"mac.upd m x{msg[:cut].hex()}+z3:77 0 {cut}")
    if cut < len(msg):
        sc.do(f"mac.upd m x{msg[cut:].hex()}+z3:77 0 {len(msg) - cut}")
    t = ref.poly1305(key, msg)
    sc.do("mac.fin m 16 0 vec", R(f"16 {t.hex()}"), f"Poly1305 accumulator at {e['at']}")
    return sc


def build_scenario(b, label, seed):
    alg = b["mac"]["n"]
    sc = Scenario(None, label, b)
    sc.do(f"mac.new m {alg}", R(f"{b['mac']['b'] // (8 if alg.startswith('KPA') else 1)} {b['mac']['t']} 0"))
    data = lambda t: b"".join(ref.prg(seed + p["s"], 0, p["n"]) for p in t)
    for e in b["h"]:
        bad = e.get("exp") == "throw"
        if e["op"] == "init":
            k = e["key"]
            sd = seed + k["s"] + 20
            sc.do(f"mac.init m @{sd}:0:{k['k']} @{sd}:1000:{k['iv']} @{sd}:2000:{k['info']}", X("Mac") if bad else OK)
        elif e["op"] == "upd":
            o, n = e["off"], e["n"]
            d = f"@{seed + e['s'] + 5000}:0:{o}+@{seed + e['s']}:0:{n - (1 if bad and e['short'] else 0)}" + ("" if bad else "+z3:77")
            sc.do(f"mac.upd m {d} {o} {n}", X("Mac") if bad else OK, "input shorter than claimed, or no key" if bad else "")
        elif e["op"] == "reset":
            sc.do("mac.reset m")
        elif e["op"] == "isinit":
            sc.do("mac.isinit m", R("1" if e["v"] else "0"))
        elif e["op"] == "fin":
            if bad:
                sc.do(f"mac.fin m {e['size']} {e['off']}", X("Mac"), "short output or no key")
            else:
                t = tag(alg, e["key"], seed, data(e["term"]), e["out"])
                buf = bytearray(b"\xa5" * e["size"])
                buf[e["off"]:e["off"] + len(t)] = t
                sc.do(f"mac.fin m {e['size']} {e['off']} {'sec' if e['sec'] else 'vec'}", R(f"{len(t)} {buf.hex()}"),
                      f"{alg} tag of {sum(p['n'] for p in e['term'])} bytes")
                k = e["key"]
                if alg.startswith("KMAC") and k["info"] == 0:      # the stateless form computes the same function
                    sd = seed + k["s"] + 20
                    d = "+".join(f"@{seed + p['s']}:0:{p['n']}" for p in e["term"]) or "-"
                    sc.do(f"mac.kmacp @{sd}:0:{k['k']} @{sd}:1000:{k['iv']} {d} {e['out']} {ref.RATE[alg[4:]]}", R(t), "stateless KMAC")
        elif e["op"] == "comp":
            t = None if bad else tag(alg, e["key"], seed, data(e["term"]), e["out"])
            sc.do(f"mac.comp m @{seed + e['s']}:0:{e['n']} {e['size']}", X("Mac") if bad else R(t), f"{alg} one-shot")
    return sc


def body(chk):
    chk.build(["mac"])
    T = chk.thorough
    chk.model("Mac", MC, "toy block sizes 3, 4 and 5, eager and lazy buffering, messages up to 20 bytes in 3 pieces")
    g = [chk.generate("Mac", gen("SweepMacs", 4, "sweep"), workers=2),
         chk.generate("Mac", gen("AllMacs", 9, "walk"), num=8000 if T else 1500, depth=12),
         chk.generate("Mac", gen("AllMacs", 5, "walk"), num=8000 if T else 1500, depth=8)]
    ed = chk.generate("Mac", gen("OnlyPoly", 1, "edge"))
    scs = []
    for i, b in enumerate(ed.result()):
        sc = edge_scenario(b["h"][0], f"mac/Poly1305/edge/{i}", chk.seed * 100000 + i)
        if sc and (T or i % 4 == chk.seed % 4 or b["h"][0]["nb"] <= 2):
            scs.append(sc)
    n_edge = len(scs)
    for k, f in enumerate(g):
        bs = f.result()
        if k == 0 and not T:      # thin the sweep: every (algorithm, length) stays, splits and keys rotate
            bs = [b for b in bs if (b["h"][1]["n"] + b["h"][2]["n"] * 7 + b["h"][0]["key"]["k"]) % 3 == chk.seed % 3 or b["h"][2]["n"] == 0]
        for i, b in enumerate(bs):
            scs.append(build_scenario(b, f"mac/{b['mac']['n']}/{('sweep', 'walk', 'short')[k]}/{i}", chk.seed * 100000 + i * 50))
    chk.replay(scs)
    chk.assumptions += ["tag terms are evaluated by hashlib/hmac and by ref.c/ref.py (Keccak, AES, GHASH, Poly1305 written independently)"]
