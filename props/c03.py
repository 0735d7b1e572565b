"""C03: every cipher mode computes its definition, however the message is cut and whichever path runs."""
import core, ref
from core import R, X, OK, Scenario

MC = "CONSTANTS Modes <- MCModes\n Steps = 0\n Gen = \"no\"\nSPECIFICATION MCSpec\nVIEW MCView\nCHECK_DEADLOCK FALSE\n" \
     "INVARIANT TypeOK\nINVARIANT Computes\nINVARIANT Inverts\nINVARIANT LengthKept\nINVARIANT NoKeyStreamTwice\n"


def gen(modes, steps, kind):
    return f"CONSTANTS Modes <- {modes}\n Steps = {steps}\n Gen = \"{kind}\"\nINIT Init\nNEXT {'SweepNext' if kind == 'sweep' else 'Next'}\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n"


def ivbytes(kind, n, seed):
    r = ref.prg(seed, 1000, n)
    if n != 16 or kind == 0:
        return r
    return {1: b"\xff" * 16, 2: b"\xff" * 15 + b"\xfe", 3: r[:6] + b"\xff" * 9 + b"\xfd", 4: b"\xfd" + b"\xff" * 14 + b"\xf0"}[kind]


_BC = {}


def cipher(name, key, info):
    t = (name, key, info)
    if t not in _BC:
        if len(_BC) > 2000:
            _BC.clear()
        _BC[t] = ref.BlockCipher(name, key, info)
    return _BC[t]


def xor(a, b):
    n = min(len(a), len(b))
    return (int.from_bytes(a[:n], "big") ^ int.from_bytes(b[:n], "big")).to_bytes(n, "big")


def mode(m, enc, bc, iv, reg, data):
    """The definition applied to the whole message."""
    n = -(-len(data) // 16)
    if m == "ECB":
        return bc.ecb(data, not enc)
    if m == "CTR" or m == "ICM":
        e = "big" if m == "CTR" else "little"
        v = int.from_bytes(iv, e)
        return xor(data, bc.ecb(b"".join(((v + i) % (1 << 128)).to_bytes(16, e) for i in range(n)), False))
    if m == "CBC" and not enc:
        return xor(bc.ecb(data, True), iv + data)
    if m == "CFB":
        iv = bytes(16 - len(iv)) + iv
        if not enc:
            s = iv + data
            regs = b"".join(s[i * reg:i * reg + 16] for i in range(len(data) // reg))
            ks = bc.ecb(regs, False)
            return xor(data, b"".join(ks[i * 16:i * 16 + reg] for i in range(len(data) // reg)))
        out = b""
        for i in range(0, len(data), reg):
            y = xor(bc.ecb(iv, False)[:reg], data[i:i + reg])
            iv = (iv + y)[-16:]
            out += y
        return out
    out = []
    for i in range(0, len(data), 16):
        if m == "CBC":
            iv = bc.ecb(xor(data[i:i + 16], iv), False)
            out.append(iv)
        else:
            iv = bc.ecb(iv, False)
            out.append(xor(data[i:i + 16], iv))
    return b"".join(out)


def build_scenario(b, label, seed):
    md = b["md"]
    m, name = md["m"], md["n"]
    sc = Scenario(None, label, b)
    sc.do(f"mode.new m {m} {name} {b['eng']} {b['reg']}", R("0"))
    cur = None        # (key record, pieces so far, definition's output so far)
    for e in b["h"]:
        if e["op"] == "init":
            k = e["key"]
            sd = seed + k["s"] + 20
            ivv = ivbytes(k["iv"], k["ivl"], sd)
            sc.do(f"mode.init m {e['d']} @{sd}:0:{k['k']} {'x' + ivv.hex() if ivv else '-'} @{sd}:2000:{k['info']}",
                  X("CipherMode", "Symmetric") if e["exp"] == "throw" else R(f"1{int(e['d'] == 'enc')}"))
        elif e["op"] == "par":
            p = e["par"]
            sc.do(f"mode.par m {int(p['on'])} {p['size']} {p['degree']}")
        elif e["op"] == "deg":
            sc.do(f"mode.deg m {e['n']}", X("CipherMode"))
        elif e["op"] == "q":
            sc.do("mode.q m", R(f"1{int(e['d'] == 'enc')} {b['reg'] if m == 'CFB' else 16} some") if e["st"] else core.F(lambda r: r.startswith("0") and r.endswith(" some")))
        else:
            k = e["key"]
            sd = seed + k["s"] + 20
            bc = cipher(name, ref.prg(sd, 0, k["k"]), ref.prg(sd, 2000, k["info"]))
            data = b"".join(ref.prg(seed + p["s"], 0, p["n"]) + bytes(-p["n"] % 16 if m in ("CTR", "ICM") else 0) for p in e["term"])
            v = mode(m, e["d"] == "enc", bc, ivbytes(k["iv"], k["ivl"], sd), e["reg"], data)[len(data) - e["n"] - (-e["n"] % 16 if m in ("CTR", "ICM") else 0):][:e["n"]]
            how = "tr" if e["op"] == "tr" else e["d"]
            n = e["n"]
            if how == "tr":
                sc.do(f"mode.tr m tr @{seed + e['s']}:0:{n} {e['io']} {e['oo']} {n}", R(b"\xa5" * e["oo"] + v + b"\xa5" * 5),
                      f"{m}-{name} {e['d']}: bytes {len(data) - n}..{len(data)} of the message")
            else:
                sc.do(f"mode.tr m {how} @{seed + e['s']}:0:{n} {e['io']} {e['oo']} {n}",
                      core.F(lambda r, v=v, e=e, n=n: r[:2 * (e["oo"] + n)] == (b"\xa5" * e["oo"] + v).hex() and r.endswith("a5" * 5)),
                      f"{m}-{name} {e['d']} one block")
    return sc


def big(label, seed, m, enc, iv, par, n):
    """A call so large that segment counters run past two bytes."""
    b = {"md": {"m": m, "n": "AES"}, "reg": 16, "eng": "enum"}
    sc = Scenario(None, label, b)
    ivv = ivbytes(iv, 16, seed)
    sc.do(f"mode.new m {m} AES enum 16", R("0"))
    sc.do(f"mode.par m 1 {par[0]} {par[1]}")
    sc.do(f"mode.init m {'enc' if enc else 'dec'} @{seed}:0:32 x{ivv.hex()} -", R(f"1{int(enc)}"))
    data = ref.prg(seed + 1, 0, n)
    v = mode(m, enc, ref.BlockCipher("AES", ref.prg(seed, 0, 32), b""), ivv, 16, data)
    sc.do(f"mode.sum m @{seed + 1}:0:{n}", R(ref.digest("SHA2256", v)), f"{m} {n} bytes in parallel blocks of {par[0]}")
    return sc


def body(chk):
    chk.build(["mode"])
    T = chk.thorough
    chk.model("Mode", MC, "six modes on a two-bit toy block cipher: every message of up to 8 bits, every aligned split, 1, 2 and 4 parallel segments, all counters wrap")
    g = [chk.generate("Mode", gen("SweepModes", 4, "sweep"), workers=2),
         chk.generate("Mode", gen("AllModes", 9, "walk"), num=8000 if T else 1500, depth=12)]
    scs = []
    for k, f in enumerate(g):
        bs = f.result()
        if k == 0 and not T:
            bs = [x for i, x in enumerate(bs) if i % 2 == chk.seed % 2]
        for i, b in enumerate(bs):
            scs.append(build_scenario(b, f"mode/{b['md']['m']}/{b['md']['n']}/{('sweep', 'walk')[k]}/{i}", chk.seed * 100000 + i * 50))
    for j, (m, enc) in enumerate([("CTR", True), ("ICM", True), ("CTR", False), ("ICM", False)] + ([("CBC", False), ("CFB", False), ("ECB", True)] if T else [])):
        # 2 segments of 0xff81 and more blocks: carries meet an 0xff byte of the increment
        seg = 0xff80 * 16
        for iv in (0, 1, 4) if T else (0, 4):
            scs.append(big(f"mode/{m}/AES/big/{j}-{iv}", chk.seed * 100000 + 77 + j, m, enc, iv, (2 * seg, 2), 2 * seg + 48))
    chk.replay(scs)
    chk.assumptions += ["the definition is evaluated in Python over ref.c's block ciphers", "in-place transforms are outside the statement"]
