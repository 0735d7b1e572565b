"""C24: every form of a permutation, and every helper built on it, computes the one function."""
import ctypes

import ref
from core import R, Scenario

LANES = "CONSTANTS L = {l}\n M = {m}\n Steps = {s}\n Gen = \"no\"\nINIT MInit\nNEXT MNext\nINVARIANT Lanewise\nCHECK_DEADLOCK FALSE\n"
SPONGE = "CONSTANTS R = 4\n W = 2\n MaxLen = {x}\n Steps = {s}\n Gen = \"no\"\nINIT Init\nNEXT Next\nINVARIANT Piecewise\nINVARIANT Position\nVIEW View\nCHECK_DEADLOCK FALSE\n"


def pgen(kind, steps=0):
    return f'CONSTANTS L = 1\n M = 1\n Steps = {steps}\n Gen = "{kind}"\nINIT GInit\nNEXT GNext\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n'


def sgen(init, nxt, steps=0):
    return f'CONSTANTS R = 4\n W = 2\n MaxLen = 1\n Steps = {steps}\n Gen = "lib"\nINIT {init}\nNEXT {nxt}\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n'


def value(cls, seed, n):
    return {"rnd": lambda: ref.prg(seed, 0, n), "rnd2": lambda: ref.prg(seed, 5000, n), "zero": lambda: bytes(n), "ones": lambda: b"\xff" * n,
            "low": lambda: (b"\x01" + bytes(7)) * (n // 8) + bytes(n % 8), "high": lambda: (bytes(7) + b"\x80") * (n // 8) + bytes(n % 8)}[cls]()


def _cw(t, b): return (t * (len(b) // ctypes.sizeof(t))).from_buffer_copy(b)


U32, U64 = ctypes.c_uint32, ctypes.c_uint64


def scalar(fam, rounds, st, inp, sh):
    """The function one lane is taken through."""
    L = ref.lib()
    if fam == "keccak":
        return ref._keccak_f(st, rounds)
    if fam in ("sha256", "sha512"):
        h = _cw(U32 if fam == "sha256" else U64, st)
        (L.sha256_block if fam == "sha256" else L.sha512_block)(h, inp)
        return bytes(h)
    if fam in ("blake2s", "blake2b"):
        t, m = (U32, 64) if fam == "blake2s" else (U64, 128)
        h = _cw(t, st)
        getattr(L, fam)(h, _cw(t, inp[:m]), _cw(t, inp[m:]))
        return bytes(h)
    if fam == "chacha":
        o = (U32 * 16)()
        L.chacha(rounds, _cw(U32, sh), _cw(U32, inp), o)
        return bytes(o)
    if fam == "csx":
        o = ctypes.create_string_buffer(128)
        L.csx512(sh, U64(int.from_bytes(inp[:8], "little")), U64(int.from_bytes(inp[8:], "little")), rounds, U64(1), o)
        return o.raw
    if fam[:2] == "tf":
        w = {"4": 4, "8": 8, "1": 16}[fam[2]]
        t = [int.from_bytes(sh[w * 8 + i:w * 8 + i + 8], "little") for i in (0, 8)]
        return ref.threefish(w, sh[:w * 8], t, inp + b"\xff" * (w * 8 - 16), rounds)
    if fam[:5] == "skein":
        w = {"4": 4, "8": 8, "1": 16}[fam[5]]
        return ref.threefish(w, st, [int.from_bytes(sh[i:i + 8], "little") for i in (0, 8)], inp, rounds)
    y = int.from_bytes(st, "big") ^ int.from_bytes(inp, "big")
    return ref._gmul(y, int.from_bytes(sh, "big")).to_bytes(16, "big")


def lanes(b, label, seed):
    sc = Scenario(None, label, b)
    n, w, sh = b["lanes"], b["state"], b["shared"]
    mem = None
    for e in b["h"]:
        if e["start"] != "keep" or mem is None:
            mem = [value(e["start"], seed + 7 + l, w) for l in range(n)]
        s = seed + 100 * e["id"]
        shared = value(e["sh"], s + 50, sh)
        which = range(n) if e["wide"] else [e["lane"]]
        inp = [value(e["cls"], s + i, b["input"]) for i, _ in enumerate(which)]
        before = b"".join(mem[l] for l in which)
        for i, l in enumerate(which):
            mem[l] = scalar(b["fam"], e["rounds"], mem[l], inp[i], shared)
        sc.do(f"perm.run {e['f']} {e['rounds']} x{before.hex()} x{b''.join(inp).hex()} x{shared.hex()} {e['off']}",
              R(b"".join(mem[l] for l in which)), f"{e['f']} {e['rounds']} rounds, {e['cls']} input, {e['start']} state, at offset {e['off']}")
    return sc


def kmac(key, data, custom, rate, n, rounds):
    return ref.sponge(ref.bytepad(ref.encode_string(b"KMAC") + ref.encode_string(custom), rate) + ref.bytepad(ref.encode_string(key), rate) + data + ref.right_encode(8 * n), rate, 0x04, n, rounds)


def shot(sc, e, seed):
    import hashlib
    import hmac
    f, rate, rounds, n = e["f"], e["rate"], e["rounds"], e["n"]
    m, k, x = (ref.prg(seed + i, 0, e[j]) for i, j in enumerate(("m", "k", "x")))
    if f == "compute":
        o = ref.sponge(m, rate, 6, n, rounds)
    elif f in ("xof", "xof48"):
        o = ref.shake(m, rate, n, rounds)
    elif f == "cxof":
        o = ref.cshake(m, x, k, rate, n, rounds)
    elif f == "mac":
        o = kmac(k, m, x, rate, n, rounds)
    elif f[:4] == "hmac":
        o = hmac.new(k, m, {"hmac256": "sha256", "hmac512": "sha512"}[f]).digest()
    else:
        o = hashlib.new(f, m).digest()
    h = lambda i, n: f"@{seed + i}:0:{n}" if n else "-"
    # cxof: customization then name; mac: key then customization
    sc.do(f"perm.shot {f} {rate} {rounds} {h(0, len(m))} {h(1, len(k))} {h(2, len(x))} {e['io']} {e['oo']} {n}" if f != "mac" else
          f"perm.shot mac {rate} {rounds} {h(0, len(m))} {h(1, len(k))} {h(2, len(x))} {e['io']} {e['oo']} {n}",
          R(b"\xa5" * e["oo"] + o + b"\xa5" * 3), f"{f} rate {rate}, {rounds} rounds: {len(m)} bytes, {len(k)} and {len(x)} bytes of parameters, {n} out")


DOM = 0x1F


def pieces(b, label, seed):
    """Incremental absorption, then blocks and parts."""
    sc = Scenario(None, label, b)
    rate, rounds = b["rate"], (24, 48, 12, 36)[seed // 1000 % 4]
    sc.do("sp.new s", R(""))
    st, buf = bytes(200), b""
    for e in b["h"]:
        if e["op"] == "inc":
            d = ref.prg(seed + e["id"], 0, e["k"])
            buf += d
            while len(buf) >= rate:
                st = ref.absorb(st, buf[:rate], rate, rounds)
                buf = buf[rate:]
            shown = bytearray(ref._xor(st, buf + bytes(200 - len(buf))))
            if e["fin"]:
                shown[len(buf)] ^= DOM
                shown[rate - 1] ^= 0x80
                st = bytes(shown)
            sc.do(f"sp.inc s {rate} {rounds} {DOM} {int(e['fin'])} {e['io']} " + (f"@{seed + e['id']}:0:{e['k']}" if e["k"] else "-"), R(f"{len(buf)} {bytes(shown).hex()}"),
                  f"{e['k']} more bytes into a sponge of rate {rate}, {rounds} rounds{', the last' if e['fin'] else ''}")
        elif e["op"] == "sq":
            o = b""
            for _ in range(e["k"]):
                st = ref._keccak_f(st, rounds)
                o += st[:rate]
            sc.do(f"sp.sq s {rate} {rounds} {e['k']} {e['io']}", R(b"\xa5" * e["io"] + o + b"\xa5" * 5), f"squeeze {e['k']} blocks")
        else:
            st = ref._keccak_f(st, rounds)
            sc.do(f"sp.part s {rate} {rounds} {e['k']} {e['io']}", R(b"\xa5" * e["io"] + st[:e["k"]] + b"\xa5" * 5), f"squeeze {e['k']} bytes of a block")
    return sc


def squeezed(st, n, rate, rounds):
    o = b""
    while len(o) < n:
        st = ref._keccak_f(st, rounds)
        o += st[:rate]
    return o[:n]


def whole(sc, e, seed, o):
    """Customize, absorb, draw."""
    rate, rounds, dom, st = e["rate"], e["rounds"], e["dom"], bytes(200)
    h = lambda i, n: f"@{seed + i}:0:{n}" if n else "-"
    c, nm, m = (ref.prg(seed + i, 0, max(0, n)) for i, n in enumerate((e["cu"], e["nm"], e["m"])))
    what = f"rate {rate}, {rounds} rounds"
    sc.do(f"sp.new {o}", R(""))
    if e["cu"] >= 0:
        st = ref.absorb(st, ref.bytepad(ref.encode_string(nm) + ref.encode_string(c), rate), rate, rounds)
        sc.do(f"sp.cust {o} {rate} {rounds} {h(0, len(c))} {h(1, len(nm))}", R(st.hex()), f"{what}: customize with {len(c)} bytes and a name of {len(nm)}")
    if e["way"] == "fin":
        st = ref.absorb(st, m, rate, rounds)
        if m:
            sc.do(f"sp.inc {o} {rate} {rounds} {dom} 0 0 {h(2, len(m))}", R(f"0 {st.hex()}"), f"{what}: {len(m)} bytes")
        n = e["k"] * rate - (e["k"] % 2) * 5
        st = ref._absorb_pad(st, ref.right_encode(8 * n), rate, dom, rounds)
        sc.do(f"sp.fin {o} {rate} {rounds} {dom} {n} {e['io']}", R(b"\xa5" * e["io"] + squeezed(st, n, rate, rounds) + b"\xa5" * 5), f"{what}: the final {n} bytes")
        return
    st = ref._absorb_pad(st, m, rate, dom, rounds)
    sc.do(f"sp.abs {o} {rate} {rounds} {dom} {e['io']} {h(2, len(m))}", R(st.hex()), f"{what}: absorb {len(m)} bytes, domain {dom}")
    sc.do(f"sp.sq {o} {rate} {rounds} {e['k']} 0", R(squeezed(st, e["k"] * rate, rate, rounds) + b"\xa5" * 5), f"{what}: {e['k']} blocks")


def enc(sc, e):
    v = max(0, (1 << e["b"]) + e["d"])
    fill = lambda x: b"\xa5" * e["o"] + x + b"\xa5" * (12 - len(x))
    l, r = ref.left_encode(v), ref.right_encode(v)
    sc.do(f"perm.enc {v} {e['o']}", R(f"{len(l)} {fill(l).hex()} {len(r)} {fill(r).hex()}"), f"the encodings of {v}")


def four(sc, e, seed, o):
    rate, m = e["rate"], e["m"]
    d = [ref.prg(seed + i, 0, m) for i in range(4)]
    sts = [ref._absorb_pad(bytes(200), x, rate, DOM) for x in d]
    sc.do(f"sp4.new {o}", R(""))
    sc.do(f"sp4.abs {o} {rate} {DOM} {m} " + " ".join(f"@{seed + i}:0:{m}" if m else "-" for i in range(4)), R(b"".join(sts)), f"four messages of {m} bytes at rate {rate}")
    outs = [ref.sponge(x, rate, DOM, rate * e["b"]) for x in d]
    sc.do(f"sp4.sq {o} {rate} {e['b']}", R(" ".join((x + b"\xa5" * 5).hex() for x in outs)), f"{e['b']} blocks of each")


def body(chk):
    chk.build(["perm"])
    T = chk.thorough
    fl = chk.generate("Permute", pgen("sweep"), workers=2)
    fw = chk.generate("Permute", pgen("walk", 6), num=4000 if T else 500, depth=9)
    fs = chk.generate("Sponge", sgen("ShotInit", "ShotNext"), workers=2)
    ff = chk.generate("Sponge", sgen("FourInit", "ShotNext"), workers=1)
    fh = chk.generate("Sponge", sgen("WholeInit", "ShotNext"), workers=1)
    fi = chk.generate("Sponge", sgen("Init", "Pair", 6), workers=4)
    fp = chk.generate("Sponge", sgen("Init", "Next", 9), num=6000 if T else 700, depth=12)
    chk.model("Permute", LANES.format(l=3, m=3, s=4 if T else 3), "three lanes, every mixture of scalar and wide calls", workers=2)
    chk.model("Sponge", SPONGE.format(x=12, s=6 if T else 5), "a sponge of four bytes, every way of cutting a message", workers=2)
    scs, by, seed = [], {}, chk.seed * 1000000
    for i, b in enumerate(fl.result()):
        e = b["h"][0]
        scs.append(lanes(b, f"perm/{e['f']}/{e['rounds']}/{i}", seed + i * 3))
    for i, b in enumerate(fw.result()):
        scs.append(lanes(b, f"perm/{b['fam']}/walk/{i}", seed + i * 1000))
    for i, b in enumerate(fs.result()):
        e = b["h"][0]
        if not T and e["f"] in ("cxof", "mac", "compute") and (i + chk.seed) % 3:
            continue
        key = f"shot/{e['f']}/{e['rate']}/{e['m']}"
        if key not in by:
            by[key] = Scenario(None, key, b)
        shot(by[key], e, seed + i * 5)
    for i, b in enumerate(ff.result()):
        e = b["h"][0]
        key = f"four/{e['rate']}/{e['m']}"
        if key not in by:
            by[key] = Scenario(None, key, b)
        four(by[key], e, seed + i * 5, f"s{i}")
    for i, b in enumerate(fh.result()):
        e = b["h"][0]
        key = "enc" if e["op"] == "enc" else f"whole/{e['rate']}/{e['way']}/{e['m']}"
        if key not in by:
            by[key] = Scenario(None, key, b)
        if e["op"] == "enc":
            enc(by[key], e)
        elif T or (i + chk.seed) % 3 == 0:
            whole(by[key], e, seed + i * 5, f"w{i}")
    for i, b in enumerate(fi.result()):
        if T or (i + chk.seed) % 8 == 0:
            scs.append(pieces(b, f"pieces/{b['rate']}/three/{i}", seed + i * 1000))
    for i, b in enumerate(fp.result()):
        scs.append(pieces(b, f"pieces/{b['rate']}/walk/{i}", seed + i * 1000))
    chk.replay(scs + list(by.values()))
    chk.assumptions += ["which vector element a lane lives in is as the register types' own constructors lay it out (SHA2: reversed)",
                        "HMAC helpers are given keys of at most a block, as their headers demand", "cSHAKE with an empty name and customization keeps the cSHAKE domain"]
