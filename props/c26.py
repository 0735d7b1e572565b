"""C26: a digest's parameter block survives being written and read."""
import ref
from core import F, R, X, Scenario

MODEL = "CONSTANTS Fields = {f}\n Vals = {{0, 1}}\n Steps = {s}\n Gen = \"no\"\nINIT Init\nNEXT Next\nINVARIANT RoundTrip\nINVARIANT Refused\nINVARIANT Injective\nVIEW View\nCHECK_DEADLOCK FALSE\n"
GEN = "CONSTANTS Fields = 9\n Vals = {{0}}\n Steps = {s}\n Gen = \"walk\"\nINIT {i}\nNEXT {x}\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n"
# name, bytes, place in the encoding; shown in this order ("-": not shown)
LAYOUT = {"SHA2": [("offset", 4, 0), ("version", 2, 4), ("out", 8, 6), ("leaf", 4, 14), ("-depth", 1, 18), ("fanout", 1, 19), ("res", 4, 20), ("dst", 0, 24)],
          "Blake": [("out", 1, 0), ("key", 1, 1), ("fanout", 1, 2), ("max", 1, 3), ("leaf", 4, 4), ("offset", 1, 8), ("depth", 1, 9), ("inner", 1, 10), ("res", 1, 11), ("dst", 0, 12)],
          "Skein": [("schema", 4, 0), ("version", 2, 4), ("res1", 2, 6), ("out", 8, 8), ("leaf", 1, 16), ("-depth", 1, 17), ("fanout", 1, 18), ("res2", 1, 19), ("res3", 4, 20), ("dst", 0, 24)]}
LAYOUT["Keccak"] = LAYOUT["SHA2"]
FULL = {"SHA2": ["offset", "out", "version", "leaf", "fanout", "-depth", "dst"], "Blake": ["out", "key", "fanout", "max", "leaf", "offset", "depth", "inner", "dst"],
        "Skein": ["schema", "out", "version", "leaf", "fanout", "-depth", "dst"]}
FULL["Keccak"] = FULL["SHA2"]
KINDS = [("SHA2", 32), ("SHA2", 64), ("Keccak", 32), ("Keccak", 64), ("Keccak", 128), ("Blake", 32), ("Blake", 64), ("Skein", 32), ("Skein", 64), ("Skein", 128)]


def dstlen(cls, out): return {"SHA2": 112 if out == 32 else 48, "Keccak": 112 if out == 32 else 48, "Blake": 12 if out == 32 else 40, "Skein": out - 24}[cls]


def size(cls, out): return out if cls == "Blake" else 24 + dstlen(cls, out)


def encode(cls, r):
    b = bytearray(size(cls, r["out"]))
    for f, k, at in LAYOUT[cls]:
        v = r[f] if isinstance(r[f], bytes) else r[f].to_bytes(k, "little")
        b[at:at + len(v)] = v
    return bytes(b)


def shown(cls, r):
    return " ".join((r[f].hex() if isinstance(r[f], bytes) else str(r[f])) for f, _, _ in LAYOUT[cls] if f[0] != "-") + " " + encode(cls, r).hex()


def value(f, k, cls, seed, old, n):
    if f in ("dst", "schema"):
        n = 4 if f == "schema" else n
        return {"rnd": ref.prg(seed, 0, n), "zero": bytes(n), "max": b"\xff" * n, "bump": old and old[:-1] + bytes([old[-1] ^ 1])}[cls]
    return {"rnd": int.from_bytes(ref.prg(seed, 0, k), "little"), "zero": 0, "max": (1 << 8 * k) - 1, "bump": old ^ 1}[cls]


def walk(b, kind, label, seed):
    cls, out = kind
    sc = Scenario(None, label, b)
    rec, blob, n = {}, None, dstlen(*kind)
    arg = lambda v: "x" + v.hex() if isinstance(v, bytes) else str(v)
    for e in b["h"]:
        op, o = e["op"], e["o"]
        if op == "make":
            s = seed + e["sd"] * 31
            r = {f: (bytes(4 if f == "schema" else n) if f in ("schema", "dst") else 0) for f, _, _ in LAYOUT[cls]}
            r["out"] = out
            if e["form"] == "full":
                for f, k, _ in LAYOUT[cls]:
                    if f in FULL[cls] and f != "out":
                        r[f] = value(f, 1 if (cls, f) == ("Skein", "leaf") else k, "rnd", s + ord(f[-1]), 0, n)
                sc.do(f"pm.make {o} {cls} full " + " ".join(arg(r[f]) for f in FULL[cls]), R(shown(cls, r)), f"{cls}-{out}: the full constructor")
            else:
                f, l = (4, 64) if e["sd"] == 1 else (0, 0)
                if cls == "Blake":
                    r.update(fanout=f or 1, max=2, leaf=l, inner=out if f else 0)
                    line = f"pm.make {o} {cls} short {out} 2 {f or 1} {l} {out if f else 0}"
                else:
                    r.update(fanout=f, leaf=l, version=1)
                    if cls == "Skein":
                        r["schema"] = b"SHA3"
                    line = f"pm.make {o} {cls} short {out} {l} {f}"
                sc.do(line, R(shown(cls, r)), f"{cls}-{out}: the constructor of {l} byte leaves, fanout {f}")
            rec[o] = r
        elif op in ("set", "trade"):
            fs = [x for x in LAYOUT[cls] if x[0][0] != "-" and x[0] != "out"]
            if op == "set":
                f, k, _ = fs[(e["f"] - 1) % len(fs)]
                todo = [(f, value(f, k, e["form"], seed + e["sd"] * 13, rec[o][f], n))]
            else:        # two fields of one width exchange their values
                w = [x for x in fs if x[1] == (1 if cls == "Blake" else 4) and x[0] not in ("dst", "schema")]
                if len(w) < 2:
                    continue
                x, y = w[e["f"] % len(w)][0], w[(e["f"] + 1) % len(w)][0]
                todo = [(x, rec[o][y]), (y, rec[o][x])]
            for f, v in todo:
                rec[o] = dict(rec[o], **{f: v})
                sc.do(f"pm.set {o} {cls} {f} {arg(v)}", R(shown(cls, rec[o])), f"{cls}-{out}: set {f}")
        elif op == "save":
            blob = (dict(rec[o]), encode(cls, rec[o]))
        elif op == "load":
            d = blob[1]
            if e["cut"]:
                # what is cut must matter: the encoding's own fields end before the end of a Blake block
                need = 12 + n if cls == "Blake" else len(d)
                d = d[:max(0, need - e["cut"])]
                sc.do(f"pm.load {o} {cls} " + ("x" + d.hex() if d else "-"), X("Digest"), f"{cls}-{out}: {len(d)} bytes of {len(blob[1])}")
                continue
            if e["form"] == "longer" and cls != "Blake":
                d += b"\x77" * 9
            rec[o] = dict(blob[0])
            sc.do(f"pm.load {o} {cls} x{d.hex()}", R(shown(cls, rec[o])), f"{cls}-{out}: read what was written")
        elif op == "copy":
            rec[o] = dict(rec[e["p"]])
            sc.do(f"pm.copy {o} {cls} {e['p']} {e['form']}", R(shown(cls, rec[o])), f"{cls}-{out}: {e['form']} copy")
        else:
            same = rec[o] == rec[e["p"]]
            sc.do(f"pm.eq {o} {cls} {e['p']}", F(lambda t, same=same: None if t.split()[-2] == str(int(same)) and (not same or t.split()[-1] == "1") else f"equal: {t.split()[-2]}, equal hash codes: {t.split()[-1]}"), f"{cls}-{out}: {'equal' if same else 'different'} blocks compared")
    return sc


def body(chk):
    chk.build(["params"])
    T = chk.thorough
    fw = chk.generate("Params", GEN.format(s=14, i="Init", x="GNext"), num=4000 if T else 600, depth=18)
    fp = chk.generate("Params", GEN.format(s=0, i="PInit", x="PNext"), workers=1)
    chk.model("Params", MODEL.format(f=2, s=5 if T else 4), "two blocks of two fields", workers=2)
    scs = []
    for i, b in enumerate(fw.result()):
        for j, k in enumerate(KINDS):
            if T or (i + j) % 2 == 0:
                scs.append(walk(b, k, f"{k[0]}/{k[1]}/{i}", chk.seed * 1000000 + i * 100))
    for i, b in enumerate(fp.result()):
        for k in KINDS:
            scs.append(walk(b, k, f"{k[0]}/{k[1]}/pair/{i}", chk.seed * 3000000 + i * 100))
    chk.replay(scs)
