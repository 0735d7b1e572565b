"""C13: key containers preserve, serialize, seal and erase key material exactly."""
import itertools, ref
from core import R, X, F, OK, Scenario


def cfg(lens, pols, steps, gen, objs=4):
    s = f"CONSTANTS Lens = {{{lens}}}\n Policies = {{{pols}}}\n Steps = {steps}\n Gen = \"{gen}\"\n MaxObjs = {objs}\nCHECK_DEADLOCK FALSE\n"
    if gen == "no":
        return s + "SPECIFICATION MCSpec\nCONSTRAINT MCBound\nINVARIANT Exact\nINVARIANT Inverse\nINVARIANT Sealed\n"
    return s + f"INIT Init\nNEXT {'SweepNext' if gen == 'sweep' else 'Next'}\nINVARIANT Emit\n"


def expr(seed, f):
    return f"@{seed + f['s']}:0:{f['n']}" if f["n"] else "-"


def build_scenario(b, label, seed):
    sc = Scenario(None, label, b)
    val = lambda f: ref.prg(seed + f["s"], 0, f["n"]) if f["n"] else b""
    hx = lambda x: bytes(x).hex() if len(x) else "-"
    def seen(f):
        return R(" ".join(hx(val(f[x])) for x in ("key", "iv", "info")) + " %d/%d/%d" % tuple(f[x]["n"] for x in ("key", "iv", "info")))
    def gone(e, lens):
        for s in e:
            if lens.get(s, 0) >= 24:
                sc.do(f"key.mem @{seed + s}:4:16", OK, "key material stays in memory after it was reset")
    lens = {}
    for e in b["h"]:
        op = e["op"]
        if op == "make":
            f = e["f"]
            lens.update({f[x]["s"]: f[x]["n"] for x in f})
            sc.do(f"key.make k{e['obj']} {e['kind']} {e['arity']} {expr(seed, f['key'])} {expr(seed, f['iv'])} {expr(seed, f['info'])} {e['pol']} {'@%d:5:%d' % (seed, e['salt']) if e['pol'] else '-'} {'sec' if e['sec'] else 'vec'}")
        elif op == "refused":
            if e["what"] == "salt":
                sc.do(f"key.make no sealed {e['arity']} @{seed}:0:16 @{seed}:0:16 @{seed}:0:16 1 - {'sec' if e['sec'] else 'vec'}", X("Symmetric"), "a policy without a salt")
            else:
                sc.do(f"key.make no {e['kind']} {e['arity']} - - - 0 - {'sec' if e['sec'] else 'vec'}", X("Symmetric"), "an empty key")
        elif op == "look":
            sc.do(f"key.look k{e['obj']}", seen(e["f"]))
        elif op == "clone":
            sc.do(f"key.clone k{e['obj']} k{e['from']} {e['kind']}", OK)
        elif op == "store":
            f = e["f"]
            sc.do(f"key.store s{e['stream']} k{e['from']} {e['kind']}", R(hx(b"".join(f[x]["n"].to_bytes(2, "little") for x in ("key", "iv", "info")) + b"".join(val(f[x]) for x in ("key", "iv", "info")))), "the serialized key")
        elif op == "load":
            sc.do(f"key.load k{e['obj']} $s{e['stream']} {e['by']}")
        elif op == "reset":
            sc.do(f"key.reset k{e['obj']}")
            gone(e["gone"] if not any(x["op"] == "store" for x in b["h"]) else [], lens)
        elif op == "drop":
            g = [s for s in e["gone"] if lens.get(s, 0) >= 24]
            sc.do(f"key.drop k{e['obj']} {'@%d:4:16' % (seed + g[0]) if g else '-'}", OK, "key material stays in memory given back")
        elif op == "atrest":
            for f in e["f"]:
                if f["n"] >= 24:
                    sc.do(f"key.mem @{seed + f['s']}:4:16", OK, "a sealed key lies in memory in the clear")
    for o, (live, f) in enumerate(zip(b["live"], b["fs"])):
        if live:
            sc.do(f"key.look k{o + 1}", seen(f), "in the end")
    return sc


def others(chk):
    scs = []
    sc = Scenario(None, "key/sizes")
    for k, v, i in itertools.product((0, 1, 16, 255, 256, 65536, 2 ** 32 - 1), (0, 1, 12, 300), (0, 1, 500)):
        t = f"{k}/{v}/{i}"
        sc.do(f"key.sizes {k} {v} {i}", R(f"{t} {t} {b''.join(x.to_bytes(4, 'little') for x in (i, k, v)).hex()} 0/0/0"))
    lst = [(16, 12, 0), (32, 12, 16), (64, 0, 0), (32, 16, 8)]
    txt = " ".join("%d %d %d" % x for x in lst)
    for k, v, i in itertools.product((16, 32, 64, 33), (0, 12, 16, 13), (0, 8, 16, 9)):
        sc.do(f"key.contains {k} {v} {i} {txt}", R("yes" if any(a == k and (v == 0 or b == v) and (i == 0 or c == i) for a, b, c in lst) else "no"))
    scs.append(sc)
    sizes = ((1, 0, 0), (16, 0, 0), (32, 16, 0), (32, 16, 16), (64, 0, 32), (300, 12, 500), (32, 1, 1))
    for kind in ("plain", "sealed"):
        for pol in range(1, 7):
            sc = Scenario(None, f"key/generated/{kind}/{pol}")
            for n, (k, v, i) in enumerate(sizes):
                seen = []
                def good(r, k=k, v=v, i=i):
                    if not r.startswith("R "):
                        return "expected a key, got " + r
                    t = r[2:].split()
                    if len(t) != 4 or t[3] != f"{k}/{v}/{i}":
                        return f"expected fields of {k}/{v}/{i} bytes, got {r[2:][-60:]}"
                    f = [bytes.fromhex(x) if x != "-" else b"" for x in t[:3]]
                    if [len(x) for x in f] != [k, v, i]:
                        return "the fields have other sizes than their record says"
                    if any(len(x) >= 8 and x.count(x[0]) == len(x) for x in f):
                        return "a generated field is constant"
                    big = [x for x in f if len(x) >= 12]
                    if any(a[:12] == b[:12] for a, b in itertools.combinations(big, 2)):
                        return "two generated fields are the same"
                sc.do(f"key.gen g{n} {kind} {pol} {k} {v} {i} {n * 1000}", F(good))
            sc.do(f"key.gen g {kind} {pol} 0 16 16 0", X("Generator"), "a key of no size")
            if kind == "plain":
                for sz, o, n in ((-1, 0, 1), (-1, 0, 33), (-1, 0, 200), (40, 0, 40), (40, 3, 20), (300, 7, 293)):
                    def good(r, sz=sz, o=o, n=n):
                        if not r.startswith("R "):
                            return "expected bytes, got " + r
                        b = bytes.fromhex(r[2:])
                        if sz < 0:
                            return None if len(b) == n else f"expected {n} bytes, got {len(b)}"
                        if len(b) != sz or b[:o] != b"\xa5" * o or b[o + n:] != b"\xa5" * (sz - o - n):
                            return "bytes outside the requested range were changed"
                        if n > 8 and b[o + n - 8:o + n] == b"\xa5" * 8:
                            return "the requested range was not filled"
                    sc.do(f"key.rand {pol} {sz} {o} {n} {o}", F(good))
                sc.do(f"key.rand {pol} 40 30 11 0", X("Generator"), "too small an array")
                sc.do(f"key.rand {pol} 40 0 0 0", X("Generator"), "no bytes")
            scs.append(sc)
    return scs


def body(chk):
    chk.build(["key"], without=("ProviderFromName",))
    T = chk.thorough
    chk.model("KeyStore", cfg("0, 2", "0, 1", 3, "no", 2), "three operations on up to two containers", workers=3)
    f = [("sweep", chk.generate("KeyStore", cfg("0, 1, 31, 64" if T else "0, 1, 32", "0, 1, 2, 3, 4, 5, 6", 9, "sweep"), workers=2)),
         ("walk", chk.generate("KeyStore", cfg("0, 1, 16, 32, 63, 64, 300, 1000", "0, 1, 2, 3, 4, 5, 6", 10, "walk"), num=3000 if T else 200, depth=13, workers=2)),
         ("long", chk.generate("KeyStore", cfg("0, 32, 255, 256, 4097, 32768, 65535", "0, 2, 3", 8, "walk", 3), num=200 if T else 30, depth=11, seed=chk.seed + 5))]
    scs = []
    for kind, fut in f:
        bs = fut.result()
        for i, b in enumerate(bs):
            scs.append(build_scenario(b, f"key/{b['h'][0].get('kind', '-')}/{kind}/{i}", (chk.seed * 1000000 + len(scs)) * 1000))
    chk.log(len(scs), "scenarios")
    chk.replay(scs + others(chk))
    chk.assumptions += ["fields of up to 65535 bytes (the serialized form counts them in 16 bits)",
                        "the clear is looked for in the live heap blocks of the process, by 16 bytes of the field",
                        "generated keys are drawn from an entropy source with known output (at link time)"]
