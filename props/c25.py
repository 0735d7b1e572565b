"""C25: the SIMD integer types act on every lane as the scalar type does."""
import ref
from core import R, Scenario

LAWS = "CONSTANTS Width = {w}\n Lanes = {l}\n Regs = 2\n Steps = {s}\n Gen = \"no\"\nINIT MInit\nNEXT MNext\nINVARIANT TypeOK\nINVARIANT Laws\nCHECK_DEADLOCK FALSE\n"
GEN = "CONSTANTS Width = 4\n Lanes = 1\n Regs = 4\n Steps = {s}\n Gen = \"{g}\"\nINIT {i}\nNEXT {n}\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n"
TYPES = {"UInt128": (32, 4), "UShort128": (16, 8), "UInt256": (32, 8), "ULong256": (64, 4)}
ABSENT = {("UShort128", "sra"), ("UShort128", "srl"), ("ULong256", "neg"), ("ULong256", "sra"), ("ULong256", "srl"), ("UShort128", "loadul"), ("ULong256", "dec")}


def operand(cls, seed, w, n):
    top = (1 << w) - 1
    r = [int.from_bytes(ref.prg(seed, 8 * i, w // 8), "little") for i in range(n)]
    return {"rnd": r, "rnd2": r[::-1], "zero": [0] * n, "ones": [top] * n, "one": [1] * n, "low": [x & 3 for x in r],
            "min": [(1 << (w - 1)) + (i & 1) for i in range(n)], "max": [(top >> 1) - (i & 1) for i in range(n)], "nz": [x | 1 for x in r]}[cls]


def lane(op, w, x, y, k):
    m = (1 << w) - 1
    mask = lambda b: m if b else 0
    sgn = x - (1 << w) if x >> (w - 1) else x
    return {"add": lambda: x + y, "sub": lambda: x - y, "mul": lambda: x * y, "div": lambda: x // y, "mod": lambda: x % y, "xor": lambda: x ^ y,
            "or": lambda: x | y, "and": lambda: x & y, "andnot": lambda: ~x & y, "gt": lambda: mask(x > y), "lt": lambda: mask(x < y),
            "ge": lambda: mask(x >= y), "le": lambda: mask(x <= y), "eq": lambda: mask(x == y), "ne": lambda: mask(x != y),
            "neg": lambda: -x, "not": lambda: ~x, "lnot": lambda: mask(x == 0), "abs": lambda: abs(sgn), "inc": lambda: x + 1, "dec": lambda: x - 1,
            "swap": lambda: int.from_bytes(x.to_bytes(w // 8, "little"), "big"), "shl": lambda: x << k, "shr": lambda: x >> k, "srl": lambda: x >> k,
            "sra": lambda: sgn >> k, "rotl": lambda: (x << k % w) | (x >> (w - k % w)), "rotr": lambda: (x >> k % w) | (x << (w - k % w))}[op]() & m


def show(v, w): return b"".join(x.to_bytes(w // 8, "little") for x in v)


def steps(sc, b, seed, o):
    t = b["type"]
    w, n = TYPES[t]
    regs = [[0] * n for _ in range(5)]
    sc.do(f"sv.new {t} {o}", R(""))
    for j, e in enumerate(b["h"]):
        op, f, d, a, y, k = e["op"], e["form"], e["d"], e["a"], e["b"], e["k"]
        if (t, op) in ABSENT or (t, f) in ABSENT:
            continue
        ret = ""
        if op == "move4":
            v = [operand(e["cls"], seed + i, w, n) for i in range(4)]
            tr = [[v[i // 4 * 0 + c][(i // 4) * 4 + r] for i in range(n) for c in [i % 4]] for r in range(4)]
            raw = b"".join(show(x, w) for x in v)
            sc.do(f"sv.move {t} x{raw.hex()}", R(f"{b''.join(show(x, w) for x in tr).hex()} {raw.hex()}"), f"{t}: load and store four registers transposed")
            continue
        if op == "set":
            v = operand(e["cls"], seed + j, w, n)
            regs[d] = {"one": [v[0]] * n, "ctorone": [v[0]] * n, "each": v[::-1], "ctoreach": v[::-1], "loadul": v[::-1], "const1": [1] * n, "const0": [0] * n, "assign": regs[a]}.get(f, v)
            sc.do(f"sv.set {t} {o} {f} {d} {a} x{show(v, w).hex()}", R(" ".join(show(x, w).hex() for x in regs[1:])), f"{t}: {f} from {e['cls']} values")
            continue
        if f in ("op=", "prefix", "postfix"):
            src = regs[d]
        else:
            src = regs[a]
        if f == "member" and op != "swap":
            src = regs[d]
        old = regs[d]
        regs[d] = [lane(op, w, x, z, k) for x, z in zip(src, regs[y])]
        if f in ("prefix", "postfix"):
            ret = show(regs[d] if f == "prefix" else old, w).hex()
        sc.do(f"sv.op {t} {o} {op} {f} {d} {a} {y} {k}", R((ret + " " if ret else "") + " ".join(show(x, w).hex() for x in regs[1:])), f"{t}: {op} ({f})" + (f" by {k}" if k else ""))


def body(chk):
    chk.build(["simd"])
    T = chk.thorough
    fs = chk.generate("Simd", GEN.format(s=0, g="sweep", i="GInit", n="GNext"), workers=2)
    fw = chk.generate("Simd", GEN.format(s=20, g="walk", i="WInit", n="WNext"), num=6000 if T else 1500, depth=40)
    chk.model("Simd", LAWS.format(w=4, l=1, s=2 if T else 1), "one lane of four bits, every pair of values", workers=2)
    chk.model("Simd", LAWS.format(w=2, l=2, s=2), "two lanes of two bits", workers=2)
    by, scs = {}, []
    for i, b in enumerate(fs.result()):
        e = b["h"][-1]
        key = f"{b['type']}/{e['op']}/{e['form']}"
        if key not in by:
            by[key] = Scenario(None, key, b)
        steps(by[key], b, chk.seed * 1000000 + i * 7, f"v{i}")
    for i, b in enumerate(fw.result()):
        scs.append(Scenario(None, f"{b['type']}/walk/{i}", b))
        steps(scs[-1], b, chk.seed * 2000000 + i * 50, "v")
    chk.replay(scs + list(by.values()))
    chk.assumptions += ["logical AND and OR of vectors are not judged (the library computes them bitwise)", "division by a lane of zero is a programming error",
                        "the transposition of 256-bit registers is taken within each half", "the 512-bit types are not compiled on this machine"]
