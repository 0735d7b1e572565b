"""C11: byte streams return what was written, at the positions the model says, whatever holds the bytes."""
import core, ref
from core import R, X, ANY, OK, Scenario

CAPS = {"mem": "rws", "sec": "rws", "r": "r-s", "w": "-ws", "rw": "rws"}


def cfg(kinds, lens, seeks, offs, steps, gen, mc=False):
    s = f"CONSTANTS Kinds <- {kinds}\n Lens = {{{lens}}}\n Seeks = {{{seeks}}}\n Offs = {{{offs}}}\n Steps = {steps}\n Gen = \"{gen}\"\n Flat = {'TRUE' if mc else 'FALSE'}\nCHECK_DEADLOCK FALSE\n"
    if mc:
        return s + "SPECIFICATION MCSpec\nCONSTRAINT MCBound\nVIEW MCView\nINVARIANT TypeOK\nINVARIANT Denotes\nPROPERTY ReadBack\nPROPERTY Frame\nPROPERTY ReaderOnly\n"
    return s + f"INIT Init\nNEXT {'SweepNext' if gen == 'sweep' else 'Next'}\nINVARIANT Emit\n"


def build_scenario(b, label, seed, n):
    k, h = b["k"], b["h"]
    kind = k["kind"]
    sc = Scenario(None, label, b)
    src = lambda s: f"@{seed + s}:"
    def val(runs):
        return b"".join(bytes(r["n"]) if r["s"] == 0 else ref.prg(seed + r["s"], r["o"], r["n"]) for r in runs)
    hx = lambda x: x.hex() if len(x) else "-"
    name = f"bs{n}.bin"
    if kind == "file":
        sc.do(f"bs.disk.put {name} @{seed + 1000}:0:{k['n']}")
    else:
        o = k["off"]
        salt = f" {(0, 1, 77, 2 ** 64 - 1)[n % 4]}" if kind == "sec" else ""
        how = f"none" if o == -3 or (o == -2 and n % 2) else f"room - {(0, 10, 5000)[n % 3]}" if o == -2 else f"array @{seed + 1000}:0:{k['n']}" if o == -1 else f"part @{seed + 1000}:0:{k['n'] + o + 4} {o} {k['n']}"
        sc.do(f"bs.new s {kind} {how}{'' if how == 'none' else salt}", R(f"rws 0/{k['n']}"))
    for i, e in enumerate(h):
        at, op, sid = f" {e['pos']}/{e['len']}", e["op"], i + 1
        ok = R("ok" + at)
        if op == "write":
            sc.do(f"bs.write s @{seed + sid}:0:{e['o'] + e['n'] + (0 if e['n'] % 2 else 2)} {e['o']} {e['n']}", ok)
        elif op == "writebyte":
            sc.do(f"bs.writebyte s @{seed + sid}:0:1", ok)
        elif op == "read":
            v = val(e["runs"])
            size = e["o"] + e["n"] + (0 if e["n"] % 2 else 3)
            sc.do(f"bs.read s {size} {e['o']} {e['n']}", R(f"{len(v)} {hx(b'\xa5' * e['o'] + v + b'\xa5' * (size - e['o'] - len(v)))}{at}"))
        elif op == "readbyte":
            sc.do("bs.readbyte s", R(val(e["runs"]).hex() + at))
        elif op == "readend":
            sc.do("bs.readbyte s", X("Processing"), "a byte at the end")
            sc.do("bs.seek s current 0", ok)
        elif op == "seek":
            sc.do(f"bs.seek s {e['org']} {e['n']}", ok)
        elif op == "setlength":
            sc.do(f"bs.setlength s {e['n']}", ok)
        elif op == "copyto":
            v = val(e["runs"])
            sc.do(f"bs.copyto s @{seed + sid}:0:{e['m']} {e['p']}", R(f"{hx(v)} {e['at']}/{len(v)}{at}"))
        elif op == "toarray":
            sc.do(f"bs.toarray s {kind}", R(hx(val(e["runs"])) + at))
        elif op == "copy":
            sc.do("bs.copy s", ok)
        elif op == "reset":
            sc.do("bs.reset s", ok)
        elif op == "close":
            sc.do("bs.close s", ok)
            if kind == "file":
                v = val(e["runs"])
                sc.do(f"bs.disk.get {name}", R(f"{hx(v)} {len(v)}"), "the file")
        elif op == "open":
            sc.do(f"bs.open s {name} {e['acc']} {e['mode']}", R(CAPS[e["acc"]] + at))
    # what is there in the end
    v = val(b["runs"])
    if b["open"] in ("r", "rw"):
        sc.do("bs.seek s begin 0", R(f"ok 0/{len(v)}"))
        sc.do(f"bs.read s {len(v) + 2} 1 {len(v) + 1}", R(f"{len(v)} a5{v.hex()}a5 {len(v)}/{len(v)}"), "the contents in the end")
    if kind == "sec" and len(v) >= 48:
        for w in [r for r in b["runs"] if r["s"] and r["n"] >= 24][:2]:
            sc.do(f"bs.atrest s @{seed + w['s']}:{w['o'] + 8}:16", OK, "the contents lie in memory in the clear")
    if kind == "file":
        d = val(b["disk"]) if b["open"] == "no" else v if b["open"] != "r" else val(b["disk"])
        if b["open"] != "no":
            sc.do("del s")
        sc.do(f"bs.disk.get {name}", R(f"{hx(d)} {len(d)}"), "the file in the end")
        sc.do(f"bs.disk.del {name}")
    return sc


def body(chk):
    chk.build(["bstream"])
    T = chk.thorough
    chk.model("ByteStream", cfg("MCKinds", "0, 1, 2", "0, 1, 3", "0, 1", 0, "no", True), "streams of up to 6 bytes, three operations from every kind")
    S = "0, 1, 15, 16, 17, 40, 64" + (", 31, 33, 100" if T else "")
    f = [("sweep", chk.generate("ByteStream", cfg("SweepKinds", "0, 1, 16, 39, 41, 70" if T else "0, 1, 17, 41", "0, 1, 16, 39, 40, 41, 60" if T else "0, 16, 40, 45", "0", 4, "sweep"), workers=2)),
         ("walk", chk.generate("ByteStream", cfg("WalkKinds", S + ", 255", "0, 1, 2, 5, 16, 17, 50, 130", "0, 1, 7", 12, "walk"), num=6000 if T else 500, depth=15, workers=2)),
         ("big", chk.generate("ByteStream", cfg("WalkKinds", "1, 4095, 4096, 4097, 8192, 9000", "0, 1, 16, 4096, 4097, 10000", "0, 3", 9, "walk"), num=2000 if T else 120, depth=12, workers=2, seed=chk.seed + 7))]
    scs = []
    for kind, fut in f:
        for i, b in enumerate(fut.result()):
            scs.append(build_scenario(b, f"bytestream/{b['k']['kind']}/{kind}/{i}", (chk.seed * 1000000 + len(scs)) * 2000, len(scs)))
    chk.log(len(scs), "scenarios")
    for n, (acc, mode) in enumerate([("r", "binary"), ("r", "atend")]):
        sc = Scenario(None, f"bytestream/file/missing/{n}")
        sc.do(f"bs.open s nofile{n}.bin {acc} {mode}", X("Processing"), "a file that does not exist")
        scs.append(sc)
    chk.replay(scs)
    chk.assumptions += ["files are read and written by one stream at a time", "SetLength of a memory stream makes room and shows in nothing else",
                        "a file stream seeks to its end only without an offset; a write of nothing beyond the end is not judged; append mode is not judged"]
