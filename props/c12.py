"""C12: typed streams give back what was written, in little-endian layout, and nothing beyond the end."""
import ref
from core import R, X, Scenario


def cfg(kinds, counts, steps, gen, mc=False):
    s = f"CONSTANTS Kinds <- {kinds}\n Counts = {{{counts}}}\n Steps = {steps}\n Gen = \"{gen}\"\nCHECK_DEADLOCK FALSE\n"
    if mc:
        return s + "SPECIFICATION MCSpec\nCONSTRAINT MCBound\nVIEW MCView\nINVARIANT TypeOK\nINVARIANT Inverse\nINVARIANT InverseRead\nINVARIANT Bounded\n"
    return s + f"INIT Init\nNEXT {'SweepNext' if gen == 'sweep' else 'Next'}\nINVARIANT Emit\n"


def build_scenario(b, label, seed, n):
    k, h = b["k"], b["h"]
    sc = Scenario(None, label, b)
    def val(runs):
        return b"".join(bytes(r["n"]) if r["s"] == 0 else ref.prg(seed + r["s"], r["o"], r["n"]) for r in runs)
    hx = lambda x: x.hex() if len(x) else "-"
    sc.do(f"ts.new w {k['how']} {'-' if k['how'] == 'room' else f'@{seed + 1000}:0:' + str(k['n'])} {k['n']}", R(f"ok 0/{k['n']}"))
    for i, e in enumerate(h):
        op, sid = e["op"], i + 1
        at = f" {e['wpos']}/{e['len']}" if "wpos" in e else f" {e['rpos']}/{e['len']}" if "rpos" in e else ""
        if e.get("refused"):
            sc.do(f"ts.rint r {e['t']}{e['w']}" if op == "rint" else f"ts.rbytes r {e['n']}", X("Processing"), "a read beyond the end")
        elif op == "wint":
            sc.do(f"ts.wint w {e['t']}{e['w']} @{seed + sid}:0:{e['w']}", R("ok" + at))
        elif op == "wvec":
            sc.do(f"ts.wvec w {e['w']} @{seed + sid}:0:{e['w'] * e['n']}", R("ok" + at))
        elif op == "warr":
            sc.do(f"ts.warr w {e['w']} @{seed + sid}:0:{e['w'] * e['n']} {e['off']} {'sec' if e['sec'] else 'vec'}", R("ok" + at))
        elif op == "whole":
            sc.do("ts.whole w", R(val(e["runs"])))
        elif op == "turn":
            v = val(e["runs"])
            sc.do("ts.turn w r", R(f"0/{len(v)} {hx(v)}"))
        elif op == "resume":
            sc.do("ts.at w", R("ok" + at))
        elif op == "rint":
            x = int.from_bytes(val(e["runs"]), "little", signed=e["t"] == "i")
            t = "b" if e["w"] == 1 and e["t"] == "u" and n % 2 else f"{e['t']}{e['w']}"
            sc.do(f"ts.rint r {t}", R((x % 2 ** 64).to_bytes(8, "little").hex() + at))
        elif op == "rbytes":
            sc.do(f"ts.rbytes r {e['n']}", R(hx(val(e["runs"])) + at))
        elif op == "rarr":
            v = val(e["runs"])
            w = e["w"]
            sc.do(f"ts.rarr r {w} {e['n']} {e['off']} {'sec' if e['sec'] else 'vec'}", R((b"\xa5" * (e["off"] * w) + v + b"\xa5" * ((e["n"] + 1) * w - len(v))).hex() + at))
    sc.do("ts.whole w", R(val(b["buf"])))
    v = val(b["items"])
    sc.do("ts.turn w z", R(f"0/{len(v)} {hx(v)}"), "the stream in the end")
    return sc


def body(chk):
    chk.build(["typed"])
    T = chk.thorough
    chk.model("TypedStream", cfg("MCKinds", "0, 1, 3", 0, "no", True), "four writes and reads of integers and arrays of up to 9 bytes")
    f = [("sweep", chk.generate("TypedStream", cfg("GenKinds", "0, 1, 5", 4, "sweep"), workers=2)),
         ("walk", chk.generate("TypedStream", cfg("GenKinds", "0, 1, 2, 3, 8, 17, 100", 12, "walk"), num=10000 if T else 600, depth=15, workers=2))]
    scs, stops = [], 0
    for kind, fut in f:
        bs = fut.result()
        if kind == "sweep" and not T:
            bs = bs[chk.seed % 2::2]
        for i, b in enumerate(bs):
            stops += any(e.get("refused") for e in b["h"])
            scs.append(build_scenario(b, f"typed/{b['k']['how']}/{kind}/{i}", (chk.seed * 1000000 + len(scs)) * 2000, len(scs)))
    chk.log(len(scs), "scenarios", stops, "refusals")
    chk.replay(scs)
    chk.assumptions += ["little-endian host, as everywhere in this build"]
