"""C09: random generators fill exactly what is asked, in range, never reusing bytes."""
import core, ref
from core import R, X, OK, Scenario

B = 1024
MC = "CONSTANTS Gens <- MCGens\n B = 4\n Steps = 0\n Gen = \"no\"\nSPECIFICATION MCSpec\nCONSTRAINT MCBound\nVIEW MCView\nCHECK_DEADLOCK FALSE\n" \
     "INVARIANT TypeOK\nINVARIANT InBuffer\nINVARIANT BufferFirst\nPROPERTY Once\n"


def gen(steps, kind):
    return f"CONSTANTS Gens <- AllGens\n B = {B}\n Steps = {steps}\n Gen = \"{kind}\"\nINIT Init\nNEXT {'SweepNext' if kind == 'sweep' else 'Next'}\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n"


def bound(t, k, mx=0):
    bits, signed = int(t[1:]), t[0] == "i"
    top = (1 << (bits - signed)) - 1
    bottom = -top - 1 if signed else 0
    return {"zero": 0, "one": 1, "two": 2, "three": 3, "seven": 7, "half": (top + 1) // 2, "half+1": (top + 1) // 2 + 1, "top-1": top - 1, "top": top,
            "max": mx, "max-1": max(mx - 1, bottom), "bottom": bottom, "bottom+1": bottom + 1, "neg": -5}[k]


def sample(t, mx, mn, raw):
    """The value a raw sample is turned into, None if it is rejected.  One bound: below it; two: up to and with the first."""
    bits = int(t[1:])
    if mn is None:
        top = (1 << (bits - (t[0] == "i"))) - 1
        x = raw if t[0] == "u" or raw <= top else raw - (1 << bits)
        if x >= top - top % mx:
            return None
        r = abs(x) % mx * (-1 if x < 0 else 1)
        return r if r >= 0 else None
    n, top = mx - mn + 1, (1 << bits) - 1
    if n > top:
        return raw if t[0] == "u" or raw <= top >> 1 else raw - (1 << bits)
    return None if raw >= top - top % n else mn + raw % n


def build_scenario(b, label, seed):
    g, h = b["g"], b["h"]
    sc = Scenario(None, label, b)
    script = bytearray()
    if g["outer"]:
        script += ref.prg(seed, 0, B * (2 + max([(r["from"] + r["n"]) // B for e in h for r in e.get("runs", [])] or [0])))
        sc.do(None, OK)
        streams = [script]
    else:
        sc.do(f"prng.new g {g['n']} {seed}", OK)
        streams = []
        need = 3 * B + max([r["from"] + r["n"] for e in h for r in e.get("runs", [])] or [0])
        for i in range(1 + sum(e["op"] == "reset" for e in h)):
            key = {"BCR": 64, "CSR128": 16, "CSR256": 32, "CSR512": 64, "HCR256": 32, "HCR512": 64}[g["n"]]
            d = ref.drbg({"B": "BCG", "C": "CSG", "H": "HCG"}[g["n"][0]] + g["n"][3:], None)
            p = ref.prg(seed + i, 0, 200)
            d.event({"t": "load"}, p[:key], p[key:key + 32] if g["n"] == "BCR" else b"", b"")
            d.event({"t": "fill", "z": 0, "k": need // 32 + 1}, b"", b"", b"")
            streams.append(d.stream)
    obj = "rnd" if g["outer"] else "prng"
    for e in h:
        src = streams[e.get("epoch", 0)]
        data = b"".join(bytes(src[r["from"]:r["from"] + r["n"]]) for r in e.get("runs", []))
        if e["op"] == "get":
            size = e["off"] + e["n"] + (0 if e["off"] == 0 and e["n"] % 2 == 0 else 3)
            if g["outer"] and e["n"] == 7:
                sc.do(f"rnd.ret g {e['n']}", R(data))
            else:
                sc.do(f"{obj}.gen g {size} {e['off']} {e['n']} {e['how']}", R(b"\xa5" * e["off"] + data + b"\xa5" * (size - e["off"] - e["n"])), "bytes %s" % e["runs"])
        elif e["op"] == "bad":
            sc.do(f"prng.gen g {e['off'] + e['n'] - 1} {e['off']} {e['n']} {e['how']}", X("Random"), "too small a buffer")
        elif e["op"] == "reset":
            sc.do("prng.reset g")
        elif e["op"] == "next":
            t = e["t"]
            v = int.from_bytes(data, "little", signed=t[0] in "ic")
            sc.do(f"{obj}.next g {t}", R(data) if t == "d" else R(str(v)))
        elif e["op"] == "fill":
            w, pad = e["w"], str(0xa5a5a5a5a5a5a5a5 % (1 << 8 * e["w"]))
            vals = [pad] * e["off"] + [str(int.from_bytes(data[i:i + w], "little")) for i in range(0, len(data), w)] + [pad]
            sc.do(f"{obj}.fill g {w} {len(vals)} {e['off']} {e['n']} {'sec' if e['sec'] else 'vec'}", R(" ".join(vals)))
        elif e["op"] in ("draw", "drawbad"):
            t, w = e["t"], int(e["t"][1:]) // 8
            mx = bound(t, e["mx"])
            mn = None if e["mn"] == "none" else bound(t, e["mn"], mx)
            call = f"rnd.next g {t} {mx}" + ("" if mn is None else f" {mn}")
            if e["op"] == "drawbad":
                sc.do(call, X("Random"), "bounds the wrong way round, or none")
                continue
            uns = mn is not None or t[0] == "u"
            top = (1 << (8 * w - (not uns))) - 1
            n = mx if mn is None else mx - mn + 1
            lim = top + 1 if n > top else top - top % n
            value = None
            for k, (r, kind) in enumerate(zip(e["runs"], e["smp"])):
                raw = {"top": (1 << (8 * w - (not uns))) - 1, "limit": min(lim, top), "zero": 0, "below": lim - 1, "some": int.from_bytes(ref.prg(seed + k + 7, 0, w), "little") % lim}[kind]
                script[r["from"]:r["from"] + w] = raw.to_bytes(w, "little")
                value = sample(t, mx, mn, raw)
                if value is not None:
                    break
            assert value is not None
            sc.do(call, R(str(value)), f"bounds {e['mx']} {e['mn']}, samples {e['smp']}")
            if k + 1 < len(e["runs"]):       # the entire range: nothing is rejected, the rest of the behaviour does not apply
                break
    if g["outer"]:
        sc.steps[0] = ("prng.rnd g x" + bytes(script).hex(), OK, "")
    return sc


def body(chk):
    chk.build(["prng"], without=("ProviderFromName", "PrngFromName"))
    T = chk.thorough
    chk.model("Prng", MC, "buffers of 4 bytes, requests of up to 9, re-keying; rejection sampling over all bounds of 16-valued words")
    f = [("sweep", chk.generate("Prng", gen(3, "sweep"))), ("walk", chk.generate("Prng", gen(10, "walk"), num=8000 if T else 700, depth=13, workers=2))]
    scs = []
    for kind, fut in f:
        for i, b in enumerate(fut.result()):
            scs.append(build_scenario(b, f"prng/{b['g']['n']}/{kind}/{i}", chk.seed * 1000000 + i * 20))
    chk.replay(scs)
    chk.assumptions += ["entropy sources and, for SecureRandom, the engine are replaced by ones with known output (at link time)",
                        "the values of the streams are those of the independent DRBG references of C08"]
