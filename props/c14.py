"""C14: a signature verifies exactly if it is genuine; one-time keys are used once."""
import random, re
import ref
from core import R, X, F, OK, Scenario

CHEAP = (1, 2, 3, 7, 8)
SPX = (17, 18, 19, 20)
XMSS = (21, 24, 27, 30)                      # trees of height 10
SMALL = (34, 37, 40, 42, 45, 48, 50, 53, 56, 58, 61, 64)     # layered trees of height 5 per layer
HEIGHT = {i: v for i, v in enumerate((20, 20, 40, 40, 40, 60, 60, 60))}
PRV, PUB = 3, 4                              # AsymmetricKeyTypes of signatures
NAMES = {5: "Dilithium", 6: "ECDSA", 9: "SPHINCS+", 10: "XMSS"}


def prim(p):
    return 5 if p <= 3 else 6 if p <= 8 else 9 if p <= 20 else 10


def height(p):
    return {0: 10, 1: 16, 2: 20}[(p - 21) % 3] if p < 33 else HEIGHT[(p - 33) % 8]


def index_size(p):
    return 4 if p < 33 else (height(p) + 7) // 8


def cfg(params, steps, gen, objs=3, keys=2, sigs=3, msgs="1, 32, 33, 200", many=1000):
    s = (f"CONSTANTS Params = {{{', '.join(map(str, params))}}}\n Msgs = {{{msgs}}}\n Steps = {steps}\n Gen = \"{gen}\"\n MaxObjs = {objs}\n MaxKeys = {keys}\n"
         f" MaxSigs = {sigs}\n Many = {many}\nCHECK_DEADLOCK FALSE\n")
    if gen == "no":
        return s + "SPECIFICATION MCSpec\nCONSTRAINT MCBound\nINVARIANT Genuine\nINVARIANT Complete\nINVARIANT OneTime\nINVARIANT Bounded\n"
    return s + f"INIT Init\nNEXT {'SweepNext' if gen == 'sweep' else 'Next'}\nINVARIANT Emit\n"


def build_scenario(b, label, seed, every=6):
    sc = Scenario(None, label, b)
    rnd = random.Random(seed)
    cnt, pofkey, sig = {}, {}, {}
    msg = lambda s: f"@{seed + s}:0:{sig[s]['n']}"
    n = [0]

    def uniq():
        n[0] += 1
        return seed + 500 + n[0]

    def private(e):
        return f"w{e['key']}" if e["key"] in cnt and cnt[e["key"]] else f"K{e['key']}.prv"
    for e in b["h"]:
        op = e["op"]
        if op == "new":
            sc.do(f"sig.make o{e['obj']} {e['p']} {uniq()} {e['how']}")
        elif op == "gen":
            k = f"K{e['key']}"
            pofkey[e["key"]] = e["p"]
            cnt[e["key"]] = e["few"]
            sc.do(f"sig.gen o{e['obj']} {k}", F(lambda r: None if re.match(r"R [1-9]\d* [1-9]\d*$", r) else "expected a key pair, got " + r[:100]))
            if e["few"]:
                h = height(e["p"])
                at = 2 ** h - e["few"]
                w = index_size(e["p"])
                sc.do(f"akey.make w{e['key']} ${k}.prv[0:4]+x{at.to_bytes(w, 'big').hex()}+${k}.prv[{4 + w}:99999] 10 {PRV} {e['p']} vec")
        elif op == "init":
            sc.do(f"sig.init o{e['obj']} {private(e) if e['role'] == 'sign' else 'K%d.pub' % e['key']}")
            sc.do(f"sig.look o{e['obj']}", F(lambda r, e=e: None if r.startswith("R ready " + ("signs" if e["role"] == "sign" else "verifies")) else "after Initialize the object says " + r))
        elif op == "foreign":
            if e["what"] == "primitive":
                sc.do(f"sig.init o{e['obj']} K{e['key']}.{rnd.choice(('pub', 'prv'))}", X("Asymmetric"), "a key of another primitive")
            else:
                t = rnd.choice((("pub", 2), ("prv", 1)))
                sc.do(f"akey.make foreign{len(sc.steps)} $K{e['key']}.{t[0]} {prim(e['p'])} {t[1]} {e['p']} vec")
                sc.do(f"sig.init o{e['obj']} foreign{len(sc.steps) - 1}", X("Asymmetric"), "a key of a cipher")
        elif op == "sign":
            s = e["sig"]
            sig[s] = e
            def good(r, s=s, e=e):
                t = r.split()
                if t[0] != "R":
                    return "expected a signature, got " + r[:200]
                if t[1] != t[2]:
                    return f"Sign returns {t[1]} for a signature of {t[2]} bytes"
            sc.do(f"sig.sign o{e['obj']} {msg(s)} S{s} {'@%d:0:%d' % (uniq(), e['pre']) if e['pre'] else '-'}", F(good))
            sc.do(f"sig.parts S{s} {e['n']}", OK, "the signature is not longer than its message")
            if e["p"] >= 21:
                w = index_size(e["p"])
                at = 2 ** height(e["p"]) - e["left"] if cnt[e["key"]] else e["at"]
                sc.do(f"buf.get $S{s}[0:{w}]", R(at.to_bytes(w, "big").hex()), "the index of the one-time key")
        elif op == "last":
            sc.do(f"sig.sign o{e['obj']} @{uniq()}:0:{e['n']} last -", F(lambda r: None if r.startswith(("R ", "X Asymmetric")) else "expected a signature or a refusal, got " + r[:200]))
        elif op == "nosign":
            sc.do(f"sig.sign o{e['obj']} {'@%d:0:%d' % (uniq(), e['n']) if e['n'] else '-'} none {'@%d:0:%d' % (uniq(), e['pre']) if e['pre'] else '-'}", X("Asymmetric"),
                  {"none": "not initialized", "verify": "initialized with a public key", "used up": "the one-time keys are used up", "empty": "an empty message"}[e["why"]])
        elif op == "noverify":
            sc.do(f"sig.verify o{e['obj']} $S{e['sig']} -", X("Asymmetric"), "not a verifier")
        elif op == "verify":
            s, t, ch = e["sig"], e["t"], e["ch"]
            pre = f"@{uniq()}:0:{e['pre']}" if e["pre"] else "-"
            o = f"o{e['obj']}"
            if e["yes"]:
                sc.do(f"sig.verify {o} $S{s} {pre}", R("yes " + ref.prg(seed + s, 0, sig[s]["n"]).hex()), "a genuine signature")
                continue
            no, why = R("no"), ch
            if ch == "none":
                sc.do(f"sig.verify {o} $S{s} {pre}", no, "a signature of another pair")
                continue
            m = sig[s]["n"]
            if ch.startswith("flip") and ch != "flip key":
                # places: fractions of the head, counted by the driver
                many = every
                if ch == "flip first":
                    pos = [("h", k * 1000, rnd.randrange(8)) for k in range(many)]
                elif ch == "flip last":
                    pos = [("h", -1 - k, rnd.randrange(8)) for k in range(many)]
                elif ch == "flip message":
                    pos = [("m", rnd.randrange(m), rnd.randrange(8)) for _ in range(min(many, m))] + [("m", 0, 7), ("m", m - 1, 0)]
                elif ch == "flip head":
                    pos = [("f", rnd.randrange(0, 10000), rnd.randrange(8)) for _ in range(many)]
                elif ch == "flip middle":
                    pos = [("f", rnd.randrange(400000, 600000), rnd.randrange(8)) for _ in range(many)]
                elif ch == "flip late":
                    pos = [("f", rnd.randrange(900000, 1000000), rnd.randrange(8)) for _ in range(many)]
                else:
                    pos = [("f", rnd.randrange(1000000), rnd.randrange(8)) for _ in range(2 * many)]
                if ch == "flip first":
                    pos = [("h", k, rnd.randrange(8)) for k in range(many)]
                for w, x, bit in pos:
                    sc.do(f"sig.flip {o} S{s} {m} {w} {x} {bit} {pre}", no, f"{ch} ({w} {x} bit {bit})")
                continue
            if ch == "flip key":
                for x in (0, 1, 2, 3, 4, 5, 31, -1, -2) + tuple(rnd.randrange(1000000) for _ in range(every)):
                    sc.do(f"sig.flipkey {o} K{e['key']}.pub S{s} {x} {rnd.randrange(8)} {pre}", no, f"a changed public key (byte {x})")
                sc.do(f"sig.verify {o} $S{s} {pre}", no if e["of"] != e["key"] else R("yes " + ref.prg(seed + s, 0, m).hex()), "the unchanged key again")
                continue
            src = {"cut one": [f"$S{s}.1"], "cut message": [f"$S{s}.h"], "cut head": [f"$S{s}.g", f"$S{s}[0:64]", f"$S{s}[0:40]", f"$S{s}[0:3]"], "cut all": ["-", f"$S{s}[0:1]"],
                   "grow one": [f"$S{s}+x00", f"$S{s}+x80"], "grow many": [f"$S{s}+@{uniq()}:0:64"], "drop first": [f"$S{s}[1:999999]", f"x00+$S{s}"],
                   "message of other": [f"$S{s}.h+{msg(t)}"], "head of other": [f"$S{t}.h+{msg(s)}"] if t in sig else [],
                   "noise": [f"@{uniq()}:0:64+{msg(s)}", f"@{uniq()}:0:9000"], "zeros": ["z64:0", "z9000:0", "z60000:0"]}[ch]
            for x in src:
                sc.do(f"sig.verify {o} {x} {pre}", no, why)
    return sc


def body(chk):
    chk.build(["asym"], without=("PrngFromName",))
    T = chk.thorough
    chk.model("Signature", cfg((1, 7), 6 if T else 5, "no", 2, 2, 2, "1", 3), "six operations of two schemes", workers=2)
    chk.model("Signature", cfg((21,), 8 if T else 6, "no", 1, 1, 3, "1", 3), "a stateful scheme with three one-time keys", workers=2)
    g = [("sweep", chk.generate("Signature", cfg(CHEAP, 39, "sweep"), workers=1)),
         ("sweep", chk.generate("Signature", cfg(SPX, 39, "sweep"), workers=1)),
         ("sweep", chk.generate("Signature", cfg(XMSS, 39, "sweep"), workers=1)),
         ("sweep", chk.generate("Signature", cfg(SMALL + ((33, 35, 36, 38, 39) if T else ()), 39, "sweep"), workers=1)),
         ("walk", chk.generate("Signature", cfg(CHEAP, 40, "walk", 4, 3, 8, "1, 2, 31, 32, 33, 63, 64, 65, 200, 1000"), num=3000 if T else 400, depth=43, workers=2)),
         ("small", chk.generate("Signature", cfg((34, 42, 50, 58, 7), 22, "walk", 3, 2, 4), num=60 if T else 14, depth=25, seed=chk.seed + 3)),
         ("small", chk.generate("Signature", cfg((37, 40, 45, 48, 53, 56, 61, 64, 2), 22, "walk", 3, 2, 4), num=60 if T else 10, depth=25, seed=chk.seed + 4))]
    if T:
        g.append(("spx", chk.generate("Signature", cfg(SPX[:3] + (8,), 22, "walk", 3, 2, 3), num=20, depth=25, seed=chk.seed + 5)))
    scs = []
    for kind, fut in g:
        for i, b in enumerate(fut.result()):
            ps = sorted({e["p"] for e in b["h"] if "p" in e})
            scs.append(build_scenario(b, f"{NAMES[prim(ps[-1])]}/{kind}/{ps[-1]}/{i}", (chk.seed * 100000 + len(scs)) * 1000, 40 if T else 6))
    scs.sort(key=lambda s: -cost(s))
    chk.log(len(scs), "scenarios")
    chk.replay(scs, timeout=800)
    chk.assumptions += ["XMSS trees of height 16 and 20, and layered trees of height 20 per layer are not run (key generation takes minutes)" + ("" if T else "; trees of height 10 per layer only in the thorough tier"),
                        "private keys near the end of their one-time keys are made by writing the index into a generated key",
                        "the random source is replaced by one with known output"]


def cost(s):
    sg = sum(1 for l, _, _ in s.steps if l.startswith(("sig.sign", "sig.gen")))
    return sg * (30 if "SPHINCS+" in s.label else 10 if "/sweep/2" in s.label or "/sweep/30" in s.label else 2 if "XMSS" in s.label else 0.01)
