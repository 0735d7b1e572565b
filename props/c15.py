"""C15: key encapsulation and key exchange agree between honest parties, and only between them."""
import hashlib, random, re
import ref
from core import R, X, F, OK, Scenario

NAMES = {1: "ECDH", 2: "Kyber", 3: "McEliece"}
T_OF = {13: (96, 4608), 14: (119, 6960), 15: (128, 6688), 16: (128, 8192)}


def prim(p):
    return 1 if p in (5, 6) else 2 if p <= 12 else 3


def cfg(params, steps, gen, objs=3, keys=2, cts=4, lens="16, 32, 64, 200"):
    s = (f"CONSTANTS Params = {{{', '.join(map(str, params))}}}\n Lens = {{{lens}}}\n Steps = {steps}\n Gen = \"{gen}\"\n MaxObjs = {objs}\n MaxKeys = {keys}\n MaxCts = {cts}\n"
         "CHECK_DEADLOCK FALSE\n")
    if gen == "no":
        return s + "SPECIFICATION MCSpec\nCONSTRAINT MCBound\nINVARIANT Agreed\nINVARIANT Mutual\n"
    return s + f"INIT Init\nNEXT {'SweepNext' if gen == 'sweep' else 'Next'}\nINVARIANT Emit\n"


def duplicates(p, start):
    """A seed of the random source for which McEliece's first permutation has two equal words (about 1 of 128)."""
    t, n = T_OF[p]
    seed = start
    while True:
        r = hashlib.shake_256(b"\x40" + ref.prg(seed, 0, 32)).digest(n // 8 + 8192 * 4 + 2 * t + 32)
        q = r[len(r) - 32 - 2 * t - 8192 * 4:len(r) - 32 - 2 * t]
        if len({q[i:i + 4] for i in range(0, len(q), 4)}) < 8192:
            return seed
        seed += 1


def build_scenario(b, label, seed, every, keyseed=None):
    sc = Scenario(None, label, b)
    rnd = random.Random(seed)
    terms = {}                      # step -> term of the secret it printed
    dom = {0: "-", 1: f"@{seed + 1}:0:32", 2: f"@{seed + 1}:0:32^31.1", 3: f"@{seed + 1}:0:33"}
    n = [0]

    def uniq():
        n[0] += 1
        return seed + 500 + n[0]

    def secret(want):
        return f"z{want}:165"

    def yes(e):
        s = e["ss"]
        size = s["n"] or 32
        def good(r):
            t = r.split()
            if t[0] != "R" or t[1] == "no":
                return "a genuine cipher-text is refused: " + r[:100]
            if len(t[2]) != 2 * size:
                return f"expected a secret of {size} bytes, got {len(t[2]) // 2}"
        return F(good)

    def never(want):
        """refused; the output array may hold anything but the secret, judged in the end"""
        return F(lambda r: None if r.startswith("R ") else "expected a refusal by result, got " + r[:100])
    for e in b["h"]:
        op = e["op"]
        if op == "new":
            s = keyseed if keyseed and e["obj"] == 1 else uniq()
            sc.do(f"{'dh' if prim(e['p']) == 1 else 'kem'}.make o{e['obj']} {e['p']} {s} {e['how']}")
        elif op == "gen":
            x = "dh" if prim(e["p"]) == 1 else "kem"
            sc.do(f"{x}.gen o{e['obj']} K{e['key']}", F(lambda r: None if re.match(r"R [1-9]\d* [1-9]\d*$", r) else "expected a key pair, got " + r[:100]))
        elif op == "init":
            sc.do(f"kem.init o{e['obj']} K{e['key']}.{'pub' if e['role'] == 'enc' else 'prv'}")
        elif op == "foreign":
            if e["what"] == "primitive":
                sc.do(f"kem.init o{e['obj']} K{e['key']}.{rnd.choice(('pub', 'prv'))}", X("Asymmetric"), "a key of another primitive")
            else:
                t = rnd.choice((("pub", 4), ("prv", 3)))
                sc.do(f"akey.make foreign{len(sc.steps)} $K{e['key']}.{t[0]} {prim(e['p'])} {t[1]} {e['p']} vec")
                sc.do(f"kem.init o{e['obj']} foreign{len(sc.steps) - 1}", X("Asymmetric"), "a signature key")
        elif op == "domain":
            sc.do(f"obj.domain o{e['obj']} {dom[e['d']]}")
        elif op == "enc":
            i = sc.do(f"kem.enc o{e['obj']} C{e['ct']} ss {'z%d:90' % e['pre'] if e['pre'] else '-'} {secret(e['want'])}", yes(e), "the sender's secret")
            terms[i] = e["ss"]
        elif op == "noenc":
            sc.do(f"kem.enc o{e['obj']} none none - -", X("Asymmetric"), "not set up to encapsulate: " + e["why"])
        elif op == "nodec":
            sc.do(f"kem.dec o{e['obj']} $C{e['ct']} -", X("Asymmetric"), "not set up to decapsulate: " + e["why"])
        elif op == "dec":
            c, ch = e["ct"], e["ch"]
            if e["yes"]:
                i = sc.do(f"kem.dec o{e['obj']} $C{c} {secret(e['want'])}", yes(e), "the receiver's secret")
                terms[i] = e["ss"]
                continue
            if ch == "none":
                src = [f"$C{c}"]
            elif ch in ("flip", "flip ends"):
                for k in range(every):
                    x = rnd.randrange(1000, 1000000) if ch == "flip" else (0, -1, 1, -2, -32, -33)[k % 6]
                    i = sc.do(f"kem.flip o{e['obj']} C{c} {x} {rnd.randrange(8)} {secret(e['want'])}", R("no " + "a5" * e["want"]), "a changed cipher-text (byte %d)" % x)
                continue
            else:
                size = "0:99999999"
                src = {"cut one": [f"cut 1"], "cut more": ["cut 32", "cut 33", "cut 100"], "cut all": ["-", f"$C{c}[0:1]", f"$C{c}[0:31]"], "grow": [f"$C{c}+x00", f"$C{c}+@{uniq()}:0:40"],
                       "drop first": [f"$C{c}[1:9999999]", f"$C{c}[1:9999999]+x00", f"x00+$C{c}[0:9999999]"], "cross": [f"cross {e['t']}"],
                       "noise": ["noise"], "zeros": ["zeros"]}[ch]
            for x in src:
                a = x.split()
                if a[0] in ("cut", "cross", "noise", "zeros"):
                    line = f"kem.alter o{e['obj']} C{c} {a[0]} {'C' + a[1] if a[0] == 'cross' else a[1] if len(a) > 1 else uniq()} {secret(e['want'])}"
                else:
                    line = f"kem.dec o{e['obj']} {x} {secret(e['want'])}"
                sc.do(line, R("no " + (("a5" * e["want"]) or "-")), {"none": "a cipher-text for another pair"}.get(ch, "a changed cipher-text: " + ch))
        elif op == "changed":
            for k in range(every):
                sc.do(f"kem.changed o{e['obj']} o{e['by']} K{e['key']}.pub {rnd.randrange(1000, 1000000)} {rnd.randrange(8)}", OK, "the secret of a cipher-text made with a changed public key")
        elif op == "agree":
            i = sc.do(f"dh.agree o{e['obj']} K{e['j']}.pub K{e['i']}.prv {secret(e['want'])}", yes(e), "the exchanged secret")
            terms[i] = e["ss"]
        elif op == "disagree":
            p = f"K{e['j']}.pub"
            term = dict(of=-1, dom=e["dom"], n=0 if e["dom"] == 0 else 64, by=e["by"])
            if e["ch"] == "flip":
                for k in range(every):
                    x, bit = rnd.randrange(32), rnd.randrange(8)
                    if (x, bit) == (31, 7):
                        bit = 6
                    sc.do(f"akey.make ch{len(sc.steps)} ${p}^{x}.{1 << bit:x} 1 2 5 vec")
                    i = sc.do(f"dh.agree o{e['obj']} ch{len(sc.steps) - 1} K{e['i']}.prv {secret(64)}", F(lambda r: None if r.startswith("R ") else r[:100]))
                    terms[i] = dict(term, of=("changed", e["i"], e["j"], x, bit))
            else:
                v = {"zeros": "z32:0", "cut": f"${p}[0:31]", "one": "x01+z31:0"}[e["ch"]]
                sc.do(f"akey.make ch{len(sc.steps)} {v} 1 2 5 vec")
                sc.do(f"dh.agree o{e['obj']} ch{len(sc.steps) - 1} K{e['i']}.prv {secret(64)}", R("no " + "a5" * 64), "a public key that is no point of use: " + e["ch"])

    def final(s):
        """Equal terms, equal bytes; different terms (of one length), different bytes."""
        by, back = {}, {}
        for i, t in terms.items():
            w = s.results[i].split()
            if w[1] == "no":
                continue
            v = w[2]
            k = (t["of"], t["dom"], t["n"], t["by"])
            if by.setdefault(k, v) != v:
                return (i, f"the secrets of {k} differ: {by[k][:64]} and {v[:64]}")
            if back.setdefault(v, k) != k:
                return (i, f"the same secret for {k} and {back[v]}")
    sc.final = final
    return sc


# random sources with which McEliece finds a pair soon (found by trial)


def body(chk):
    chk.build(["asym"], without=("PrngFromName",))
    T = chk.thorough
    chk.model("Kem", cfg((5, 9), 6 if T else 5, "no", 2, 2, 2, "32"), "operations of an encapsulation and an exchange object", workers=2)
    g = [("sweep", chk.generate("Kem", cfg((5, 6, 9, 10, 11, 12, 13, 14, 15, 16), 36, "sweep", keys=3), workers=1)),
         ("walk", chk.generate("Kem", cfg((5, 6, 9, 10, 11, 12), 40, "walk", 4, 4, 8), num=3000 if T else 500, depth=43, workers=2))]
    if T:
        g.append(("mc", chk.generate("Kem", cfg((13, 14, 15, 16, 9), 24, "walk", 3, 1, 4), num=24, depth=27, seed=chk.seed + 5)))
    scs = []
    for kind, fut in g:
        for i, b in enumerate(fut.result()):
            ps = sorted({e["p"] for e in b["h"] if "p" in e})
            p = ps[-1] if ps else 0
            sd = (chk.seed * 100000 + len(scs)) * 1000
            name = NAMES[prim(p)]
            if name == "McEliece" and kind == "sweep":
                scs.append(build_scenario(b, f"{name}/duplicates/{p}", sd, 60 if T else 8, duplicates(p, 1 if not T else chk.seed * 7919)))
                if not T:
                    continue
            scs.append(build_scenario(b, f"{name}/{kind}/{p}/{i}", sd, 60 if T else 8))
    scs.sort(key=lambda s: -(50 if "McEliece" in s.label else 1))
    chk.log(len(scs), "scenarios")
    chk.replay(scs, timeout=800)
    chk.assumptions += ["the sign bit of an ECDH public key and the clamped bits of a private key are not part of the key",
                        "a change of a McEliece public key that does not touch the chosen columns is not a different key",
                        "the random source is replaced by one with known output"]
