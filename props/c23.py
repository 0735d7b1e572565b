"""C23: misuse is refused with the documented exception and changes nothing."""
import core
from core import R, X, F, OK, ANY, Scenario

MC = "CONSTANTS Cfgs <- ToyCfg\n Steps = {}\n Gen = \"toy\"\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n" \
     "INVARIANT Invisible\nINVARIANT Insertable\nINVARIANT NeedsInit\nINVARIANT WithinMax\n"
SWEEP = "CONSTANTS Cfgs <- SizeCfgs\n Steps = 1\n Gen = \"sweep\"\nINIT SweepInit\nNEXT SweepNext\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n"
WALK = "CONSTANTS Cfgs <- {}\n Steps = {}\n Gen = \"walk\"\nINIT Init\nNEXT Next\nINVARIANT Emit\nINVARIANT Invisible\nCHECK_DEADLOCK FALSE\n"
KIND = {"mac": ("Mac",), "kdf": ("Kdf",), "mode": ("CipherMode",), "strm": ("Symmetric",), "gcm": ("CipherMode",), "hba": ("CipherMode",),
        "drbg": ("Generator",), "blk": ("Symmetric",), "dg": ("Digest",)}
PRE = {"mac": "mac", "kdf": "kdf", "mode": "mode", "strm": "cr", "gcm": "cr", "hba": "cr", "drbg": "drbg", "blk": "blk", "dg": "dg"}


def kinds(c, e):
    k = KIND[c["fam"]]
    if e["op"] == "deg" and c["fam"] == "dg":
        k += ("CipherMode",)
    if e["op"] == "ad" and e["x"] in ("over", "past"):
        k += ("Mac",)
    return k


class Twin:
    """object a lives through the whole behaviour, object b only through its accepted calls"""

    def __init__(self, b, label, seed):
        self.c, self.seed = b["c"], seed
        self.sc = Scenario(None, label, b)
        self.pairs = []
        self.p = PRE[self.c["fam"]]
        self.tag = self.c["tag"]
        self.lastiv = None
        for o in "ab":
            self.sc.do(f"{self.p}.new {o} {self.c['name']}", ANY)

    def line(self, o, e):
        """the driver's command for one call"""
        p, c, op, x, n, s = self.p, self.c, e["op"], e["x"], e["n"], self.seed + e["s"] * 7
        data = lambda k: f"@{s}:0:{k}" if k else "-"
        fam = c["fam"]
        if op == "init":
            z = e["z"]
            key = " ".join(f"@{s}:{o_}:{v}" if v else "-" for o_, v in ((0, z["k"]), (1000, z["i"]), (2000, z["n"])))
            if fam == "blk":
                a = key.split()
                return f"blk.init {o} {'dec' if s % 3 == 0 else 'enc'} {a[0]} {a[2]}"
            if fam in ("mac", "kdf", "drbg"):
                return f"{p}.init {o} {key}"
            return f"{p}.init {o} {'dec' if fam == 'mode' and s % 3 == 0 else 'enc'} {key}"
        tag = self.tag
        if op == "renew":
            iv = {"fresh": f"@{s}:3000:{n}", "same": self.lastiv, "zero": f"z{n}:0"}[x]
            return f"cr.init {o} enc - {iv} -"
        if op == "upd":
            off, ln = {"good": (s % 3, n), "over": (3, n + 1), "past": (n + 4 + s % 2, n)}[x]
            return f"{p}.upd {o} {data(n + 3 if x != 'past' else n + 2)} {off} {ln}"
        if op == "fin":
            off = s % 4
            sz, off = {"good": (off + c["tag"] + s % 2, off), "short": (off + c["tag"] - 1 - n % 2 * (c["tag"] - 1), off), "past": (c["tag"] + 2, c["tag"] + 3 + n % 2)}[x]
            return f"{p}.fin {o} {sz} {off}" + (" sec" if p == "mac" and s % 2 else "")
        if op == "comp":
            return f"{p}.comp {o} {data(n)} {c['tag'] - (1 + n % 2 * (c['tag'] - 2) if x == 'short' else 0)}"
        if op == "gen":
            size, off = {"good": (n + 5 * (s % 2), 3 * (s % 2)), "over": (n + 2, 3), "past": (n, n + 1 + n % 3)}[x]
            return f"{p}.gen {o} {size} {off} {n} {'sec' if s % 3 == 0 else 'vec'}"
        if op == "seed":
            return f"drbg.upd {o} {data(n if x == 'good' else n % min(c['umin'] // 2, 16))} {'sec' if s % 3 == 0 else 'vec'} 1"
        if op == "tr":
            if fam == "blk":
                return f"blk.tr {o} one 1 {data(16)} {s % 2} {s % 3} t{o}"
            if fam == "mode":
                k = n if c["name"][:3] in ("CTR", "ICM") else (n + 15) // 16 * 16
                return f"mode.tr {o} tr {data(k)} {s % 2} {s % 3} {k}"
            room = n + tag - (1 + n % 3 if x == "short" else 0)
            return f"cr.tr {o} {data(n)} {s % 2} {s % 3} {n} {room}"
        if op == "ad":
            if x == "over":
                return f"cr.adraw {o} {data(n)} 1 {n} {'sec' if s % 2 else 'vec'}"
            if x == "past":
                return f"cr.adraw {o} {data(n)} {n + 1} {n} {'sec' if s % 2 else 'vec'}"
            return f"cr.ad {o} {data(n)} {s % 2} {'sec' if s % 2 else 'vec'}"
        if op == "deg":
            return f"{p}.{'degree' if p == 'dg' else 'deg'} {o} {n}"
        if op == "tag":
            return f"cr.tag {o}"
        raise RuntimeError(op)

    def call(self, e, note=""):
        sc = self.sc
        if e["ok"]:
            if e["op"] == "init":
                self.tag = {z["k"]: z["i"] for z in self.c["tags"]}.get(e["z"]["k"], self.c["tag"])
            i = sc.do(self.line("a", e), F(accepted), "accepted: " + describe(e) + note)
            j = sc.do(self.line("b", e), F(accepted), "accepted by the twin: " + describe(e) + note)
            self.pairs.append((i, j))
            if e["op"] == "init":
                self.lastiv = f"@{self.seed + e['s'] * 7}:1000:{e['z']['i']}"
            elif e["op"] == "renew":
                self.lastiv = f"@{self.seed + e['s'] * 7}:3000:{e['n']}"
        else:
            sc.do(self.line("a", e), X(*kinds(self.c, e)), "must be refused: " + describe(e) + note)

    def end(self):
        pairs = self.pairs

        def final(s):
            for i, j in pairs:
                if s.results[i] != s.results[j]:
                    return i, f"after a refused call the object differs from one that never saw it: {s.results[i][:160]} against {s.results[j][:160]}"
        self.sc.final = final
        return self.sc


def describe(e):
    z = e["z"]
    return f"{e['op']} {e['x']} " + (f"key {z['k']} nonce {z['i']} info {z['n']}" if e["op"] == "init" else str(e["n"])) + f" when {e['was']}"


def accepted(line):
    return None if line.startswith("R ") else "a call in order was refused: " + line[2:]


def use(c, t, s, n):
    """the calls behind each size of a sweep: enough of them to see the key, the nonce and what was buffered"""
    e = dict(op="", x="good", n=n, z=c["good"], s=s, ok=True, was="ready")
    fam = c["fam"]
    for op in {"mac": ["upd"], "kdf": ["gen"], "drbg": ["gen"], "mode": ["tr"], "blk": ["tr"]}.get(fam, ["tr"]):
        t.call(dict(e, op=op))


def sweep(beh, seed):
    """chains of sizes: initialized well and used, then a size and a use, again and again"""
    by = {}
    for b in beh:
        e = b["h"][0]
        by.setdefault((b["c"]["name"], e["x"]), (b["c"], []))[1].append(e)
    out = []
    for (name, ax), (c, es) in sorted(by.items()):
        es.sort(key=lambda e: (e["z"]["k"], e["z"]["i"], e["z"]["n"]))
        # refused sizes keep a session alive; each accepted one starts another
        bad = [e for e in es if not e["ok"]]
        for part in range(0, len(bad), 12):
            b = {"c": c, "h": bad[part:part + 12]}
            t = Twin(b, f"misuse/size/{name.replace(' ', '-')}/{ax}/{part}", seed + part)
            good = dict(bad[0], z=c["good"], s=50, ok=True, was="new", x="good")
            for k, e in enumerate(bad[part:part + 12]):
                if k % 6 == 0:
                    if part == 0 and k == 0:
                        t.call(dict(e, s=3, was="new"))
                    t.call(dict(good, s=50 + k))
                    if c["auth"]:
                        t.call(dict(good, op="ad", n=7, s=51 + k))
                    if c["fam"] != "gcm":
                        use(c, t, 60 + k, 21)
                t.call(dict(e, s=80 + k))
                if c["fam"] == "gcm":
                    if k % 6 == 5 or k == len(bad[part:part + 12]) - 1:
                        use(c, t, 100 + k, 33)
                else:
                    use(c, t, 100 + k, 33)
            if c["fam"] == "mac":
                t.call(dict(good, op="fin", n=0, s=120))
            out.append(t.end())
        ok = [e for e in es if e["ok"]]
        for part in range(0, len(ok), 12):
            t = Twin({"c": c, "h": ok[part:part + 12]}, f"misuse/legal/{name.replace(' ', '-')}/{ax}/{part}", seed + part)
            for k, e in enumerate(ok[part:part + 12]):
                t.call(dict(e, s=200 + k))
                use(c, t, 220 + k, 19)
                if c["fam"] == "mac":
                    t.call(dict(e, op="fin", n=0, x="good", s=240 + k))
            out.append(t.end())
    return out


def listing(cfgs):
    """what the primitive lists as its sizes is what the specification lists"""
    out = []
    for c in cfgs:
        if c["fam"] in ("dg", "blk"):
            continue
        p = PRE[c["fam"]]
        sc = Scenario(None, f"misuse/listed/{c['name'].replace(' ', '-')}", {"c": c})
        sc.do(f"{p}.new a {c['name']}", ANY)
        want = {(z["k"], z["i"]) for z in c["listed"]}

        def look(line, want=want, c=c):
            if not line.startswith("R "):
                return "sizes not listed: " + line
            a = line[2:].split()
            got = {tuple(map(int, x.split(":")[:2])) for x in a[2:]}
            if not got <= want | {w for w in got if w[0] in {x[0] for x in want}}:
                return f"lists sizes {sorted(got)} of which some are refused"
            if c["fam"] in ("mac", "kdf") and int(a[0]) != c["kmin"] and int(a[0]) not in {w[0] for w in want}:
                return f"minimum key size {a[0]}, accepts from {c['kmin']}"
        sc.do(f"{p}.legal a", F(look), "listed sizes")
        out.append(sc)
    return out


def body(chk):
    chk.build(["mac", "kdf", "mode", "drbg", "stream", "block", "digest"])
    chk.model("Misuse", MC.format(4 if chk.thorough else 3), "refused calls can be dropped from, and inserted into, every history of accepted calls", workers=4)
    sw = chk.generate("Misuse", SWEEP)
    wk = chk.generate("Misuse", WALK.format("AllCfgs", 12), 40000 if chk.thorough else 4000, 16, workers=2)
    sb, wb = sw.result(), wk.result()
    seen, cfgs = set(), []
    for b in sb:
        if b["c"]["name"] not in seen:
            seen.add(b["c"]["name"])
            cfgs.append(b["c"])
    scs = listing(cfgs) + sweep(sb, 100 + chk.seed * 1000)
    for i, b in enumerate(wb):
        t = Twin(b, f"misuse/walk/{b['c']['name'].replace(' ', '-')}", 5000 + chk.seed * 100000 + i * 300)
        for e in b["h"]:
            t.call(e)
        scs.append(t.end())
    chk.cov["configurations"] = len(cfgs)
    chk.replay(scs, timeout=300)
    chk.assumptions += ["which sizes a primitive accepts is written in spec/Misuse.tla from its LegalKeySizes, minimum sizes and documentation",
                        "a refused call is judged by the outputs of the object and of a twin that never saw it"]
