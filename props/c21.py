"""C21: the stream helpers give the result of the primitive they wrap."""
import core, ref, reftree
from core import R, X, F, OK, ANY, Scenario
import c03, c05, c06

MC = "CONSTANTS Cfgs <- ToyCfg\n Steps = 0\n Gen = \"toy\"\nSPECIFICATION ToySpec\nCHECK_DEADLOCK FALSE\n" \
     "INVARIANT LoopComputes\nINVARIANT ComesBack\nINVARIANT NothingLeft\nINVARIANT WholeBlocks\nINVARIANT NeverPast\n"
MACS = {"CMAC": 1, "CMACRHXS512": 5, "HMACSHA2256": 11, "HMACSHA2512": 12, "KPA256": 14, "KMAC128": 16, "KMAC256": 17, "KMAC512": 18, "Poly1305": 19}
ENDS = [b"", b"\1", b"\2\2", b"\x80", b"\x80\0\0", b"\0\0\3", b"\1\2\3"]


def gen(cfgs, steps, kind):
    return f"CONSTANTS Cfgs <- {cfgs}\n Steps = {steps}\n Gen = \"{kind}\"\nINIT Init\nNEXT {dict(sweep='SweepNext', hsweep='HashSweepNext').get(kind, 'Next')}\nINVARIANT Emit\n{'INVARIANT InOrder' if kind == 'walk' else ''}\nCHECK_DEADLOCK FALSE\n"


def addpad(s, block, n):
    p = len(block) - n
    if s == "ESP":
        t = bytes(i + 1 for i in range(p))
    elif s == "PKCS7":
        t = bytes([p]) * p
    elif s in ("X923", "None"):
        t = bytes(p - 1) + bytes([p])
    else:
        t = b"\x80" + bytes(p - 1)
    return block[:n] + t


def unpad(s, x):
    for n in range(len(x)):
        if addpad(s, x, n) == x:
            return x[:n]
    return x


class Scn:
    def __init__(self, b, label, seed, n):
        self.b, self.c, self.seed, self.n = b, b["c"], seed, n
        self.sc = Scenario(None, label, b)
        self.files = []
        self.streams = 0

    def fill(self, m):
        t = ENDS[m["t"]] if m["t"] < len(ENDS) else bytes(range(1, 17))
        t = t[-m["n"]:] if m["n"] < len(t) else t
        if m["t"] == 2 and m["n"] % 16 == 0:
            t = b"\x10" * 16
        return ref.prg(self.seed + m["s"], 0, m["n"] - len(t)) + t

    def stream(self, kind, before, data, name):
        """a stream holding what lies before the message and the message, positioned at the message"""
        sc, self.streams = self.sc, self.streams + 1
        expr = f"z{before}:17+x{data.hex()}" if data else f"z{before}:17" if before else "-"
        total = before + len(data)
        if kind == "file":
            f = f"ps{self.n}-{self.streams}.bin"
            self.files.append(f)
            sc.do(f"bs.disk.put {f} {expr}")
            sc.do(f"bs.open {name} {f} {'r' if name == 'in' else 'rw'} binary", R(f"{'r-s' if name == 'in' else 'rws'} 0/{total}"))
        else:
            sc.do(f"bs.new {name} {kind} {'array ' + expr if total else 'none'}{' 5' if kind == 'sec' and total else ''}", R(f"rws 0/{total}"))
        if before:
            sc.do(f"bs.seek {name} begin {before}", R(f"ok {before}/{total}"))

    def result(self, v, src, dst, padded, note):
        """the message's way through: v is the expected output for data"""
        sc = self.sc
        data, n = self.data, len(self.data)
        if src["k"] == "arr":
            if padded == "ctr":
                room = len(v) + dst["x"]
            elif padded == "enc":
                room = n - n % self.c["b"] + dst["x"]
            else:
                room = n - self.c["b"] + dst["x"]
            line = f"ps.arr s {'x' + data.hex()} {src['o']} {dst['o'] + room} {dst['o']}"
            exp = b"\xa5" * dst["o"] + v + (b"\xa5" * dst["x"] if padded == "ctr" else b"")
            sc.do(line, R(exp), note)
        else:
            self.stream(src["k"], src["o"], data, "in")
            self.stream(dst["k"], dst["o"], b"", "out")
            sc.do("ps.str s in out", R(f"{src['o'] + n} {dst['o'] + len(v)} {dst['o'] + len(v)}"), note + ": positions and length")
            sc.do("bs.seek out begin 0", R(f"ok 0/{dst['o'] + len(v)}"))
            t = dst["o"] + len(v)
            sc.do(f"bs.read out {t + 1} 0 {t + 1}", R(f"{t} {(b'\x11' * dst['o'] + v + b'\xa5').hex()} {t}/{t}"), note)
            sc.do("del in")
            sc.do("del out")

    def cipher(self):
        c, sc, seed = self.c, self.sc, self.seed
        m, blk = c["m"], c["b"]
        sc.do(f"ps.cipher s {m} {c['n']} {c['how']} {c['pad']} {blk}")
        made, plain, inp = {}, {}, b""
        for e in self.b["h"]:
            op = e["op"]
            if op in ("init", "badinit"):
                k = e["key"]
                sd = seed + k["s"] + 20
                kx = f"@{sd}:0:{k['k']} {f'@{sd}:1000:' + str(k['iv']) if k['iv'] else '-'} @{sd}:2000:{k['info']}"
                if op == "init":
                    inp = b""
                    sc.do(f"ps.init s {e['d']} {kx} {'sec' if e['id'] % 3 == 0 else 'plain'}")
                else:
                    sc.do(f"ps.init s {e['d']} {kx}", X("Processing"), f"key of {k['k']} bytes, vector of {k['iv']}")
            elif op == "par":
                p = e["par"]
                sc.do(f"ps.par s {int(p['on'])} {p['size']} {p['degree']}")
            elif op == "refuse":
                why = e["why"]
                exp = X("Processing")
                n = {"raw": 33, "empty": 0, "ragged": 2 * blk + 1 + blk // 2, "room": 3 * blk}[why]
                if why == "ragged" and n % blk == 0:
                    n += 1
                if e["src"]["k"] == "arr" or why == "room":
                    sc.do(f"ps.arr s @{seed + 900}:0:{n} {e['src']['o']} {100 + n if why != 'room' else 4 + (n if c['ctr'] or e['d'] == 'enc' else n - blk) - 1} 4", exp, f"refusal: {why}")
                else:
                    self.stream(e["src"]["k"], e["src"]["o"], ref.prg(seed + 900, 0, n), "in")
                    self.stream("mem", 3, b"", "out")
                    sc.do("ps.str s in out", exp, f"refusal: {why}")
                    sc.do("bs.seek out current 0", R("ok 3/3"))
                    sc.do("bs.seek in current 0", R(f"ok {e['src']['o']}/{e['src']['o'] + n}"))
                    sc.do("del in")
                    sc.do("del out")
            elif op == "write":
                k = e["key"]
                sd = seed + k["s"] + 20
                bc = c03.cipher(c["n"], ref.prg(sd, 0, k["k"]), ref.prg(sd, 2000, k["info"]))
                iv = ref.prg(sd, 1000, k["iv"])
                enc = e["d"] == "enc"
                data = self.data = self.fill(e["m"]) if e["d"] in ("enc", "junk") else made[e["m"]["s"]]
                given = data
                if c["ctr"]:
                    given = data + bytes(-len(data) % 16)
                elif enc:
                    given = addpad(c["pad"], data + bytes(blk - len(data) % blk), len(data))
                v = c03.mode(m, enc, bc, iv, blk, inp + given)[len(inp):]
                inp += given
                if c["ctr"]:
                    v = v[:len(data)]
                elif not enc:
                    v = v[:-blk] + unpad(c["pad"], v[-blk:])
                if enc:
                    made[e["id"]], plain[e["id"]] = v, data
                elif e["back"] and v != plain[e["back"]]:
                    raise AssertionError("the oracle does not return the message")
                self.result(v, e["src"], e["dst"], "ctr" if c["ctr"] else "enc" if enc else "dec",
                            f"{m}-{c['n']}/{c['pad']} {e['d']} of {len(data)} bytes from {e['src']['k']}+{e['src']['o']} to {e['dst']['k']}+{e['dst']['o']}")
        sc.do("del s")
        if c["how"] == "ptr":
            sc.do("ps.kept s", core.F(lambda r: r in ("0", "1")), "the caller's cipher is destroyed")

    def hashes(self):
        c, sc, seed = self.c, self.sc, self.seed
        mac = c["k"] == "mac"
        if mac:
            sc.do(f"ps.mac s {MACS[c['n']]} {c['how']}")
        else:
            sc.do(f"ps.digest s {c['n']} {c['m']} {c['how']}", ANY)
        for e in self.b["h"]:
            op = e["op"]
            if op in ("init", "badinit"):
                k = e["key"]
                sd = seed + k["s"] + 20
                sc.do(f"ps.minit s @{sd}:0:{k['k']} @{sd}:1000:{k['iv']} @{sd}:2000:{k['info']}" + (" sec" if op == "init" and e["id"] % 3 == 0 else ""), OK if op == "init" else X("Processing"))
            elif op == "refuse":
                sc.do(f"ps.mcomp s @{seed}:0:40 0 40", X("Mac", "Processing"), "a tag without a key")
            else:
                n = e["m"]["n"]
                data = ref.prg(seed + e["m"]["s"], 0, n)
                if mac:
                    size = {"HMACSHA2256": 32, "HMACSHA2512": 64, "KMAC128": 16, "KMAC256": 32, "KMAC512": 64, "KPA256": 32}.get(c["n"], 16)
                    v = c06.tag(c["n"], e["key"], seed, data, size)
                else:
                    f = c05.fan(c["n"], c["m"])
                    v = ref.digest(c["n"], data) if f == 1 else reftree.tree(c["n"], f, data)
                s = e["src"]
                note = f"{c['n']} of {n} bytes from {s['k']}+{s['o']}"
                w = "m" if mac else "d"
                if s["k"] == "arr":
                    sc.do(f"ps.{w}comp s z{s['o']}:9+x{data.hex()}+z{e['x']}:8 {s['o']} {n}", R(v), note)
                else:
                    self.stream(s["k"], s["o"], data, "in")
                    sc.do(f"ps.{w}str s in", R(f"{v.hex()} {s['o'] + n}"), note)
                    sc.do("del in")
        sc.do("del s")
        if mac and c["how"] == "ptr":
            sc.do("ps.mkept s", R("1"), "the caller's mac is destroyed")

    def make(self):
        (self.cipher if self.c["k"] == "cipher" else self.hashes)()
        for f in self.files:
            self.sc.do(f"bs.disk.del {f}", ANY)
        return self.sc


def in_place(label, seed, m, n):
    """a file encrypted and decrypted in its own place: the documented use of two streams on one file"""
    sc = Scenario(None, label)
    data, key, iv, f = ref.prg(seed, 0, n), ref.prg(seed, 9000, 32), ref.prg(seed, 9100, 16), f"place{seed}.bin"
    bc = ref.BlockCipher("AES", key, b"")
    given = data + bytes(-n % 16) if m == "CTR" else addpad("ESP", data + bytes(16 - n % 16), n)
    v = c03.mode(m, True, bc, iv, 16, given)[:n if m == "CTR" else len(given)]
    sc.do(f"bs.disk.put {f} @{seed}:0:{n}")
    sc.do(f"ps.cipher s {m} AES enum {'None' if m == 'CTR' else 'ESP'} 16")
    for d, a, b in (("enc", data, v), ("dec", v, data)):
        sc.do(f"ps.init s {d} x{key.hex()} x{iv.hex()} -")
        sc.do(f"bs.open in {f} r binary", R(f"r-s 0/{len(a)}"))
        sc.do(f"bs.open out {f} rw binary", R(f"rws 0/{len(a)}"))
        sc.do("ps.str s in out", R(f"{len(a)} {len(b)} {len(b)}"), f"{m} {d} in place: positions and length")
        sc.do("del in")
        sc.do("del out")
        sc.do(f"bs.disk.get {f}", R(f"{b.hex()} {len(b)}"), f"{m} {d} of {n} bytes in place")
    sc.do(f"bs.disk.del {f}", ANY)
    return sc


def body(chk):
    chk.build(["proc", "bstream"])
    T = chk.thorough
    chk.model("Processing", MC, "toy ciphers on blocks of two bytes: every message of up to four bytes and a second one, four paddings, with and without parallel portions")
    g = [("sweep", chk.generate("Processing", gen("SweepCiphers", 5, "sweep"), workers=2)),
         ("hsweep", chk.generate("Processing", gen("Hashes", 2, "hsweep"), workers=1)),
         ("walk", chk.generate("Processing", gen("Ciphers", 12, "walk"), num=8000 if T else 900, depth=15, workers=2)),
         ("hwalk", chk.generate("Processing", gen("Hashes", 6, "walk"), num=3000 if T else 300, depth=9, workers=2))]
    scs = []
    for kind, f in g:
        bs = f.result()
        if kind == "sweep" and not T:
            bs = [x for i, x in enumerate(bs) if i % 4 == chk.seed % 4]
        for i, b in enumerate(bs):
            c = b["c"]
            scs.append(Scn(b, f"stream/{c['k']}/{c['m'] or 'mac'}/{c['n']}/{c.get('pad', c['how'])}/{kind}/{i}", chk.seed * 100000 + i * 2000, len(scs)).make())
    for j, (m, n) in enumerate((m, n) for m in ("CBC", "CTR", "CFB") for n in (15, 16, 4096, 5000, 20000)):
        scs.append(in_place(f"stream/place/{m}/{n}", chk.seed * 100 + j, m, n))
    chk.log(len(scs), "scenarios")
    chk.replay(scs)
    chk.assumptions += ["modes, digests and macs are evaluated in Python over ref.c; AEAD modes are not run through CipherStream",
                        "an output stream is empty from its position on; empty messages of digests and macs are not judged",
                        "a second tag without a new initialization is judged for HMAC alone"]
