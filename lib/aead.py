"""Binding of spec/Aead.tla to the library: scenarios for C01 (accept or refuse) and C02 (exact values)."""
import struct
import core, ref
from core import R, X, Scenario


def mc(steps):
    return f"CONSTANTS Profiles <- MCProfiles\n Lens = {{0, 1, 2}}\n AdLens = {{2}}\n Steps = {steps}\n Gen = \"no\"\nINIT Init\nNEXT Next\nVIEW View\nCHECK_DEADLOCK FALSE\n" \
           "INVARIANT TypeOK\nINVARIANT Authentic\nINVARIANT Order\nINVARIANT Complete\n"


def gen(kind, steps, profiles="All", lens="{33}", ads="{13}"):
    nx = {"sweep": "SweepNext", "walk": "Next", "talk": "TalkNext", "chat": "ChatNext"}[kind]
    return f"CONSTANTS Profiles <- {profiles}\n Lens = {lens}\n AdLens = {ads}\n Steps = {steps}\n Gen = \"{kind}\"\nINIT Init\nNEXT {nx}\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n"


def ivbytes(kind, n, seed):
    r = ref.prg(seed, 1000, n)
    return {0: r, 1: b"\xff" * n, 2: b"\xfe" + b"\xff" * min(7, n - 1) + r[8:]}[kind]


def modename(cipher, auth):
    return "HBA-%s-%s" % (cipher, auth)


class Session:
    """The reference for one session's key."""

    def __init__(self, pf, s, seed):
        self.pf, self.kind = pf, pf["kind"]
        sd = seed + s["s"] * 3 + 20
        nd = seed + s["ns"] * 3 + 20
        self.key, self.iv, self.info = ref.prg(sd, 0, s["k"]), ivbytes(s["iv"], s["ivl"], nd), ref.prg(sd, 2000, s["info"])
        if self.kind == "strm":
            self.x = ref.Stream(pf["n"], True, self.key, self.iv, self.info)
            bits = {16: "128", 32: "256"}.get(pf["tag"], "512")
            self.chain = ref.KmacChain(bits, self.x.mackey)
            self.states = {}
        elif self.kind == "hba":
            self.x = ref.Hba(pf["cipher"], pf["n"], self.key, self.iv, self.info, modename(pf["cipher"], pf["n"]))
        else:
            self.bc = ref.BlockCipher(pf["cipher"], self.key, b"")

    def message(self, e, data, lookup):
        """-> ciphertext and tag of an enc event; lookup(w) gives the ciphertext of message w."""
        pf, n = self.pf, e["n"]
        if self.kind == "gcm":
            ads = [t for t in e["chain"] if t[0] == "ad"]
            return ref.gcm(self.bc, self.iv, lookup(ads[0]) if ads else b"", data)
        ks = self.x.keystream(e["ctr"], n)
        ct = (int.from_bytes(data, "big") ^ int.from_bytes(ks, "big")).to_bytes(n, "big")
        # what the MAC absorbs, cut where it gives a tag
        cuts, cur = [], b""
        for t in e["chain"]:
            k, v, what, at = t
            if k == "ad":
                cur += lookup(t) + (struct.pack("<I", v) if pf["framed"] else b"")
            elif k == "nonce":
                cur += self.x.counter(at)
            elif k == "ct":
                cur += ct if what == e["w"] else lookup(t)
            elif k == "cnt":
                cur += self.length(v)
            else:
                cuts.append(cur)
                cur = b""
        cuts.append(cur)
        if self.kind == "hba":
            return ct, self.x.mac(e["mk"], cuts[-1])
        st = self.chain.st0
        for i, c in enumerate(cuts):
            if (i, c) in self.states:
                tag, st = self.states[(i, c)]
            else:
                tag, st2 = self.chain.after(st, c, pf["tag"])
                self.states[(i, c)] = tag, st2
                st = st2
        return ct, tag

    def length(self, cnt):
        if self.kind == "hba":
            return struct.pack("<Q", 1 + cnt + 16 + 8)
        n = self.pf["n"]
        if n in ("RCS", "RWS"):
            return struct.pack("<Q", self.x.ctr0 + cnt + len(self.iv) + 8)
        if n.startswith("TSX"):
            return struct.pack("<Q", 1 + cnt) + self.x.custom[8:]
        return struct.pack("<Q", cnt)


def build_scenario(b, label, seed, exact):
    pf = b["pf"]
    kind, tagn = pf["kind"], pf["tag"]
    sc = Scenario(None, label, b)
    for o in "pq":
        sc.do("cr.new %s %s" % (o, f"{pf['n']} auth" if kind == "strm" else f"GCM {pf['cipher']} {pf['eng']}" if kind == "gcm" else f"HBA {pf['cipher']} {pf['eng']} {pf['n']}"), R("00"))
    sessions, msgs, room = {}, {}, {}
    adv = {}

    def adexpr(a):
        n = a["n"]
        base = f"@{seed + a['s'] * 3}:0:{n}"
        if a["at"] == -2:            # the last byte, split off
            return f"@{seed + a['s'] * 3}:{adv[a['s']] - 1}:1"
        return base + (f"^{a['at']}.{1 << (a['at'] * 5 % 8):02x}" if a["at"] >= 0 else "")

    def init(o, enc, s, df, at, bare=False, exp=None):
        sd, nd = seed + s["s"] * 3 + 20, seed + s["ns"] * 3 + 20
        iv = ivbytes(s["iv"], s["ivl"], nd)
        key = "-" if bare else f"@{sd}:0:{s['k']}"
        if df == "key":
            key += f"^{at}.{1 << (at * 3 % 8):02x}"
        if df == "nonce":
            i = at % len(iv)
            iv = iv[:i] + bytes([iv[i] ^ (1 << (at * 3 % 8))]) + iv[i + 1:]
        sc.do(f"cr.init {o} {'enc' if enc else 'dec'} {key} x{iv.hex()} @{sd}:2000:{s['info']}", exp or R(f"1{int(enc)}"))
    for e in b["h"]:
        S, D = ("q", "p") if e.get("swap") else ("p", "q")
        if e["op"] == "ses":
            init(S, True, e["ses"], "none", 0)
            init(D, False, e["ses"], e["df"], e["at"])
        elif e["op"] == "renonce":
            for o in (S, D):
                init(o, o == S, e["ses"], "none", 0, True, X("CipherMode") if e["exp"] == "throw" else None)
        elif e["op"] == "rejoin":
            init(D, False, e["ses"], e["df"], e["at"])
        elif e["op"] == "par":
            for o in "pq":
                p = e["par"]
                sc.do(f"cr.par {o} {int(p['on'])} {p['size']} {p['degree']}")
        elif e["op"] == "q":
            sc.do(f"cr.q {S}", R("11"))
            sc.do(f"cr.q {D}", core.ANY)
        elif e["op"] == "ad":
            adv[e["s"]] = e["n"]
            sc.do(f"cr.ad {S} {adexpr(dict(n=e['n'], s=e['s'], at=-1))} {e['s'] % 3} {'sec' if e['sec'] else 'vec'}")
        elif e["op"] == "enc":
            n, w = e["n"], e["w"]
            data = ref.prg(seed + e["s"] * 3, 0, n)
            nm = f"m{w}"
            if exact:
                s = e["ses"]
                if (s["s"], s["ns"]) not in sessions:
                    sessions[s["s"], s["ns"]] = Session(pf, s, seed)
                ct, tag = sessions[s["s"], s["ns"]].message(e, data, lambda t: msgs[t[2]] if t[0] == "ct" else ref.prg(seed + t[2] * 3, 0, t[1]))
                msgs[w] = ct
                sc.do(f"cr.tr {S} @{seed + e['s'] * 3}:0:{n} {e['io']} {e['oo']} {n} {n + tagn + 5} {nm}", R(b"\xa5" * e["oo"] + ct + tag + b"\xa5" * 5),
                      f"{pf['cipher']} {pf['n']} message {w}: {n} bytes at block {e['ctr']}")
                sc.do(f"cr.tag {S}", R(tag), "tag of the last message")
            else:
                sc.do(f"cr.tr {S} @{seed + e['s'] * 3}:0:{n} {e['io']} {e['oo']} {n} {n + tagn} {nm}",
                      core.F(lambda r: None if r.startswith("R ") and "DIRTY" not in r and "CHANGED" not in r else "encryption failed: " + r[:200]))
            room[w] = (n, data)
        elif e["op"] == "dlv":
            w = e["w"]
            n, data = room[w]
            for i, a in enumerate(e["ads"]):
                sc.do(f"cr.ad {D} {adexpr(a)} {i} {('vec', 'sec')[w % 2]}")
            ln = e["n"]
            x = f"$m{w}[0:{n + tagn}]"
            if e["tam"] == "ct":
                x += f"^{e['pos']}.{1 << (e['pos'] * 5 % 8):02x}"
            elif e["tam"] == "tag":
                x += f"^{n + e['pos']}.{1 << (e['pos'] * 5 % 8):02x}"
            elif e["tam"] == "tag2":      # two bytes altered alike
                d = (1, 4, 8, tagn // 2, tagn - 1)[e["pos"] % 5]
                for i in (e["pos"], (e["pos"] + d) % tagn):
                    x += f"^{n + i}.{1 << (e['pos'] * 3 % 8):02x}"
            elif e["tam"] == "cut":
                x = f"$m{w}[0:{n - 1}]+$m{w}[{n}:{tagn}]"
            elif e["tam"] == "ext":
                x = f"$m{w}[0:{n}]+x5c+$m{w}[{n}:{tagn}]"
            good = (b"\xa5" * e["oo"] + data + b"\xa5" * 3).hex()
            what = f"message {w} ({n} bytes), associated data {e['adv']}, {e['tam']} altered at {e['pos']}"
            if e["exp"] == "yes":
                ex = R(good or "-")
            elif e["exp"] == "no":
                ex = X("Auth")
            else:
                ex = core.F(lambda r, good=good: None if r == "R " + good or r.startswith("X Auth") else "neither refused nor the plaintext: " + r[:160])
            sc.do(f"cr.tr {D} {x} {e['io']} {e['oo']} {ln} {ln + 3}", ex, what)
    return sc
