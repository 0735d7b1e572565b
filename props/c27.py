"""C27: the asymmetric primitives are the published ones: whatever either party makes the other reads, and nothing made otherwise."""
import hashlib, random
import pq, ref
from core import R, F, OK, Scenario

NAMES = {1: "Dilithium", 5: "ECDH", 7: "EdDSA", 9: "Kyber"}
CIPHER = {5: "ECDH-ECDHS1P25519K", 6: "ECDH-ECDHS2P25519S", 9: "Kyber-KYBERS1P1632", 10: "Kyber-KYBERS3P2400", 11: "Kyber-KYBERS5P3168", 12: "Kyber-KYBERS6P3936"}


def group(p):
    return 1 if p <= 3 else 5 if p <= 6 else 7 if p <= 8 else 9


def prim(p):
    return 5 if p <= 3 else 1 if p <= 6 else 6 if p <= 8 else 2


def cfg(params, steps, gen, objs=3, keys=3, made=99, msgs="1, 33"):
    s = (f"CONSTANTS Params = {{{', '.join(map(str, params))}}}\n Msgs = {{{msgs}}}\n Steps = {steps}\n Gen = \"{gen}\"\n MaxObjs = {objs}\n MaxKeys = {keys}\n MaxMade = {made}\n"
         "CHECK_DEADLOCK FALSE\n")
    if gen == "no":
        return s + "SPECIFICATION MCSpec\nCONSTRAINT MCBound\nINVARIANT Disjoint\nINVARIANT Sound\nINVARIANT Interoperable\n"
    return s + f"INIT Init\nNEXT {'SweepNext' if gen == 'sweep' else 'Next'}\nINVARIANT Emit\nINVARIANT Disjoint\nINVARIANT Sound\n"


def H(p):
    f = hashlib.sha3_512 if p in (5, 7) else hashlib.sha512
    return lambda b: f(b).digest()


def domain_secret(p, secret, dom, want, seed):
    """with a domain key: the customized function of the secret, as long as the caller's array"""
    if dom == 0:
        return secret
    return ref.cshake(secret, CIPHER[p].encode(), ref.prg(seed + 1, 0, dom), 72, want)


def dh_pair(p, seed):
    pk, sk = pq.dh_keys(H(p), seed)
    return pk, sk + bytes(32)            # the array of a private key is twice as long


def forge_dil(p, sk, msg, flaw, rnd):
    size, K, L, om, zb = pq.DIL[p][2], *pq.DIL[p][3:]
    g1, beta = (1 << 17, 78) if p == 1 else (1 << 19, 196 if p == 2 else 120)
    if flaw in ("long z", "edge z"):
        while True:
            s, n = pq.dil_sign(p, sk, msg, 1, 400)
            if s:
                return s
            raise RuntimeError("no such signature")
    for _ in range(40):
        s, n = pq.dil_sign(p, sk, msg)
        h = size - om - K
        s = bytearray(s)
        ends = list(s[h + om:])
        starts = [0] + ends[:-1]
        big = [i for i in range(K) if ends[i] - starts[i] >= 2]
        if flaw == "challenge":
            s[rnd.randrange(32)] ^= 1 << rnd.randrange(8)
            return bytes(s)
        if flaw == "hint order" and big:
            i = rnd.choice(big)
            j = rnd.randrange(starts[i], ends[i] - 1)
            s[h + j], s[h + j + 1] = s[h + j + 1], s[h + j]
            return bytes(s)
        if flaw == "hint twice" and ends[-1] < om and [i for i in range(K) if ends[i] > starts[i]]:
            i = rnd.choice([i for i in range(K) if ends[i] > starts[i]])
            pos = list(s[h:h + ends[-1]])
            j = rnd.randrange(starts[i], ends[i])
            pos.insert(j, pos[j])
            s[h:h + len(pos)] = bytes(pos)
            for k in range(i, K):
                s[h + om + k] += 1
            return bytes(s)
        if flaw == "hint padding" and ends[-1] < om:
            s[h + rnd.choice((ends[-1], om - 1, rnd.randrange(ends[-1], om)))] = rnd.randrange(1, 256)
            return bytes(s)
        if flaw == "hint counts":
            i = rnd.randrange(K)
            if rnd.random() < 0.5:
                s[h + om + i] = om + 1 + rnd.randrange(255 - om)
            elif i and starts[i]:
                s[h + om + i] = starts[i] - 1
            else:
                continue
            return bytes(s)
        if flaw == "hint many":
            s[h + om + K - 1] = 255
            return bytes(s)
        msg = msg[:-1] + bytes([msg[-1] ^ rnd.randrange(1, 256)])
    raise RuntimeError("no such signature: " + flaw)


def forge_ed(p, sk, msg, flaw, rnd):
    h = H(p)
    s = pq.ed_sign(h, sk, msg)
    S = int.from_bytes(s[32:], "little")
    if flaw in ("S plus L", "S plus 2L"):
        return s[:32] + (S + pq.L25 * (1 if flaw == "S plus L" else rnd.choice((2, 7, 14)))).to_bytes(32, "little")
    if flaw == "S high":
        return s[:63] + bytes([s[63] | rnd.choice((0x20, 0x40, 0x80, 0xe0))])
    if flaw == "R shifted":
        return pq.ed_sign(h, sk, msg, rnd.choice([x for x in pq.SMALL if x[0] != 1]))
    if flaw in ("R small", "R not canonical"):
        R_ = rnd.choice(pq.SMALL if flaw == "R small" else pq.ODD)
        k = int.from_bytes(h(R_ + sk[32:] + msg), "little")
        return R_ + (k * pq.clamp(h(sk[:32])) % pq.L25).to_bytes(32, "little")
    # the key is left out of the hash
    hh = h(sk[:32])
    r = int.from_bytes(h(hh[32:] + msg), "little") % pq.L25
    R_ = pq.ed_enc(pq.ed_mul(r, pq.ED_B))
    k = int.from_bytes(h(R_ + msg), "little") % pq.L25
    return R_ + ((r + k * pq.clamp(hh)) % pq.L25).to_bytes(32, "little")


def build_scenario(b, label, seed):
    sc = Scenario(None, label, b)
    rnd = random.Random(seed)
    osd, keys, made, doms = {}, {}, {}, {}
    n = [0]

    def uniq():
        n[0] += 1
        return seed + 500 + n[0]

    def put(k, p, pk, sk):
        keys[k] = (p, pk, sk)
        for t, v, c in (("pub", pk, 2 if group(p) in (5, 9) else 4), ("prv", sk, 1 if group(p) in (5, 9) else 3)):
            if v:
                sc.do(f"akey.make K{k}.{t} x{v.hex()} {prim(p)} {c} {p} vec")
    pair = lambda p, src: (pq.dil_keys(p, src[:32]) if p <= 3 else dh_pair(p, src[:32]) if p <= 6 else pq.ed_keys(H(p), src[:32]) if p <= 8 else pq.kyb_keys(p, src[:32], src[32:64]))
    for e in b["h"]:
        op = e["op"]
        p = e.get("p")
        if op == "make":
            osd[e["obj"]] = s = uniq()
            sc.do(f"{ {5: 'dh', 9: 'kem'}.get(group(p), 'sig')}.make o{e['obj']} {p} {s} {e['how']}")
        elif op == "libpair":
            cmd = {5: "dh", 9: "kem"}.get(group(p), "sig")
            pk, sk = pair(p, ref.prg(osd[e["obj"]], e["at"], 64))
            sc.do(f"{cmd}.gen o{e['obj']} K{e['key']}", R(f"{len(pk)} {len(sk)}"))
            for t, v in (("pub", pk), ("prv", sk)):
                sc.do(f"buf.get $K{e['key']}.{t}", R(v.hex()), "the key the algorithm makes of the random bytes")
            keys[e["key"]] = (p, pk, sk)
        elif op == "refpair":
            if e["form"] == "good":
                put(e["key"], p, *pair(p, ref.prg(uniq(), 0, 64)))
            elif group(p) == 5:
                keys[e["key"]] = (p, b"", None)
                v = rnd.choice([x for x in (bytes(32), b"\1" + bytes(31), (pq.Q25 - 1).to_bytes(32, "little"), pq.Q25.to_bytes(32, "little"), (pq.Q25 + 1).to_bytes(32, "little"),
                                            bytes.fromhex("e0eb7a7c3b41b8ae1656e3faf19fc46ada098deb9c32b1fd866205165f49b800"), bytes.fromhex("5f9c95bca3508c24b1d0b1559c83ef5b04445cc4581c8e86d8224eddd09f1157"))])
                put(e["key"], p, v, None)
            else:
                put(e["key"], p, rnd.choice(pq.SMALL if e["form"] == "small" else pq.ODD), None)
        elif op == "load":
            sc.do(f"{'kem' if group(p) == 9 else 'sig'}.init o{e['obj']} K{e['key']}.{('prv' if e['role'] == 'own' else 'pub') if group(p) != 9 else ('prv' if e['role'] == 'own' else 'pub')}")
        elif op == "libsign":
            s, sk = e["sig"], keys[e["key"]][2]
            m = ref.prg(seed + s, 0, e["n"])
            v = (pq.dil_sign(p, sk, m)[0] if p <= 3 else pq.ed_sign(H(p), sk, m)) + m
            made[s] = v
            sc.do(f"sig.sign o{e['obj']} @{seed + s}:0:{e['n']} S{s} -", R(f"{len(v)} {len(v)}"))
            sc.do(f"buf.get $S{s}", R(v.hex()), "the signature the algorithm makes")
        elif op == "refsign":
            s = e["sig"]
            _, pk, sk = keys[e["key"]]
            m = ref.prg(seed + s, 0, e["n"])
            if sk is None:
                # the key is a point of small order: 8 h A is neutral, so a signature needs no private key
                h = H(p)
                for t in range(64):
                    r = int.from_bytes(ref.prg(seed + s, 1000 + 32 * t, 32), "little") % pq.L25
                    R_ = pq.ed_enc(pq.ed_mul(r, pq.ED_B))
                    if int.from_bytes(h(R_ + pk + m), "little") % pq.L25 % 8 == 0:
                        break
                v = R_ + r.to_bytes(32, "little")
            elif e["flaw"] == "none":
                v = pq.dil_sign(p, sk, m)[0] if p <= 3 else pq.ed_sign(H(p), sk, m)
            elif p <= 3:
                v = forge_dil(p, sk, m, e["flaw"], rnd)
            else:
                v = forge_ed(p, sk, m, e["flaw"], rnd)
            made[s] = v + m
            sc.do(f"buf S{s} x{(v + m).hex()}", OK)
        elif op == "verify":
            v = made[e["sig"]]
            m = v[len(v) - e["n"]:]
            sc.do(f"sig.verify o{e['obj']} $S{e['sig']} -", R("yes " + m.hex()) if e["yes"] else R("no"), "a signature by the rules" if e["yes"] else f"a signature that breaks a rule ({e['flaw']})" if e["flaw"] != "none" else "a signature of another pair")
        elif op == "libenc":
            ct, ss = pq.kyb_enc(p, keys[e["key"]][1], ref.prg(osd[e["obj"]], e["at"], 32))
            made[e["ct"]] = (ct, ss)
            want = domain_secret(p, ss, e["dom"], e["want"], seed)
            sc.do(f"kem.enc o{e['obj']} C{e['ct']} ss - z{e['want']}:165", R(f"{len(ct)} {want.hex() or '-'}"), "the secret the algorithm makes")
            sc.do(f"buf.get $C{e['ct']}", R(ct.hex()), "the cipher-text the algorithm makes")
        elif op == "refenc":
            src = ref.prg(uniq(), 0, 32)
            _, pk, sk = keys[e["key"]]
            ct, ss = pq.kyb_enc(p, pk, src)
            if e["flaw"] == "altered":
                x = rnd.randrange(len(ct))
                ct = ct[:x] + bytes([ct[x] ^ 1 << rnd.randrange(8)]) + ct[x + 1:]
            elif e["flaw"] == "other hash":
                # encapsulated by one who takes the message as it is drawn and leaves the key out
                ct = pq.kyb_raw(p, pk, src, hashlib.sha3_512(src).digest()[32:])
            elif e["flaw"] == "other coins":
                ct = pq.kyb_raw(p, pk, src, ref.prg(uniq(), 0, 32))
            elif e["flaw"] == "other message":
                m = hashlib.sha3_256(src).digest()
                c = hashlib.sha3_512(m + hashlib.sha3_256(pk).digest()).digest()[32:]
                x = rnd.randrange(32)
                ct = pq.kyb_raw(p, pk, m[:x] + bytes([m[x] ^ 1 << rnd.randrange(8)]) + m[x + 1:], c)
            made[e["ct"]] = (ct, ss)
            sc.do(f"buf C{e['ct']} x{ct.hex()}", OK)
        elif op == "dec":
            ct, ss = made[e["ct"]]
            if e["yes"]:
                want = domain_secret(p, ss, e["dom"], e["want"], seed)
                sc.do(f"kem.dec o{e['obj']} $C{e['ct']} z{e['want']}:165", R("yes " + (want.hex() or "-")), "a cipher-text by the rules")
            else:
                sc.do(f"kem.dec o{e['obj']} $C{e['ct']} z{e['want']}:165", F(lambda r: None if r.startswith("R no ") else "expected a refusal, got " + r[:100]), f"a cipher-text that breaks a rule ({e['flaw']})")
        elif op == "domain":
            sc.do(f"obj.domain o{e['obj']} {'@%d:0:%d' % (seed + 1, e['d']) if e['d'] else '-'}")
        elif op == "agree":
            pp, sk = keys[e["i"]][0], keys[e["i"]][2]
            ss = pq.x25519(sk, keys[e["j"]][1])
            assert (ss is not None) == e["yes"]
            if ss:
                want = domain_secret(p, ss, e["dom"], e["want"], seed)
                sc.do(f"dh.agree o{e['obj']} K{e['j']}.pub K{e['i']}.prv z{e['want']}:165", R("yes " + (want.hex() or "-")), "the secret of the curve")
            else:
                sc.do(f"dh.agree o{e['obj']} K{e['j']}.pub K{e['i']}.prv z{e['want']}:165", R("no " + ("a5" * e["want"] or "-")), "a public key of small order")
    return sc


def body(chk):
    chk.build(["asym"], without=("PrngFromName",))
    T = chk.thorough
    chk.model("Interop", cfg((1, 7), 6 if T else 5, "no", 2, 2, 2, "1"), "two signature schemes", workers=2)
    chk.model("Interop", cfg((5, 9), 6 if T else 5, "no", 2, 2, 2, "1"), "exchange and encapsulation", workers=2)
    msgs = "1, 32, 87, 88, 89, 136, 223, 224, 225, 1000"
    g = [("sweep", chk.generate("Interop", cfg((1, 2, 3, 5, 6, 7, 8, 9, 10, 11, 12), 200, "sweep", msgs=msgs, keys=5), workers=1))]
    for i, ps in enumerate(((1, 2, 3), (7, 8), (5, 6), (9, 10, 11, 12))):
        g.append(("walk", chk.generate("Interop", cfg(ps, 36, "walk", 4, 5, 14, msgs + ", 2, 71, 72, 73, 135, 137, 4096"), num=400 if T else 40, depth=39, seed=chk.seed + i)))
    scs = []
    for kind, fut in g:
        for i, b in enumerate(fut.result()):
            p = b["h"][0]["p"]
            scs.append(build_scenario(b, f"{NAMES[group(p)]}/{kind}/{p}/{i}", (chk.seed * 100000 + len(scs)) * 1000))
    chk.log(len(scs), "scenarios")
    chk.replay(scs, timeout=800)
    chk.assumptions += ["McEliece, SPHINCS+ and XMSS have no second implementation here (C14 and C15 check them against themselves)",
                        "the random source is replaced by one with known output"]
