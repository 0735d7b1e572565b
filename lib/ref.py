"""Reference evaluation of the specification's terms: an independent implementation of the primitives.

hashlib / libcrypto where they offer the primitive, ref.c otherwise."""
import ctypes, hashlib, hmac as hmac_, os, struct, subprocess, tempfile

_L = None


def lib():
    global _L
    if _L is None:
        d = tempfile.mkdtemp(prefix="cexv-ref-")
        so = os.path.join(d, "ref.so")
        src = os.path.join(os.path.dirname(os.path.abspath(__file__)), "ref.c")
        subprocess.run(["gcc", "-O2", "-shared", "-fPIC", "-fwrapv", "-o", so, src], check=True)
        _L = ctypes.CDLL(so)
        os.remove(so)
        os.rmdir(d)
    return _L


def _u64(n): return ctypes.c_uint64(n)


def prg(seed, off, n):
    b = ctypes.create_string_buffer(n)
    lib().prg(_u64(seed), _u64(off), _u64(n), b)
    return b.raw[:n]


# ---- Keccak family ----------------------------------------------------------------------------------------------
def sponge(data, rate, domain, outlen, rounds=24, init=None):
    out = ctypes.create_string_buffer(max(outlen, 1))
    lib().sponge(rounds, rate, domain, data, _u64(len(data)), out, _u64(outlen), init)
    return out.raw[:outlen]


def absorb(state, data, rate, rounds=24):
    st = ctypes.create_string_buffer(state, 200)
    assert len(data) % rate == 0
    lib().sponge_absorb_blocks(st, rounds, rate, data, _u64(len(data) // rate))
    return st.raw[:200]


def left_encode(n):
    b = n.to_bytes(max(1, (n.bit_length() + 7) // 8), "big")
    return bytes([len(b)]) + b


def right_encode(n):
    b = n.to_bytes(max(1, (n.bit_length() + 7) // 8), "big")
    return b + bytes([len(b)])


def encode_string(s): return left_encode(8 * len(s)) + s


def bytepad(s, w):
    z = left_encode(w) + s
    return z + bytes(-len(z) % w)


def shake(data, rate, outlen, rounds=24): return sponge(data, rate, 0x1F, outlen, rounds)


def cshake(data, name, custom, rate, outlen, rounds=24, domain=0x04):
    return sponge(bytepad(encode_string(name) + encode_string(custom), rate) + data, rate, domain, outlen, rounds)


def kmac(key, data, custom, rate, outlen, name=b"KMAC"):
    return sponge(bytepad(encode_string(name) + encode_string(custom), rate) + bytepad(encode_string(key), rate) + data +
                  right_encode(8 * outlen), rate, 0x04, outlen)


# ---- Threefish / Skein ------------------------------------------------------------------------------------------
def threefish(nw, key, tweak, block, rounds=None):
    rounds = rounds or (80 if nw == 16 else 72)
    A = ctypes.c_uint64 * nw
    k, b, o, t = A(*struct.unpack(f"<{nw}Q", key)), A(*struct.unpack(f"<{nw}Q", block)), A(), (ctypes.c_uint64 * 2)(*tweak)
    lib().threefish(nw, rounds, k, t, b, o)
    return struct.pack(f"<{nw}Q", *o)


def _xor(a, b): return bytes(x ^ y for x, y in zip(a, b))


def ubi(nw, g, msg, typ, first=True, final=True):
    nb = nw * 8
    pos, n = 0, len(msg)
    blocks = [msg[i:i + nb] for i in range(0, n, nb)] or [b""]
    for i, b in enumerate(blocks):
        pos += len(b)
        t1 = (typ << 56) | ((1 << 62) if i == 0 and first else 0) | ((1 << 63) if i == len(blocks) - 1 and final else 0)
        b = b + bytes(nb - len(b))
        g = _xor(threefish(nw, g, (pos, t1), b), b)
    return g


def skein(nw, msg, outlen=None):
    outlen = outlen or nw * 8
    cfg = b"SHA3" + struct.pack("<HHQ", 1, 0, outlen * 8) + bytes(16)
    g = ubi(nw, bytes(nw * 8), cfg, 4)
    g = ubi(nw, g, msg, 48)
    return ubi(nw, g, bytes(8), 63)[:outlen]


# ---- digests ----------------------------------------------------------------------------------------------------
def digest(name, m):
    if name == "SHA2256": return hashlib.sha256(m).digest()
    if name == "SHA2512": return hashlib.sha512(m).digest()
    if name == "SHA3256": return hashlib.sha3_256(m).digest()
    if name == "SHA3512": return hashlib.sha3_512(m).digest()
    if name == "Blake256": return hashlib.blake2s(m).digest()
    if name == "Blake512": return hashlib.blake2b(m).digest()
    if name == "Skein256": return skein(4, m)
    if name == "Skein512": return skein(8, m)
    if name == "Skein1024": return skein(16, m)
    raise KeyError(name)


DSIZE = {"SHA2256": 32, "SHA2512": 64, "SHA3256": 32, "SHA3512": 64, "Blake256": 32, "Blake512": 64, "Skein256": 32,
         "Skein512": 64, "Skein1024": 128}
DBLOCK = {"SHA2256": 64, "SHA2512": 128, "SHA3256": 136, "SHA3512": 72, "Blake256": 64, "Blake512": 128, "Skein256": 32,
          "Skein512": 64, "Skein1024": 128}


# ---- HMAC, HKDF ------------------------------------------------------------------------------------------------
def hmac(alg, key, msg):
    import hmac as H
    return H.new(key, msg, {"SHA2256": "sha256", "SHA2512": "sha512"}[alg]).digest()


def hkdf_expand(alg, prk, info, n):
    out, t, i = b"", b"", 0
    while len(out) < n:
        i += 1
        t = hmac(alg, prk, t + info + bytes([i]))
        out += t
    return out[:n]


RATE = {"128": 168, "256": 136, "512": 72, "1024": 32}


def shake_kdf(bits, key, custom, info, n):
    """SHAKE-n of the key; cSHAKE(name=info, custom) when either is present."""
    r = RATE[bits]
    return cshake(key, info, custom, r, n) if custom or info else shake(key, r, n)


# ---- block ciphers ---------------------------------------------------------------------------------------------
class BlockCipher:
    """AES, Serpent, RHXH256/RHXH512/RHXS256/RHXS512 and SHX*; info is the key's distribution code."""

    def __init__(self, name, key, info=b""):
        L = lib()
        self.name = name
        if name in ("AES", "Serpent"):
            rk = ctypes.create_string_buffer(1024)
            self.rounds = (L.aes_expand if name == "AES" else L.serpent_expand)(key, len(key), rk)
            self.rk = rk.raw
        else:
            if name.startswith("RHX"):
                self.rounds = 38 if len(key) == 128 else len(key) // 4 + 14
            else:
                self.rounds = {32: 40, 64: 48}.get(len(key), 64)
            n = 16 * (self.rounds + 1)
            custom = name.encode() + struct.pack("<H", (len(key) * 8) & 0xFFFF) + info
            custom = CIPHERNAME.get(name, name).encode() + custom[len(name):]
            if name[3] == "H":
                k = hkdf_expand("SHA2" + name[4:], key, custom, n)
            else:
                k = shake_kdf(name[4:], key, b"", custom, n)
            if name.startswith("RHX"):
                k = b"".join(k[i:i + 4][::-1] for i in range(0, n, 4))
            self.rk = k

    def ecb(self, data, dec=False):
        n = len(data) // 16
        assert n * 16 == len(data)
        out = ctypes.create_string_buffer(len(data) or 1)
        if self.name == "AES" or self.name.startswith("RHX"):
            lib().rijndael(self.rk, self.rounds, 4, int(dec), data, out, _u64(n))
        else:
            lib().serpent(self.rk, self.rounds, int(dec), data, out, _u64(n))
        return out.raw[:len(data)]


CIPHERNAME = {}


def cmac(bc, msg):
    def dbl(b):
        v = int.from_bytes(b, "big") << 1
        return ((v & ((1 << 128) - 1)) ^ (0x87 if v >> 128 else 0)).to_bytes(16, "big")
    k1 = dbl(bc.ecb(bytes(16)))
    k2 = dbl(k1)
    nb = max(1, (len(msg) + 15) // 16)
    last = msg[16 * (nb - 1):]
    last = _xor(last, k1) if len(last) == 16 else _xor(last + b"\x80" + bytes(15 - len(last)), k2)
    s = bytes(16)
    for i in range(nb - 1):
        s = bc.ecb(_xor(s, msg[16 * i:16 * i + 16]))
    return bc.ecb(_xor(s, last))


def _gmul(x, y):
    z, v = 0, y
    for i in range(127, -1, -1):
        if (x >> i) & 1:
            z ^= v
        v = (v >> 1) ^ (0xE1 << 120 if v & 1 else 0)
    return z


_GT = {}


def ghash(h, data):
    """data: whole blocks"""
    if h not in _GT:
        if len(_GT) > 400:
            _GT.clear()
        H = int.from_bytes(h, "big")
        t = []                      # per byte position tables
        p = [0] * 128               # p[i] = H * x^(127-i bit)
        v = H
        for i in range(127, -1, -1):
            p[i] = v
            v = (v >> 1) ^ (0xE1 << 120 if v & 1 else 0)
        for b in range(16):
            row = [0] * 256
            for k in range(8):
                row[1 << k] = p[8 * b + k]
            for n in range(256):
                low = n & -n
                if n != low:
                    row[n] = row[n ^ low] ^ row[low]
            t.append(row)
        _GT[h] = t
    t = _GT[h]
    y = 0
    for i in range(0, len(data), 16):
        y ^= int.from_bytes(data[i:i + 16], "big")
        z = 0
        for b in range(16):
            z ^= t[b][(y >> (8 * b)) & 255]
        y = z
    return y.to_bytes(16, "big")


def _pad16(b): return b + bytes(-len(b) % 16)


def gcm_j0(bc, nonce, h):
    if len(nonce) == 12:
        return nonce + b"\0\0\0\1"
    return ghash(h, _pad16(nonce) + struct.pack(">QQ", 0, 8 * len(nonce)))


def gmac(bc, nonce, msg):
    """GHASH over the message with its length in the first length field, as in GMAC (all data is associated data)."""
    h = bc.ecb(bytes(16))
    s = ghash(h, _pad16(msg) + struct.pack(">QQ", 8 * len(msg), 0))
    return _xor(s, bc.ecb(gcm_j0(bc, nonce, h)))


def poly1305(key, msg):
    r = int.from_bytes(key[:16], "little") & 0x0ffffffc0ffffffc0ffffffc0fffffff
    s = int.from_bytes(key[16:32], "little")
    a = 0
    for i in range(0, len(msg), 16):
        a = (a + int.from_bytes(msg[i:i + 16] + b"\1", "little")) * r % ((1 << 130) - 5)
    return ((a + s) % (1 << 128)).to_bytes(16, "little")


def kpa(key, custom, msg, n):
    """The library's 8-way parallel Keccak MAC (12 rounds)."""
    R, rate = 12, {16: 168, 32: 136}.get(len(key), 72)
    P = 8
    st = bytes(200)
    if custom:
        st = absorb(st, bytepad(encode_string(custom), rate), rate, R)
    st = absorb(st, bytepad(encode_string(key), rate), rate, R)
    leaves = []
    hl = 32 if rate == 136 else 64
    row = rate * P
    full = len(msg) // row
    data = msg + bytes(-len(msg) % row)
    for i in range(P):
        tag = struct.pack(">H", i + 1) + bytes([0x4B, 0x42, 0x41, 0xAD, 0x31, 0x32])
        w0 = (int.from_bytes(st[:8], "little") ^ int.from_bytes(tag, "big")).to_bytes(8, "little")
        l = absorb(_xor(w0 + st[8:], bytes(200)), bytes(rate), rate, R)
        m = b"".join(data[o + i * rate:o + (i + 1) * rate] for o in range(0, len(data), row))
        l = absorb(l, m, rate, R)
        leaves.append(l[:hl])
    f = b"".join(leaves)
    root = absorb(bytes(200), f + bytes(-len(f) % rate), rate, R)
    tail = right_encode(8 * n) + right_encode(8 * len(msg)) + b"\x41"
    last = bytearray(tail + bytes(rate - len(tail)))
    last[rate - 1] |= 128
    st = bytearray(root)
    for i in range(rate):
        st[i] ^= last[i]
    out = b""
    st = bytes(st)
    while len(out) < n:
        st = absorb(st, bytes(rate), rate, R)
        out += st[:rate]
    return out[:n]


# ---- key derivation: block i.. of the stream --------------------------------------------------------------------
def kdf_blocks(alg, key, salt, info, first, n, b, iterations=1):
    """n bytes starting at block number `first` (0-based) of b-byte blocks."""
    if alg.startswith("SHAKE"):
        return shake_kdf(alg[5:], key, salt, info, first * b + n)[first * b:]
    h = "sha256" if alg.endswith("256") else "sha512"
    nb = -(-n // b)
    if alg.startswith("HKDF"):
        prk = hmac("SHA2256" if h == "sha256" else "SHA2512", salt, key) if salt else key
        return hkdf_expand("SHA2256" if h == "sha256" else "SHA2512", prk, info, first * b + n)[first * b:]
    if alg.startswith("PBKDF2"):
        return hashlib.pbkdf2_hmac(h, key, salt + info, iterations, first * b + n)[first * b:]
    B = 64 if h == "sha256" else 128
    if not salt:
        z, rest = key[:B] + bytes(max(0, B - len(key))), key[B:] + info
    else:
        z, rest = key, salt + info
    return b"".join(hashlib.new(h, z + (first + i + 1).to_bytes(4, "big") + rest).digest() for i in range(nb))[:n]


def _keccak_f(st, rounds=24):
    buf = (ctypes.c_uint64 * 25).from_buffer_copy(st)
    lib().keccak_f(buf, rounds)
    return bytes(buf)


def _absorb_pad(st, data, rate, domain, rounds=24):
    """Keccak absorb with the padded last block left un-permuted."""
    n = len(data) // rate
    buf = ctypes.create_string_buffer(st, 200)
    lib().sponge_absorb_blocks(buf, rounds, rate, data, _u64(n))
    last = bytearray(data[n * rate:] + bytes(200 - (len(data) - n * rate)))
    last[len(data) - n * rate] ^= domain
    last[rate - 1] ^= 0x80
    return _xor(buf.raw, last)


def scbkdf(rate, cpu, mem, key, salt, info, calls):
    """The outputs of a sequence of requests."""
    st = bytes(200)
    if salt or info:
        st = absorb(st, bytepad(encode_string(info) + encode_string(salt), rate), rate)
    st = _keccak_f(_absorb_pad(st, key, rate, 0x24))
    cache, outs = st[:rate], []
    for n in calls:
        for _ in range(cpu):
            st = _absorb_pad(st, cache, rate, 0x24)
            if len(cache) < mem * 1000000:
                cache += st[:rate]
        out = b""
        while len(out) < n:
            st = _keccak_f(st)
            out += st[:rate]
        outs.append(out[:n])
    return outs


# ---- stream ciphers --------------------------------------------------------------------------------------------
SIGMA20 = b"expand 32-byte k"
SIGMA512 = b"CSX512 KMAC authentication ver. 1c CEX++ library"
OMEGA = {"TSX256": b"ThreefishP256R72", "TSX512": b"ThreefishP512R96", "TSX1024": b"Threefish1024120"}
SBLOCK = {"RCS": 32, "RWS": 64, "ChaChaP20": 64, "CSX512": 128, "TSX256": 32, "TSX512": 64, "TSX1024": 128}


def _le64(x): return struct.pack("<Q", x % (1 << 64))


class Stream:
    """One keyed session of a stream cipher: keystream by block position, and the MAC key when authenticated."""

    def __init__(self, name, auth, key, nonce, info):
        self.name, self.block, self.nonce = name, SBLOCK[name], nonce
        self.mackey, self.kbits = b"", "512" if len(key) >= 64 else "256"
        if name in ("RCS", "RWS"):
            if name == "RWS" and len(key) == 16:
                self.kbits = "128"
            n = {"RCS": {32: 22, 64: 30}, "RWS": {16: 20, 32: 40, 64: 80}}[name][len(key)]
            self.rounds = n
            nm = name + ("K" + self.kbits if auth and self.kbits != "128" else "")
            self.ctr0 = 1 if name == "RCS" else 0
            blob = _le64(self.ctr0) + struct.pack("<H", len(key) * 8) + nm.encode()
            rkn = self.block * (n + 1)
            r = RATE[self.kbits]
            mo = -(-rkn // r) * r
            mk = {"128": 16, "256": 32, "512": 64}[self.kbits]
            s = shake_kdf(self.kbits, key, info, blob, mo + (mk if auth else 0))
            self.rk, self.mackey = s[:rkn], s[mo:] if auth else b""
            return
        self.ctr0 = 1 if name.startswith("TSX") else 0
        if auth:
            mac = "KMAC" + self.kbits
            nm = f"{name}-{mac}".encode()
            r, kn = RATE[self.kbits], len(key)
            mo = -(-kn // r) * r
            mk = {"256": 32, "512": 64}[self.kbits]
            if name.startswith("TSX"):
                self.custom = _le64(1) + nm
                s = shake_kdf(self.kbits, key, self.custom, b"", mo + mk)
            else:
                s = shake_kdf(self.kbits, key, b"", nm, mo + mk)
            key, self.mackey = s[:kn], s[mo:]
        self.key = key
        if name == "ChaChaP20":
            self.code = info or SIGMA20
        elif name == "CSX512":
            self.code = (info + bytes(48))[:48] if info else SIGMA512
        else:
            self.code = info or OMEGA[name]

    def counter(self, pos):
        """The counter words before block pos, as the nonce bytes bound into the tag."""
        if self.name in ("RCS", "RWS"):
            return ((int.from_bytes(self.nonce[:16], "little") + pos) % (1 << 128)).to_bytes(16, "little") + self.nonce[16:]
        if self.name == "ChaChaP20":
            return struct.pack("<Q", pos)
        return ((int.from_bytes(self.nonce, "little") + pos) % (1 << 128)).to_bytes(16, "little")

    def keystream(self, pos, n):
        nb = -(-n // self.block)
        out = ctypes.create_string_buffer(nb * self.block or 1)
        L = lib()
        if self.name in ("RCS", "RWS"):
            L.rijctr(self.rk, self.rounds, self.block // 4, self.nonce, _u64(pos), _u64(nb), out)
        elif self.name == "ChaChaP20":
            L.chacha20(self.code, self.key, self.nonce, _u64(pos), _u64(nb), out)
        else:
            c = int.from_bytes(self.counter(pos), "little")
            c0, c1 = _u64(c % (1 << 64)), _u64(c >> 64)
            if self.name == "CSX512":
                st = self.key + self.code
                L.csx512(st[:96] + st[96:112], c0, c1, 40, _u64(nb), out)
            else:
                nw = self.block // 8
                L.tsx(nw, {4: 72, 8: 96, 16: 120}[nw], self.key, self.code, c0, c1, _u64(nb), out)
        return out.raw[:n]


# ---- authenticated encryption -----------------------------------------------------------------------------------
class KmacChain:
    """A KMAC that goes on absorbing after each tag it has given."""

    def __init__(self, bits, key, custom=b""):
        self.rate = RATE[bits]
        self.st0 = absorb(bytes(200), bytepad(encode_string(b"KMAC") + encode_string(custom), self.rate) + bytepad(encode_string(key), self.rate), self.rate)

    def after(self, st, data, olen):
        """-> (tag, state to go on from)"""
        st = _keccak_f(_absorb_pad(st, data + right_encode(8 * olen), self.rate, 0x04))
        out = st[:self.rate]
        while len(out) < olen:
            st = _keccak_f(st)
            out += st[:self.rate]
        return out[:olen], st


def gcm(bc, nonce, ad, data):
    """-> ciphertext, tag"""
    h = bc.ecb(bytes(16))
    j0 = gcm_j0(bc, nonce, h)
    v, n = int.from_bytes(j0, "big"), -(-len(data) // 16)
    ks = bc.ecb(b"".join(((v + 1 + i) % (1 << 128)).to_bytes(16, "big") for i in range(n))) if n else b""
    ct = _xor(data, ks)
    return ct, _xor(ghash(h, _pad16(ad) + _pad16(ct) + struct.pack(">QQ", 8 * len(ad), 8 * len(ct))), bc.ecb(j0))


class Hba:
    """One keyed session of the HBA mode."""

    def __init__(self, cipher, auth, key, nonce, info, modename):
        self.auth, self.info, self.nonce = auth, info, nonce
        self.name = struct.pack("<H", 8 * len(key)) + modename.encode()
        self.hm = auth.startswith("HMAC")
        blob = _le64(1) + self.name
        if self.hm:
            self.alg = "SHA2512" if len(key) == 64 else "SHA2256"
            n = 64 if len(key) == 64 else 32
            s = hkdf_expand(self.alg, hmac(self.alg, blob, key), info, 2 * n)
            ck, self.mk = s[:n], s[n:]
        else:
            self.bits = "512" if auth == "KMAC512" else "256"
            r, n = RATE[self.bits], 64 if auth == "KMAC512" else 32
            s = shake_kdf(self.bits, key, info, blob, r + n)
            ck, self.mk = s[:len(key)], s[r:r + n]
        self.bc = BlockCipher(cipher, ck, info)

    def keystream(self, pos, n):
        v, nb = int.from_bytes(self.nonce, "little"), -(-n // 16)
        return self.bc.ecb(b"".join(((v + pos + i) % (1 << 128)).to_bytes(16, "little") for i in range(nb)))[:n] if n else b""

    def counter(self, pos):
        return ((int.from_bytes(self.nonce, "little") + pos) % (1 << 128)).to_bytes(16, "little")

    def mackey(self, ratchet):
        k = self.mk
        for c in ratchet:
            blob = _le64(1 + c) + self.name
            if self.hm:
                n = 64 if self.alg == "SHA2512" else 32
                k = hkdf_expand(self.alg, hmac(self.alg, blob, k), self.info, n)
            else:
                k = shake_kdf(self.bits, k, self.info, blob, {"KMAC256": 32, "KMAC512": 64, "Poly1305": 32}[self.auth])
        return k

    def mac(self, ratchet, data):
        k = self.mackey(ratchet)
        if self.hm:
            return hmac(self.auth[4:], k, data)
        if self.auth == "Poly1305":
            return poly1305(k, data)
        return kmac(k, data, b"", RATE[self.bits], {"256": 32, "512": 64}[self.bits])


# ---- deterministic random bit generators --------------------------------------------------------------------------
class Drbg:
    """The virtual block stream of a generator: replays its events one by one."""

    def __init__(self, name, pbytes):
        self.name, self.p = name, pbytes      # pbytes(at, n): the entropy source
        self.stream, self.n = bytearray(), 0

    def event(self, e, key, iv, info):
        getattr(self, e["t"])(e, key, iv, info)

    def bytes(self, pos, n):
        return bytes(self.stream[pos:pos + n])


class Bcg(Drbg):
    INFO = b"BCG version 1.0b"

    def _key(self, key, custom):
        self.custom = self.INFO + custom
        self.rounds = 38 if len(key) == 128 else len(key) // 4 + 14
        self.rk = shake_kdf("256", key, self.custom, struct.pack("<H", len(key) * 8) + b"BCG", 32 * (self.rounds + 1))

    def load(self, e, key, iv, info):
        self.nonce, self.ctr = iv, 0
        self._key(key, info)

    def fill(self, e, *_):
        out = ctypes.create_string_buffer(32 * e["k"])
        lib().rijctr(self.rk, self.rounds, 8, self.nonce, _u64(self.ctr), _u64(e["k"]), out)
        self.ctr += e["k"]
        self.stream += out.raw

    def upd(self, e, key, *_):
        # every update prefixes the information string once more; only the last key of a run matters
        i = e["many"] - 1
        self.custom = self.INFO * i + self.custom
        self._key(shake_kdf("256", key, self.p(e["at"] + i * e["n"], e["n"]), b"", len(key)) if e["n"] else key, self.custom)

    def auto(self, e, *_):
        key = bytes(self.stream[-32:])
        self._key(shake_kdf("256", key, self.p(e["at"], e["n"]), b"", 32), self.custom)


class Csg(Drbg):
    def load(self, e, key, iv, info):
        self.rate = RATE[self.name[3:]]
        self.dom = 0x04 if iv or info else 0x1F
        st = bytes(200)
        if iv or info:
            st = absorb(st, bytepad(encode_string(info) + encode_string(iv), self.rate), self.rate)
        self.st = _absorb_pad(st, key, self.rate, self.dom)

    def fill(self, e, *_):
        for _ in range(e["k"]):
            self.st = _keccak_f(self.st)
            self.stream += self.st[:self.rate]

    def prov(self, e, *_):
        self.st = _absorb_pad(self.st, self.p(e["at"], e["n"]), self.rate, self.dom)
        self.fill({"k": 1})

    def upd(self, e, key, *_):
        for i in range(e["many"]):
            if e["n"]:
                self.prov({"at": e["at"] + i * e["n"], "n": e["n"]})
            self.st = _absorb_pad(self.st, key, self.rate, self.dom)
            self.fill({"k": 1})


class Hcg(Drbg):
    def load(self, e, key, iv, info):
        self.h = hashlib.sha256 if self.name == "HCG256" else hashlib.sha512
        self.b = 32 if self.name == "HCG256" else 64
        self.code = b"CEX-HCG-" + (b"SHA2256" if self.b == 32 else b"SHA2512") + struct.pack("<H", self.b * 4) + info
        self.nonce, self.key = int.from_bytes((iv + bytes(8))[:8], "big"), key
        self.nonce += len(self.code)
        self.buf = self._mac(self.code + self._n())

    def _n(self):
        return (self.nonce % (1 << 64)).to_bytes(8, "big")

    def _mac(self, d):
        return hmac_.new(self.key, d, self.h).digest()

    def _fill(self, z=0):
        self.nonce += 2 * self.b
        self.buf = self._mac(bytes(z) + self.buf[z:] + self.code + self._n())
        self.stream += self.buf

    def fill(self, e, *_):
        for i in range(e["k"]):
            self._fill(e["z"] if i == 0 else 0)

    def _rekey(self, half, z):
        self._fill(z)
        self.key = half + self._mac(self.buf)
        self._fill()

    def prov(self, e, *_):
        self._rekey(self.p(e["at"], e["n"]), e["z"])

    def upd(self, e, key, *_):
        for i in range(e["many"]):
            self._rekey(self._mac(key), e["z"] if i == 0 else 0)


def drbg(name, pbytes):
    return {"B": Bcg, "C": Csg, "H": Hcg}[name[0]](name, pbytes)
