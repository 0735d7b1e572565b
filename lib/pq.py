"""Reference evaluation of the asymmetric primitives' terms: pq.c (lattices, by definition) and Python integers (curves)."""
import ctypes, os, subprocess, tempfile

_L = None


def lib():
    global _L
    if _L is None:
        d = tempfile.mkdtemp(prefix="cexv-pq-")
        so = os.path.join(d, "pq.so")
        here = os.path.dirname(os.path.abspath(__file__))
        subprocess.run(["gcc", "-O2", "-shared", "-fPIC", "-fwrapv", "-o", so, os.path.join(here, "pq.c"), os.path.join(here, "ref.c")], check=True)
        _L = ctypes.CDLL(so)
        os.remove(so)
        os.rmdir(d)
    return _L


DIL = {1: (1312, 2544, 2420, 4, 4, 80, 18), 2: (1952, 4016, 3293, 6, 5, 55, 20), 3: (2592, 4880, 4595, 8, 7, 75, 20)}


def dil_keys(p, seed):
    pk, sk = ctypes.create_string_buffer(DIL[p][0]), ctypes.create_string_buffer(DIL[p][1])
    lib().dil_keys(p, seed, pk, sk)
    return pk.raw, sk.raw


def dil_sign(p, sk, msg, how=0, tries=1000):
    s = ctypes.create_string_buffer(DIL[p][2])
    n = lib().dil_sign(p, sk, msg, ctypes.c_uint64(len(msg)), how, tries, s)
    return (s.raw, n) if n else (None, 0)


def dil_verify(p, pk, msg, sig, checks=3):
    return bool(lib().dil_verify(p, pk, msg, ctypes.c_uint64(len(msg)), sig, checks))


KYB = {9: (800, 1632, 768), 10: (1184, 2400, 1088), 11: (1568, 3168, 1568), 12: (1952, 3936, 1920)}


def kyb_keys(p, d, z):
    pk, sk = ctypes.create_string_buffer(KYB[p][0]), ctypes.create_string_buffer(KYB[p][1])
    lib().kyb_keys(p, d, z, pk, sk)
    return pk.raw, sk.raw


def kyb_enc(p, pk, rnd, n=32):
    ct, ss = ctypes.create_string_buffer(KYB[p][2]), ctypes.create_string_buffer(n)
    lib().kyb_enc(p, pk, rnd, n, ct, ss)
    return ct.raw, ss.raw


def kyb_dec(p, sk, ct, n=32):
    ss = ctypes.create_string_buffer(n)
    return bool(lib().kyb_dec(p, sk, ct, n, ss)), ss.raw


# ---- the curve ----
Q25 = 2 ** 255 - 19
L25 = 2 ** 252 + 27742317777372353535851937790883648493
D25 = -121665 * pow(121666, Q25 - 2, Q25) % Q25
I25 = pow(2, (Q25 - 1) // 4, Q25)


def ed_x(y, sign):
    x2 = (y * y - 1) * pow(D25 * y * y + 1, Q25 - 2, Q25) % Q25
    x = pow(x2, (Q25 + 3) // 8, Q25)
    if (x * x - x2) % Q25:
        x = x * I25 % Q25
    if (x * x - x2) % Q25:
        return None
    return Q25 - x if x % 2 != sign and x else x


def ed_add(a, b):
    x1, y1, z1, t1 = a
    x2, y2, z2, t2 = b
    A, B, C, D = (y1 - x1) * (y2 - x2) % Q25, (y1 + x1) * (y2 + x2) % Q25, 2 * t1 * t2 * D25 % Q25, 2 * z1 * z2 % Q25
    E, F, G, H = B - A, D - C, D + C, B + A
    return E * F % Q25, G * H % Q25, F * G % Q25, E * H % Q25


def ed_mul(k, p):
    r = (0, 1, 1, 0)
    while k:
        if k & 1:
            r = ed_add(r, p)
        p = ed_add(p, p)
        k >>= 1
    return r


def ed_enc(p):
    z = pow(p[2], Q25 - 2, Q25)
    x, y = p[0] * z % Q25, p[1] * z % Q25
    return (y | (x & 1) << 255).to_bytes(32, "little")


def ed_dec(b):
    v = int.from_bytes(b, "little")
    y = v % 2 ** 255
    x = ed_x(y % Q25, v >> 255)
    return None if x is None else (x, y % Q25, 1, x * y % Q25)


ED_B = (ed_x(4 * pow(5, Q25 - 2, Q25) % Q25, 0), 4 * pow(5, Q25 - 2, Q25) % Q25, 1, 0)
ED_B = (ED_B[0], ED_B[1], 1, ED_B[0] * ED_B[1] % Q25)
# the points of order 1, 2, 4, 8 in all their encodings
SMALL = [bytes.fromhex(x) for x in (
    "0100000000000000000000000000000000000000000000000000000000000000", "ecffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
    "0000000000000000000000000000000000000000000000000000000000000000", "0000000000000000000000000000000000000000000000000000000000000080",
    "26e8958fc2b227b045c3f489f2ef98f0d5dfac05d3c63339b13802886d53fc05", "26e8958fc2b227b045c3f489f2ef98f0d5dfac05d3c63339b13802886d53fc85",
    "c7176a703d4dd84fba3c0b760d10670f2a2053fa2c39ccc64ec7fd7792ac037a", "c7176a703d4dd84fba3c0b760d10670f2a2053fa2c39ccc64ec7fd7792ac03fa")]
ODD = [bytes.fromhex(x) for x in (     # no canonical encodings
    "0100000000000000000000000000000000000000000000000000000000000080", "eeffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
    "edffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f", "eeffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff",
    "edffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff", "ecffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff")]


def clamp(h):
    v = int.from_bytes(h[:32], "little")
    return v & ~7 & (2 ** 254 - 1) | 2 ** 254


def ed_keys(H, seed):
    pk = ed_enc(ed_mul(clamp(H(seed)), ED_B))
    return pk, seed + pk


def ed_sign(H, sk, msg, torsion=None):
    """torsion: a point of small order added to R by a signer who shifts"""
    h = H(sk[:32])
    r = int.from_bytes(H(h[32:] + msg), "little") % L25
    R = ed_mul(r, ED_B)
    if torsion:
        R = ed_add(R, ed_dec(torsion))
    R = ed_enc(R)
    k = int.from_bytes(H(R + sk[32:] + msg), "little") % L25
    return R + ((r + k * clamp(h)) % L25).to_bytes(32, "little")


def ed_verify(H, pk, msg, sig):
    R, S = sig[:32], int.from_bytes(sig[32:64], "little")
    y = int.from_bytes(pk, "little") % 2 ** 255
    if S >= L25 or R in SMALL + ODD or pk in SMALL + ODD or y >= Q25:
        return False
    A = ed_dec(pk)
    if A is None:
        return False
    k = int.from_bytes(H(R + pk + msg), "little") % L25
    neg = (Q25 - A[0], A[1], 1, (Q25 - A[3]) % Q25)
    return ed_enc(ed_add(ed_mul(S, ED_B), ed_mul(k, neg))) == R


def x25519(k, u):
    """by the curve equation's ladder; None if the result is no point of use"""
    k, u = clamp(k[:32]), int.from_bytes(u, "little") % 2 ** 255 % Q25
    a, b, swap = (1, 0), (u, 1), 0
    for t in range(254, -1, -1):
        bit = k >> t & 1
        if bit:
            a, b = b, a
        A, B, C, D = a[0] + a[1], a[0] - a[1], b[0] + b[1], b[0] - b[1]
        b = (pow(D * A + C * B, 2, Q25), u * pow(D * A - C * B, 2, Q25) % Q25)
        E = (A * A - B * B) % Q25
        a = (A * A * B * B % Q25, E * (A * A + 121665 * E) % Q25)
        if bit:
            a, b = b, a
    v = a[0] * pow(a[1], Q25 - 2, Q25) % Q25
    return v.to_bytes(32, "little") if v else None


def dh_keys(H, seed):
    k = H(seed)[:32]
    return x25519(k, b"\x09" + bytes(31)), k


def kyb_raw(p, pk, m, coins):
    ct = ctypes.create_string_buffer(KYB[p][2])
    lib().kyb_raw(p, pk, m, coins, ct)
    return ct.raw
