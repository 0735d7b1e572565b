"""Reference evaluation of the tree-hash configurations: leaves take the blocks of the message round-robin and
the root hashes the concatenated leaf digests."""
import ctypes, hashlib, struct
import ref


def _rr(m, B, F):
    """Per leaf: list of full-block bytes in whole rows, and the leaf's piece of the incomplete last row."""
    rows = len(m) // (B * F)
    rest = m[rows * B * F:]
    full = [b"".join(m[(r * F + i) * B:(r * F + i + 1) * B] for r in range(rows)) for i in range(F)]
    tail = [rest[i * B:(i + 1) * B] for i in range(F)]
    return full, tail


def _sha2(m, F, bits):
    big = bits == 512
    B, D, w = (128, 64, 8) if big else (64, 32, 4)
    iv = (hashlib512 if big else hashlib256)
    lib, blockf = ref.lib(), None
    blockf = lib.sha512_block if big else lib.sha256_block
    ctype = ctypes.c_uint64 if big else ctypes.c_uint32

    def state(): return (ctype * 8)(*iv)

    def out(h): return b"".join(int(x).to_bytes(w, "big") for x in h)

    def finish(h, data, T):       # standard padding with a running byte count
        n = T + len(data)
        data += b"\x80"
        data += bytes(-(len(data) + 2 * w) % B) + (n * 8).to_bytes(2 * w, "big")
        for i in range(0, len(data), B):
            blockf(h, data[i:i + B])
        return h
    hdr = lambda i: struct.pack("<IHQI", i, 1, D, B) + bytes([0, F]) + struct.pack("<I", 0)
    full, tail = _rr(m, B, F)
    leaves = []
    for i in range(F):
        h = state()
        p = hdr(i) + bytes(48 if big else 112)
        p = (p[:B] if not big else p + bytes([0x1F]) * B)[:B]
        blockf(h, p)
        T = B
        for k in range(0, len(full[i]), B):
            blockf(h, full[i][k:k + B])
            T += B
        if tail[i]:
            h = finish(h, tail[i], T)
        leaves.append(out(h))
    return hashlib.new("sha512" if big else "sha256", b"".join(leaves)).digest()


def _primes(n):
    r, k = [], 2
    while len(r) < n:
        if all(k % p for p in r): r.append(k)
        k += 1
    return r


def _frac(p, bits):
    import math
    return math.isqrt(p << (2 * bits)) & ((1 << bits) - 1)


hashlib256 = [_frac(p, 32) for p in _primes(8)]
hashlib512 = [_frac(p, 64) for p in _primes(8)]


def _sha3(m, F, bits):
    R, D = (136, 32) if bits == 256 else (72, 64)
    full, tail = _rr(m, R, F)
    leaves = []
    for i in range(F):
        p = struct.pack("<IHQI", i, 1, D, R) + bytes([0, F]) + struct.pack("<I", 0)
        p = (p + bytes(200))[:R]
        st = ref.absorb(bytes(200), p + full[i], R)
        if tail[i]:
            t = tail[i]
            if len(t) == R:
                st = ref.absorb(st, t, R)
                t = b""
            b = bytearray(t + bytes(R - len(t)))
            b[len(t)] ^= 6
            b[R - 1] ^= 0x80
            st = ref.absorb(st, bytes(b), R)
        leaves.append(st[:D])
    return (hashlib.sha3_256 if bits == 256 else hashlib.sha3_512)(b"".join(leaves)).digest()


def _blake(m, F, big):
    B, D = (128, 64) if big else (64, 32)
    mk = hashlib.blake2b if big else hashlib.blake2s
    leaves = []
    for i in range(F):
        d = b"".join(m[k:k + B] for k in range(i * B, len(m), B * F))
        leaves.append(mk(d, digest_size=D, fanout=F, depth=2, leaf_size=0, node_offset=i, node_depth=0, inner_size=D,
                         last_node=i == F - 1).digest())
    return mk(b"".join(leaves), digest_size=D, fanout=F, depth=2, leaf_size=0, node_offset=0, node_depth=1, inner_size=D,
              last_node=True).digest()


def tree(name, F, m):
    if name == "SHA2256": return _sha2(m, F, 256)
    if name == "SHA2512": return _sha2(m, F, 512)
    if name == "SHA3256": return _sha3(m, F, 256)
    if name == "SHA3512": return _sha3(m, F, 512)
    if name == "Blake256": return _blake(m, F, False)
    if name == "Blake512": return _blake(m, F, True)
    raise KeyError(name)


def _skein(m, F, nw):
    B = nw * 8
    pad = lambda s: s + bytes(B - len(s))
    x = ref._xor
    cfg = pad(b"SHA3" + struct.pack("<HHQQ", 1, 0, B * 8, B | F << 8))
    t_cfg = (32, 4 << 56 | 3 << 62)
    V, msg = [], cfg
    for i in range(F):
        v = x(ref.threefish(nw, bytes(B), t_cfg, msg), cfg)
        V.append(v)
        msg = v

    def absorb(g, pos, first, data, final):
        blocks = [data[i:i + B] for i in range(0, len(data), B)]
        for b in blocks:
            pos += len(b)
            b = pad(b)
            g = x(ref.threefish(nw, g, (pos, 48 << 56 | (1 << 62 if first else 0) | (1 << 63 if final else 0)), b), b)
            first = False
        return g, pos, first

    def output(g):
        return x(ref.threefish(nw, g, (8, 63 << 56 | 3 << 62), bytes(B)), bytes(B))
    full, tail = _rr(m, B, F)
    leaves = []
    for i in range(F):
        g, pos, first = absorb(V[i], 0, True, full[i], False)
        if tail[i]:
            g, pos, first = absorb(g, pos, first, tail[i], True)
            g = output(g)
        leaves.append(g)
    # the root continues the configuration block's tweak and chains without its feed-forward
    std = pad(b"SHA3" + struct.pack("<HHQ", 1, 0, B * 8))
    g = ref.threefish(nw, bytes(B), t_cfg, std)
    pos, first, data = 32, True, b"".join(leaves)
    for i in range(0, len(data), B):
        pos += B
        b = data[i:i + B]
        g = x(ref.threefish(nw, g, (pos, 4 << 56 | 1 << 63 | (1 << 62 if first else 0)), b), b)
        first = False
    return output(g)


_old = tree


def tree(name, F, m):
    if name.startswith("Skein"):
        return _skein(m, F, {"Skein256": 4, "Skein512": 8, "Skein1024": 16}[name])
    return _old(name, F, m)
