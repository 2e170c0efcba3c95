"""BLAKE2s and BLAKE2sp, written from RFC 7693 and the BLAKE2 paper, independently of /repo.

The functions work on Python integers and on symbolic terms alike (terms.py operations).
"""
import terms as tm
from terms import T, add, xor, fshr, zext, ext, cat

IV = [0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19]
SIGMA = [
    '0123456789abcdef', 'ea489fd61c02b753', 'b8c052fdae367194', '7931dcbe265a40f8', '905724afe1bc683d',
    '2c6a0b834d75fe19', 'c51fed4a0763928b', 'db7ec13950f4862a', '6fe9b308c2d714a5', 'a2847615fb9e3cd0']
SIGMA = [[int(c, 16) for c in s] for s in SIGMA]
assert all(sorted(s) == list(range(16)) for s in SIGMA)


def rotr(x, n):
    return fshr(x, x, n, 32)


def F(h, m, t, f0, f1):
    """h: 8 words, m: 16 words, t: 64-bit counter, f0, f1: flag words -> 8 words"""
    v = list(h) + list(IV)
    v[12] = xor(v[12], ext(t, 0, 32), 32)
    v[13] = xor(v[13], ext(t, 32, 32), 32)
    v[14] = xor(v[14], f0, 32)
    v[15] = xor(v[15], f1, 32)

    def G(a, b, c, d, x, y):
        v[a] = add(v[a], add(v[b], x, 32), 32)
        v[d] = rotr(xor(v[d], v[a], 32), 16)
        v[c] = add(v[c], v[d], 32)
        v[b] = rotr(xor(v[b], v[c], 32), 12)
        v[a] = add(v[a], add(v[b], y, 32), 32)
        v[d] = rotr(xor(v[d], v[a], 32), 8)
        v[c] = add(v[c], v[d], 32)
        v[b] = rotr(xor(v[b], v[c], 32), 7)
    for r in range(10):
        s = SIGMA[r]
        G(0, 4, 8, 12, m[s[0]], m[s[1]])
        G(1, 5, 9, 13, m[s[2]], m[s[3]])
        G(2, 6, 10, 14, m[s[4]], m[s[5]])
        G(3, 7, 11, 15, m[s[6]], m[s[7]])
        G(0, 5, 10, 15, m[s[8]], m[s[9]])
        G(1, 6, 11, 12, m[s[10]], m[s[11]])
        G(2, 7, 8, 13, m[s[12]], m[s[13]])
        G(3, 4, 9, 14, m[s[14]], m[s[15]])
    return [xor(xor(h[i], v[i], 32), v[i + 8], 32) for i in range(8)]


def param_words(digest_length=32, key_length=0, fanout=1, depth=1, leaf_length=0, node_offset=0, node_depth=0, inner_length=0, salt=(0,) * 8, personal=(0,) * 8):
    """the 32-byte parameter block xored into the IV; byte-size fields, salt/personal: 8 bytes"""
    p = [(digest_length, 8), (key_length, 8), (fanout, 8), (depth, 8), (leaf_length, 32), (node_offset, 48), (node_depth, 8), (inner_length, 8)]
    p += [(b, 8) for b in salt] + [(b, 8) for b in personal]
    block = cat(p)
    return [xor(IV[i], ext(block, 32 * i, 32), 32) for i in range(8)]


# ---------------------------------------------------------------- concrete

def blake2s_concrete(data, last_node=0, **kw):
    key = kw.pop('key', b'')
    n = kw.get('digest_length', 32)
    h = param_words(key_length=len(key), **kw)
    if key:
        data = key + b'\0' * (64 - len(key)) + data
    t = 0
    while len(data) - t > 64:
        m = [int.from_bytes(data[t + 4 * i:t + 4 * i + 4], 'little') for i in range(16)]
        t += 64
        h = F(h, m, t, 0, 0)
    blk = data[t:] + b'\0' * (64 - (len(data) - t))
    m = [int.from_bytes(blk[4 * i:4 * i + 4], 'little') for i in range(16)]
    h = F(h, m, len(data), 0xffffffff, 0xffffffff if last_node else 0)
    return b''.join(x.to_bytes(4, 'little') for x in h)[:n]


def blake2sp_concrete(data, key=b'', digest_length=32):
    """BLAKE2sp: 8 leaves, blocks dealt round-robin; key block fed to every leaf, not to the root"""
    out = b''
    for i in range(8):
        part = b''.join(data[o:o + 64] for o in range(64 * i, max(len(data), 64 * i + 1), 512))
        if key:
            part = key + b'\0' * (64 - len(key)) + part
        h = leafhash(part, i, len(key), digest_length)
        out += h
    return roothash(out, len(key), digest_length)


def leafhash(part, i, kl, dl):
    kw = dict(digest_length=dl, fanout=8, depth=2, node_offset=i, node_depth=0, inner_length=32)
    return _raw(part, param_words(key_length=kl, **kw), 1 if i == 7 else 0)


def roothash(data, kl, dl):
    return _raw(data, param_words(key_length=kl, digest_length=dl, fanout=8, depth=2, node_offset=0, node_depth=1, inner_length=32), 1)[:dl]


def _raw(data, h, last):
    t = 0
    while len(data) - t > 64:
        m = [int.from_bytes(data[t + 4 * i:t + 4 * i + 4], 'little') for i in range(16)]
        t += 64
        h = F(h, m, t, 0, 0)
    blk = data[t:] + b'\0' * (64 - (len(data) - t))
    m = [int.from_bytes(blk[4 * i:4 * i + 4], 'little') for i in range(16)]
    h = F(h, m, len(data), 0xffffffff, 0xffffffff if last else 0)
    return b''.join(x.to_bytes(4, 'little') for x in h)


def selftest():
    """compare this model with hashlib and with the published BLAKE2sp vector of the empty message"""
    import hashlib
    import random
    rnd = random.Random(7)
    n = 0
    for ln in (0, 1, 63, 64, 65, 127, 128, 129, 200, 256):
        d = bytes(rnd.randrange(256) for _ in range(ln))
        for k in range(2):
            key = bytes(rnd.randrange(256) for _ in range(rnd.randrange(33)))
            kw = dict(fanout=rnd.randrange(256), depth=rnd.randrange(1, 256), node_offset=rnd.randrange(1 << 48), node_depth=rnd.randrange(256))
            dl = rnd.randrange(1, 33)
            ll = rnd.randrange(1 << 32)
            il = rnd.randrange(33)
            sa = bytes(rnd.randrange(256) for _ in range(8))
            pe = bytes(rnd.randrange(256) for _ in range(8))
            la = rnd.randrange(2)
            a = blake2s_concrete(d, key=key, digest_length=dl, leaf_length=ll, inner_length=il, salt=tuple(sa), personal=tuple(pe), last_node=la, **kw)
            b = hashlib.blake2s(d, key=key, digest_size=dl, leaf_size=ll, inner_size=il, salt=sa, person=pe, last_node=bool(la), **kw).digest()
            if a != b:
                raise Exception('spec model disagrees with hashlib')
            n += 1
    if blake2sp_concrete(b'').hex() != 'dd0e891776933f43c7d032b08a917e25741f8aa9a12c12e1cac8801500f2ca4f':
        raise Exception('spec model disagrees with the BLAKE2sp test vector')
    return n + 1
