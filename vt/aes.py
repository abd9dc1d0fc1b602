"""AES in Python, to choose inputs that make something special happen inside (never to judge an answer)."""
def _tables():
    def mul(a, b):
        r = 0
        while b:
            if b & 1:
                r ^= a
            a = (a << 1) ^ (0x11B if a & 0x80 else 0)
            b >>= 1
        return r
    s = []
    for x in range(256):
        i = next((y for y in range(256) if mul(x, y) == 1), 0)
        v = 0x63
        for k in range(5):
            v ^= ((i << k) | (i >> (8 - k))) & 255
        s.append(v)
    m = {k: [mul(k, x) for x in range(256)] for k in (2, 3, 9, 11, 13, 14)}
    return s, m


S, M = _tables()
IS = [S.index(x) for x in range(256)]
RCON = [0, 1, 2, 4, 8, 16, 32, 64, 128, 27, 54]


def xor(a, b):
    return bytes(x ^ y for x, y in zip(a, b))


def _f(i, nk, w):
    if i % nk == 0:
        return bytes([S[w[1]] ^ RCON[i // nk], S[w[2]], S[w[3]], S[w[0]]])
    return bytes(S[x] for x in w) if nk == 8 and i % 8 == 4 else w


def key_from(words, at, nk):
    """the key in whose expansion the nk words stand from place `at` on"""
    w = dict(zip(range(at, at + nk), words))
    for i in range(at + nk - 1, nk - 1, -1):
        if i - nk not in w:
            w[i - nk] = xor(w[i], _f(i, nk, w[i - 1]))
    return b"".join(w[i] for i in range(nk))


def expand(key):
    nk = len(key) // 4
    w = [key[4 * i:4 * i + 4] for i in range(nk)]
    for i in range(nk, 4 * (nk + 7)):
        w.append(xor(w[i - nk], _f(i, nk, w[i - 1])))
    return [b"".join(w[4 * i:4 * i + 4]) for i in range(nk + 7)]


def _mix(s, c):
    o = bytearray()
    for j in range(0, 16, 4):
        for i in range(4):
            v = 0
            for k in range(4):
                m, x = c[k], s[j + (i + k) % 4]
                v ^= x if m == 1 else M[m][x]
            o.append(v)
    return bytes(o)


def mc(s):
    return _mix(s, (2, 3, 1, 1))


def imc(s):
    return _mix(s, (14, 11, 13, 9))


def sub_shift(s):
    return bytes(S[s[(i + 4 * (i % 4)) % 16]] for i in range(16))


def inv_sub_shift(s):
    return bytes(IS[s[(i - 4 * (i % 4)) % 16]] for i in range(16))


def plain_for(rk, r, state):
    """the plaintext whose encryption has `state` after r rounds (0: after the first key; the last round is none of them)"""
    s = state
    for i in range(r, 0, -1):
        s = inv_sub_shift(imc(xor(s, rk[i])))
    return xor(s, rk[0])


def cipher_for(rk, r, state):
    """the ciphertext whose decryption has `state` after r rounds of the equivalent inverse cipher"""
    n = len(rk) - 1
    s = state
    for i in range(r, 0, -1):
        s = sub_shift(mc(xor(s, imc(rk[n - i]))))
    return xor(s, rk[n])
