from vc import bounded, contract, harness, rng, spec
from pgp.cipher import aidea
from pgp.cipher.aidea import AIDEA, mul, mul_inv


def as17(x):
    """a 16-bit word as an element of the multiplicative group mod 65537"""
    return 65536 if x == 0 else x


contract('pgp.cipher.aidea.mul', [rng(0, 65535), rng(0, 65535)], spec.mul16,
         low_bits=16, split_zero=True)
# of one word: decided by running it on every word
contract('pgp.cipher.aidea.mul_inv', [rng(0, 65535)], spec.inv16,
         exhaustive=True)


@harness()
def multiplication(v):
    x = 0 if v.bool('x_zero') else v.int('x', 1, 65535)
    y = 0 if v.bool('y_zero') else v.int('y', 1, 65535)
    # Euclid's lemma for the prime 65537, which divides neither factor: every
    # word has an inverse ('inverse', exhaustively), so no product vanishes
    v.assume(as17(x) * as17(y) % 65537 != 0)
    v.check_eq('product', as17(mul(x, y) & 0xffff), as17(x) * as17(y) % 65537)


@bounded(secs=60, once=True, exhaustive=True)
def inverse(v):
    """all 65536 words"""
    for x in range(65536):
        i = mul_inv(x)
        if not (0 <= i <= 65535 and as17(x) * as17(i) % 65537 == 1):
            v.check_eq('inverse of %d' % x, i, spec.inv16(x))
    v.check('every inverse', True)


@bounded(secs=60, once=True, exhaustive=True)
def products(v):
    """every word times every boundary word, both ways round"""
    edge = [0, 1, 2, 3, 255, 256, 257, 0x7fff, 0x8000, 0x8001, 0xfffe, 0xffff]
    for x in range(65536):
        for y in edge:
            for a, b in ((x, y), (y, x)):
                if as17(mul(a, b) & 0xffff) != as17(a) * as17(b) % 65537:
                    v.check_eq('%d * %d' % (a, b), mul(a, b) & 0xffff,
                               as17(a) * as17(b) % 65537)
    v.check('every product', True)


# the published algorithm (Lai & Massey), independent of the code

def times(x, y):
    return spec.mul16(x, y)


def subkeys(key):
    """eight 16-bit words at a time, rotating the key left by 25 bits"""
    k = int.from_bytes(key, 'big')
    out = []
    while len(out) < 52:
        out += [(k >> (112 - 16 * i)) & 0xffff for i in range(8)]
        k = ((k << 25) | (k >> 103)) & (2 ** 128 - 1)
    return out[:52]


def idea(z, block):
    x1, x2, x3, x4 = [int.from_bytes(block[i:i + 2], 'big')
                      for i in (0, 2, 4, 6)]
    for r in range(8):
        k = z[6 * r:6 * r + 6]
        a, b = times(x1, k[0]), (x2 + k[1]) % 65536
        c, d = (x3 + k[2]) % 65536, times(x4, k[3])
        e = times(a ^ c, k[4])
        f = times((e + (b ^ d)) % 65536, k[5])
        g = (e + f) % 65536
        x1, x2, x3, x4 = a ^ f, c ^ f, b ^ g, d ^ g
    k = z[48:]
    return b''.join(w.to_bytes(2, 'big') for w in (
        times(x1, k[0]), (x3 + k[1]) % 65536, (x2 + k[2]) % 65536,
        times(x4, k[3])))


@harness(bv=True)
def schedule(v):
    """the subkeys are those published"""
    key = v.bytes('key', 16)
    v.check_eq('subkeys', list(AIDEA(key).encryption_key_table),
               subkeys(key))


@harness(bv=True, secs=4)
def encryption(v):
    """every key and block against the published algorithm"""
    key = v.bytes('key', 16)
    block = v.bytes('block', 8)
    v.check_eq('encryption', AIDEA(key).encrypt(block),
               idea(subkeys(key), block))


@harness(bv=True, secs=4)
def decryption(v):
    """decryption inverts encryption"""
    key = v.bytes('key', 16)
    block = v.bytes('block', 8)
    c = AIDEA(key)
    v.check_eq('inverts encryption', c.decrypt(c.encrypt(block)), block)


@harness(bv=True, secs=4)
def encryption_back(v):
    """encryption inverts decryption"""
    key = v.bytes('key', 16)
    block = v.bytes('block', 8)
    c = AIDEA(key)
    v.check_eq('inverts decryption', c.encrypt(c.decrypt(block)), block)


@bounded(secs=2)
def module(v):
    """as a cipher module"""
    key = v.bytes('key', 16)
    block = v.bytes('block', 8)
    c = AIDEA(key)
    out = c.encrypt(block)
    m = aidea.new(key)
    v.check_eq('encrypting', m.encrypt(block), out)
    v.check_eq('decrypting', m.decrypt(out), block)


@bounded(secs=2)
def vectors(v):
    """the published test vectors"""
    for key, plain, enc in (
            ('00010002000300040005000600070008', '0000000100020003',
             '11fbed2b01986de5'),
            ('80000000000000000000000000000000', '0000000000000000',
             'b1f5f7f87901370f'),
            ('00000000000000000000000000000000', '8000000000000000',
             '8001000180008000')):
        c = AIDEA(bytes.fromhex(key))
        v.check_eq('encryption', c.encrypt(bytes.fromhex(plain)),
                   bytes.fromhex(enc))
        v.check_eq('decryption', c.decrypt(bytes.fromhex(enc)),
                   bytes.fromhex(plain))
