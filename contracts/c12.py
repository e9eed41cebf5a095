import math

from Crypto.Hash import MD5, RIPEMD, SHA, SHA224, SHA256, SHA384, SHA512

from vc import bounded, harness, spec
from pgp import s2k, utils
from pgp.packets import packets

# RFC 4880 9.4 and 9.2 (draft-ietf-openpgp-camellia for 11-13)
HASHES = {1: MD5, 2: SHA, 3: RIPEMD, 8: SHA256, 9: SHA384, 10: SHA512,
          11: SHA224}
SIZES = {1: 16, 2: 20, 3: 20, 8: 32, 9: 48, 10: 64, 11: 28}
KEYS = {1: 16, 2: 24, 3: 16, 4: 16, 7: 16, 8: 24, 9: 32, 10: 32, 11: 16,
        12: 24, 13: 32}


def digest(alg, data):
    return bytes(HASHES[alg].new(data).digest())


def rfc_key(alg, n, data):
    """RFC 4880 3.7.1: contexts preloaded with 0, 1, 2 ... zero octets"""
    key = b''
    i = 0
    while i * SIZES[alg] < n:
        key = key + digest(alg, bytes(i) + data)
        i = i + 1
    return key[:n]


def kinds(v):
    alg = v.choice('hash', sorted(HASHES))
    cipher = v.choice('cipher', sorted(KEYS))
    return alg, cipher


@harness()
def simple(v):
    alg, cipher = kinds(v)
    word = v.bytes('passphrase', hi=2 ** 40)
    key = s2k.SimpleS2K(alg, cipher).to_key(word)
    v.check_eq('key', bytes(key), rfc_key(alg, KEYS[cipher], word))
    v.check_eq('key length', len(key), KEYS[cipher])


@harness()
def salted(v):
    alg, cipher = kinds(v)
    word = v.bytes('passphrase', hi=2 ** 40)
    salt = v.bytes('salt', 8)
    key = s2k.SaltedS2K(alg, cipher, bytearray(salt)).to_key(word)
    v.check_eq('key', bytes(key), rfc_key(alg, KEYS[cipher], salt + word))


@harness()
def specifier(v):
    """every specifier is read wherever it stands and written as it was"""
    kind = v.choice('kind', [0, 1, 3])
    alg = v.int('hash', 0, 255)
    cipher = v.int('cipher', 0, 255)
    salt = v.bytes('salt', 8)
    c = v.choice('c', 256) if kind == 3 else 0
    raw = spec.be(kind, 1) + spec.be(alg, 1)
    if kind:
        raw = raw + salt
    if kind == 3:
        raw = raw + spec.be(c, 1)
    pre = v.bytes('pre')
    post = v.bytes('post')
    s, off = s2k.parse_s2k_bytes(cipher, bytearray(pre + raw + post),
                                 len(pre))
    v.check_eq('stops at the end', off, len(pre) + len(raw))
    v.check_eq('hash algorithm', s.hash_algorithm, alg)
    v.check_eq('cipher', s.symmetric_algorithm, cipher)
    if kind:
        v.check_eq('salt', bytes(s.salt), salt)
    if kind == 3:
        v.check_eq('octet count', s.count, (16 + c % 16) * 2 ** (c // 16 + 6))
    v.check_eq('octets', bytes(s), raw)


@bounded(secs=60, once=True, exhaustive=True)
def coded_count(v):
    """all 256 coded counts, and every other count from 0 to 70000, around
    every coded one, and around the ends"""
    good = {}
    for c in range(256):
        n = utils.s2k_count_to_int(c)
        v.check_eq('count of %d' % c, n, (16 + (c & 15)) << ((c >> 4) + 6))
        v.check_eq('octet of %d' % n, bytes(utils.int_to_s2k_count(n)),
                   bytes([c]))
        good[n] = c
    for n in list(range(70000)) + [g + d for g in good
                                   for d in (-2, -1, 1, 2)] + [
            2 ** 26, 2 ** 30, 65011713, 10 ** 12]:
        if n not in good:
            v.check_eq('refuses %d' % n, v.outcome(utils.int_to_s2k_count,
                                                   n)[0], 'exc')


@bounded(secs=60, once=True, exhaustive=True)
def logarithms(v):
    """the assumed model of floor(math.log(x, 2)): next to every power of two
    up to 2**26 and on every 97th integer between"""
    def check(x):
        if 1 <= x <= 2 ** 26:
            v.check_eq('floor(log2 %d)' % x, int(math.floor(math.log(x, 2))),
                       x.bit_length() - 1)
    for k in range(27):
        for d in range(-3, 4):
            check(2 ** k + d)
    for x in range(1, 2 ** 26, 97):
        check(x)


@bounded(secs=8)
def iterated(v):
    """passphrases up to 9000 octets, all hashes, all ciphers; counts up to
    2^21 (as coded counts, and arbitrary ones)"""
    alg, cipher = kinds(v)
    word = v.bytes('passphrase')
    salt = v.bytes('salt', 8)
    if v.bool('any_count'):
        n = v.int('count', 1, 40000)
    else:
        c = v.int('c', 0, 0xa7 if v.int('big', 0, 9) == 0 else 0x40)
        n = (16 + (c & 15)) << ((c >> 4) + 6)
    unit = salt + word
    total = max(n, len(unit))
    data = (unit * (total // len(unit) + 1))[:total]
    s = s2k.IteratedAndSaltedS2K(alg, cipher, bytearray(salt), n)
    v.check_eq('key', bytes(s.to_key(word)),
               rfc_key(alg, KEYS[cipher], data))


@harness(native=False)
def iterated_any_passphrase(v):
    alg = v.choice('hash', [1, 2, 10])
    cipher = v.choice('cipher', [7, 2, 9])
    word = v.bytes('passphrase', hi=2 ** 40)
    salt = v.bytes('salt', 8)
    n = v.int('count', 1, 65011712)
    unit = salt + word
    total = max(n, len(unit))
    s = s2k.IteratedAndSaltedS2K(alg, cipher, bytearray(salt), n)
    v.check_eq('key', bytes(s.to_key(word)),
               rfc_key(alg, KEYS[cipher], spec.cycle(unit, total)))


@bounded(secs=2)
def legacy(v):
    """passphrase to key of secret keys protected without a specifier: the MD5
    of the passphrase (RFC 4880 3.7.2.1); passphrases to 9000 octets"""
    word = v.bytes('passphrase')
    key = s2k.SimpleS2K(1, v.choice('cipher', sorted(KEYS)))
    n = KEYS[key.symmetric_algorithm]
    v.check_eq('key', bytes(key.to_key(word)), rfc_key(1, n, word))
