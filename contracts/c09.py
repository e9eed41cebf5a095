"""Protection of secret keys, against RFC 4880 5.5.3: what is encrypted, and
what is accepted."""
from Crypto.Hash import SHA

from vc import bounded, harness, spec
from contracts import keys as K
from contracts.c04 import BLOCKS, mpi, number
from pgp import s2k, utils
from pgp.packets import packets as P

KEYS = {1: 16, 2: 24, 3: 16, 4: 16, 7: 16, 8: 24, 9: 32, 10: 32, 11: 16,
        12: 24, 13: 32}
S = P.SecretKeyPacket
VARIANTS = ['checksum', 'sha1', 'none']


def cfb(alg, key, iv, data, decrypt=False):
    """full-block CFB over any number of octets"""
    n = BLOCKS[alg]
    c = utils.get_symmetric_cipher(alg, bytes(key), utils.CFB, bytes(iv))
    padded = bytes(data) + bytes(-len(data) % n)
    return (c.decrypt if decrypt else c.encrypt)(padded)[:len(data)]


def ciphers(v):
    return v.choice('cipher', [2, 9] if v.symbolic else sorted(KEYS))


def check_octets(variant, data):
    if variant == 'checksum':
        return spec.be(sum(data) % 65536, 2)
    if variant == 'sha1':
        return SHA.new(data).digest()
    return b''


def flags(variant):
    return {'checksum': variant == 'checksum', 'hash_': variant == 'sha1'}


def given(v, variants=VARIANTS):
    alg = ciphers(v)
    key = v.bytes('key', KEYS[alg])
    iv = v.bytes('iv', BLOCKS[alg])
    return alg, key, iv, v.choice('variant', variants)


def values(v, counts=(1, 2, 4)):
    if v.symbolic:
        counts = counts[:2]
    return [number(v, 'value%d' % i)
            for i in range(v.choice('values', list(counts)))]


def mpis(vals):
    out = b''
    for x in vals:
        out = out + mpi(x)
    return out


@harness()
def version_4(v):
    """what is written, and that it is read again"""
    alg, key, iv, variant = given(v)
    vals = values(v)
    got = S.encrypt_key_values(4, vals, key, alg, iv, **flags(variant))
    plain = mpis(vals)
    want = cfb(alg, key, iv, plain + check_octets(variant, plain))
    v.check_eq('encrypted', bytes(got), want)
    again = S.decrypt_encrypted_key_portion(4, key, alg, iv, got,
                                            **flags(variant))
    v.check_eq('decrypted', list(again), vals)


@harness()
def four_values(v):
    """as RSA keys have them"""
    alg = 9
    key, iv = v.bytes('key', 32), v.bytes('iv', 16)
    variant = v.choice('variant', ['checksum', 'sha1'])
    vals = [number(v, 'value%d' % i) for i in range(4)]
    for x in vals:
        v.assume(x > 0)
    got = S.encrypt_key_values(4, vals, key, alg, iv, **flags(variant))
    plain = mpis(vals)
    v.check_eq('encrypted', bytes(got), cfb(
        alg, key, iv, plain + check_octets(variant, plain)))
    again = S.decrypt_encrypted_key_portion(4, key, alg, iv, got,
                                            **flags(variant))
    v.check_eq('decrypted', list(again), vals)


def v3_octets(alg, key, iv, vals, variant):
    """each value is encrypted apart, with the cipher resynchronised"""
    out = b''
    feedback = iv
    for x in vals:
        m = mpi(x)
        c = cfb(alg, key, feedback, m[2:])
        out = out + m[:2] + c
        feedback = (feedback + c)[len(c):]
    return out, feedback


@harness()
def version_3(v):
    alg, key, iv, variant = given(v, ['checksum', 'sha1'])
    version = v.choice('version', [2, 3])
    if v.symbolic:
        v.assume(alg == 9 or version == 3)
    vals = values(v, (1, 2, 4) if not v.symbolic else (1,))
    for x in vals:
        v.assume(variant == 'checksum' or x > 0)
    got = S.encrypt_key_values(version, vals, key, alg, iv, **flags(variant))
    c, feedback = v3_octets(alg, key, iv, vals, variant)
    check = check_octets(variant, mpis(vals))
    if variant == 'sha1':
        # (only the checksum is in the clear)
        check = cfb(alg, key, feedback, check)
    v.check_eq('encrypted', bytes(got), c + check)
    again = S.decrypt_encrypted_key_portion(version, key, alg, iv, got,
                                            **flags(variant))
    v.check_eq('decrypted', list(again), vals)


@harness()
def version_3_two_values(v):
    """the feedback from one value to the next"""
    key, iv = v.bytes('key', 32), v.bytes('iv', 16)
    vals = [number(v, 'value%d' % i) for i in range(2)]
    for x in vals:
        v.assume(x > 0)
    v.assume(vals[0] < 2 ** 2048 and vals[1] < 2 ** 64)
    got = S.encrypt_key_values(3, vals, key, 9, iv, checksum=True,
                               hash_=False)
    c, feedback = v3_octets(9, key, iv, vals, 'checksum')
    v.check_eq('encrypted', bytes(got),
               c + check_octets('checksum', mpis(vals)))
    again = S.decrypt_encrypted_key_portion(3, key, 9, iv, got,
                                            checksum=True, hash_=False)
    v.check_eq('decrypted', list(again), vals)


@harness()
def unprotected(v):
    """no cipher: octets as they are"""
    version = v.choice('version', [2, 3, 4])
    variant = v.choice('variant', VARIANTS)
    vals = values(v)
    got = S.encrypt_key_values(version, vals, b'', 0, None, **flags(variant))
    plain = mpis(vals)
    v.check_eq('octets', bytes(got), plain + check_octets(variant, plain))
    again = S.decrypt_encrypted_key_portion(version, b'', 0, None, got,
                                            **flags(variant))
    v.check_eq('read', list(again), vals)


NAMES = {1: ['exponent_d', 'prime_p', 'prime_q', 'multiplicative_inverse_u'],
         16: ['exponent_x'], 17: ['exponent_x'], 20: ['exponent_x']}
PUBLIC = {1: {'modulus': 3233, 'exponent': 17},
          16: {'prime': 23, 'group_generator': 5, 'key_value': 8},
          20: {'prime': 23, 'group_generator': 5, 'key_value': 8},
          17: {'prime': 23, 'group_order': 11, 'group_generator': 4,
               'key_value': 8}}


def of_values(v, version, number_, specifier):
    """packets made of secret values and a passphrase, written, read and
    opened with it"""
    cls = v.choice('class', [P.SecretKeyPacket, P.SecretSubkeyPacket])
    alg = 9 if v.symbolic else ciphers(v)
    iv = v.bytes('iv', BLOCKS[alg])
    word = v.bytes('passphrase', lo=1, hi=2 ** 31 if v.symbolic else 40)
    vals = dict((name, number(v, name)) for name in NAMES[number_])
    for name in NAMES[number_]:
        v.assume(vals[name] > 0)
    spc = None
    # Without a specifier there is a checksum
    variant = 'checksum'
    if specifier:
        spc = s2k.SaltedS2K(2 if v.symbolic else v.choice('hash', [1, 2, 8]),
                            alg, v.bytes('salt', 8))
        if version == 4:
            variant = v.choice('variant', ['checksum', 'sha1'])
    args = dict(PUBLIC[number_])
    if version < 4:
        args['expiration_days'] = 9
    pub = bytes(P.PublicKeyPacket(3, version, 1, number_, **args).content)
    args.update(vals)
    p = cls(3, version, 1, number_, s2k_specification=spc,
            symmetric_algorithm=alg, iv=iv, encrypted_portion=bytearray(),
            passphrase=word, **dict(flags(variant), **args))
    key = s2k.SimpleS2K(1, alg).to_key(word) if spc is None \
        else spc.to_key(word)
    plain = mpis([vals[name] for name in NAMES[number_]])
    if version == 4:
        secret = cfb(alg, key, iv, plain + check_octets(variant, plain))
    else:
        secret = v3_octets(alg, key, iv, [vals[name] for name in NAMES[
            number_]], variant)[0] + check_octets(variant, plain)
    head = spec.be(alg, 1)
    if spc is not None:
        head = (b'\xff' if variant == 'checksum' else b'\xfe') + head \
            + b'\x01' + spec.be(spc.hash_algorithm, 1) + spc.salt
    octets = bytes(p.content)
    v.check_eq('octets', octets, pub + head + iv + secret)
    got = cls.from_packet_content(3, p.type, bytearray(octets))
    for name in NAMES[number_]:
        v.check('closed', not getattr(got, name))
    got.decrypt(word)
    for name in NAMES[number_]:
        v.check_eq(name, getattr(got, name), vals[name])
    v.check_eq('again', bytes(got.content), octets)


@harness()
def packets_of_rsa_values(v):
    of_values(v, 4, 1, True)


@harness()
def packets_of_one_value(v):
    of_values(v, 4, v.choice('algorithm', [16, 17, 20]),
              v.choice('specifier', [True, False]))


@harness()
def packets_of_version_3(v):
    of_values(v, 3, 16, v.choice('specifier', [True, False]))


@harness()
def unprotected_packets(v):
    """no passphrase is needed"""
    version = v.choice('version', [3, 4])
    number_ = v.choice('algorithm', [1, 16, 17])
    cls = v.choice('class', [P.SecretKeyPacket, P.SecretSubkeyPacket])
    if v.symbolic:
        v.assume(number_ != 1 or (version == 4
                                  and cls is P.SecretSubkeyPacket))
    vals = dict((name, number(v, name)) for name in NAMES[number_])
    for name in NAMES[number_]:
        v.assume(vals[name] > 0)
    args = dict(PUBLIC[number_])
    if version < 4:
        args['expiration_days'] = 9
    pub = bytes(P.PublicKeyPacket(3, version, 1, number_, **args).content)
    args.update(vals)
    p = cls(3, version, 1, number_, symmetric_algorithm=0, checksum=True,
            hash_=False, encrypted_portion=bytearray(), **args)
    plain = mpis([vals[name] for name in NAMES[number_]])
    octets = bytes(p.content)
    v.check_eq('octets', octets, pub + b'\x00' + plain
               + check_octets('checksum', plain))
    got = cls.from_packet_content(3, p.type, bytearray(octets))
    got.decrypt(None)
    for name in NAMES[number_]:
        v.check_eq(name, getattr(got, name), vals[name])
    v.check_eq('again', bytes(got.content), octets)


@bounded(secs=3)
def other_packets(v):
    """RSA keys of version 2 and 3, and of version 4 without a specifier"""
    of_values(v, v.choice('version', [2, 3, 4]), 1,
              v.choice('specifier', [True, False]))


@harness()
def version_4_accepts(v):
    """every decrypted content: accepted exactly when the check matches"""
    alg, key, iv, variant = given(v, ['checksum', 'sha1'])
    vals = values(v, (1, 2))
    plain = mpis(vals)
    n = 2 if variant == 'checksum' else 20
    check = v.bytes('check', n)
    right = check_octets(variant, plain)
    if not v.symbolic and v.choice('near', [True, False]):
        i = v.choice('octet', n)
        right = bytes(right)
        check = right[:i] + bytes([right[i] ^ v.choice('bits', 256)]) \
            + right[i + 1:]
    data = cfb(alg, key, iv, plain + check)
    out = v.outcome(S.decrypt_encrypted_key_portion, 4, key, alg, iv, data,
                    **flags(variant))
    if out[0] == 'ok':
        v.check_eq('only if the check matches', check, right)
        v.check_eq('values', list(out[1]), vals)
    else:
        v.check('refused only if it does not', check != right)
        v.check_eq('as an error in the value', out[1], 'ValueError')


@harness()
def version_3_accepts(v):
    alg, key, iv, variant = given(v, ['checksum'])
    version = v.choice('version', [2, 3])
    if v.symbolic:
        v.assume(alg == 9 or version == 3)
    vals = values(v, (1, 2) if not v.symbolic else (1,))
    plain = mpis(vals)
    check = v.bytes('check', 2)
    right = check_octets(variant, plain)
    if not v.symbolic and v.choice('near', [True, False]):
        i = v.choice('octet', 2)
        right = bytes(right)
        check = right[:i] + bytes([right[i] ^ v.choice('bits', 256)]) \
            + right[i + 1:]
    data = v3_octets(alg, key, iv, vals, variant)[0] + check
    out = v.outcome(S.decrypt_encrypted_key_portion, version, key, alg, iv,
                    data, **flags(variant))
    if out[0] == 'ok':
        v.check_eq('only if the check matches', check, right)
        v.check_eq('values', list(out[1]), vals)
    else:
        v.check('refused only if it does not', check != right)
        v.check_eq('as an error in the value', out[1], 'ValueError')


CUT = ('pgp.packets.packets.SecretKeyPacket.decrypt_encrypted_key_portion',)


@harness(cut=CUT)
def version_4_contents(v):
    """any octets: values are returned only if the check matches them"""
    alg, key, iv, variant = given(v, ['checksum', 'sha1'])
    n = 2 if variant == 'checksum' else 20
    data = v.bytes('data', hi=2 ** 32 if v.symbolic else 300)
    if not v.symbolic and v.choice('made', [True, False]):
        data = cfb(alg, key, iv, data + check_octets(variant, data))
    plain = cfb(alg, key, iv, data, True)
    out = v.outcome(S.decrypt_encrypted_key_portion, 4, key, alg, iv,
                    bytearray(data), **flags(variant))
    if out[0] == 'ok':
        v.check('long enough', len(data) >= n)
        k = len(data) - n
        v.check_eq('only if the check matches', plain[k:],
                   check_octets(variant, plain[:k]))


@bounded(secs=4)
def tampered(v):
    """protected keys of 1 or 4 values with random octets altered, removed
    or added: refused, or (for checksums) the altered octets carry a matching
    checksum"""
    alg, key, iv, variant = given(v, ['checksum', 'sha1'])
    version = v.choice('version', [3, 4] if variant == 'checksum' else [4])
    vals = values(v, (1, 4))
    good = bytearray(S.encrypt_key_values(version, vals, key, alg, iv,
                                          **flags(variant)))
    data = bytearray(good)
    how = v.choice('how', ['flip', 'cut', 'add', 'key'])
    if how == 'flip':
        for i in range(v.choice('flips', [1, 2, 5])):
            data[v.choice('at%d' % i, len(data))] ^= 1 + v.choice(
                'bits%d' % i, 255)
    elif how == 'cut':
        del data[v.choice('cut', len(data)):]
    elif how == 'add':
        data.extend(v.bytes('more', lo=1, hi=20))
    else:
        key = v.bytes('other key', KEYS[alg])
    v.assume(data != good or how == 'key')
    out = v.outcome(S.decrypt_encrypted_key_portion, version, key, alg, iv,
                    data, **flags(variant))
    if out[0] == 'exc':
        v.check('refused', True)
        return
    if variant == 'sha1':
        v.check('accepted', how == 'key' and list(out[1]) == vals)
        return
    if version == 4:
        plain = cfb(alg, key, iv, bytes(data), True)
        v.check_eq('the checksum matches', plain[-2:],
                   check_octets(variant, plain[:-2]))
    else:
        v.check_eq('the checksum matches', bytes(data[-2:]), check_octets(
            variant, mpis(out[1])))
