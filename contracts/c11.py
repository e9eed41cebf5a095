"""Session keys wrapped for public keys and passphrases, against RFC 4880 5.1
and 5.3."""
from Crypto.Cipher.PKCS1_v1_5 import PKCS115_Cipher
from Crypto.Hash import MD5

from vc import bounded, harness, spec
from contracts import keys as K
from contracts.c04 import BLOCKS, mpi
from contracts.c09 import KEYS, cfb
from pgp import message as M
from pgp import s2k
from pgp import utils
from pgp.packets import packets as P

PK = P.PublicKeyEncryptedSessionKeyPacket
SK = P.SymmetricKeyEncryptedSessionKeyPacket
RSA = [1, 2, 3]
CUT = ('pgp.packets.packets.non_zero_rand_byte.__call__',)


def numbers(v, alg):
    """public and private values, in the order PyCrypto has them; and the
    length of the modulus"""
    if v.symbolic:
        n = v.nat('n')
        k = spec.cdiv(spec.bitlen(n), 8)
        v.assume(512 <= spec.bitlen(n) and spec.bitlen(n) <= 16384)
        a, b = v.nat('a'), v.nat('b')
        if alg in RSA:
            c, d = v.nat('c'), v.nat('d')
            return (n, a), (n, a, b, c, d, v.nat('e')), k
        return (n, a, b), (n, a, b, v.nat('c')), k
    if alg in RSA:
        r = K.NUMBERS[v.choice('key', ['rsa', 'rsa2'])]
        return ((r['n'], r['e']), tuple(r[i] for i in 'nedpqu'),
                (r['n'].bit_length() + 7) // 8)
    r = K.NUMBERS['elg']
    return ((r['p'], r['g'], r['y']), tuple(r[i] for i in 'pgyx'),
            (r['p'].bit_length() + 7) // 8)


def pair(v, alg):
    public, private, k = numbers(v, alg)
    make = utils.get_public_key_constructor(alg)
    return make(public), make(private), k


def pkcs1_ciphertext(alg, key, m):
    """octets of the packet for an encoded message"""
    if alg in RSA:
        return mpi(spec.ival(PKCS115_Cipher(key).encrypt(m)))
    a, b = P.PKCS115_ElGamal_Cipher(key).encrypt(m)
    return mpi(spec.ival(a)) + mpi(spec.ival(b))


def rsa_plain(key, k, enc):
    """what RFC 4880 5.1 has in the multiprecision integer"""
    n = spec.cdiv(spec.ival(enc[:2]), 8)
    value = spec.ival(enc[2:2 + n])
    sentinel = b'none'
    return len(enc) == 2 + n and PKCS115_Cipher(key).decrypt(
        spec.be(value, k), sentinel)


def encoded(alg, key):
    return spec.be(alg, 1) + key + spec.be(sum(key) % 65536, 2)


def session(v):
    alg = v.choice('cipher', [1, 2, 9] if v.symbolic else sorted(KEYS))
    return alg, v.bytes('session key', KEYS[alg])


@harness()
def rsa_wrap(v):
    alg = v.choice('algorithm', RSA)
    public, private, k = pair(v, alg)
    cipher, key = session(v)
    enc = bytes(PK._get_encrypted_key(alg, public, cipher, key))
    v.check_eq('one number', rsa_plain(private, k, enc),
               encoded(cipher, key))
    again = PK._get_key_and_cipher_algo(alg, private, bytearray(enc))
    v.check_eq('unwrapped', (again[0], bytes(again[1])), (cipher, key))


@harness(cut=CUT)
def elgamal_wrap(v):
    public, private, k = pair(v, 16)
    cipher, key = session(v)
    enc = bytes(PK._get_encrypted_key(16, public, cipher, key))
    n = spec.cdiv(spec.ival(enc[:2]), 8)
    v.check('two numbers', len(enc) == 4 + n + spec.cdiv(
        spec.ival(enc[2 + n:4 + n]), 8))
    if not v.symbolic:
        v.check('not with the secret number 0', enc[:3] != b'\x00\x01\x01')
        more = bytes(PK._get_encrypted_key(16, public, cipher, key))
        v.check('a fresh secret number each time',
                more[:2 + n] != enc[:2 + n])
        a = spec.ival(enc[2:2 + n])
        b = spec.ival(enc[4 + n:])
        p, x = K.ELG_KEY['p'], K.ELG_KEY['x']
        m = spec.be(b * pow(a, p - 1 - x, p) % p, k)
        v.check_eq('padding', m[:2], b'\x00\x02')
        i = m.index(b'\x00', 2)
        v.check_eq('content', m[i + 1:], encoded(cipher, key))
    again = PK._get_key_and_cipher_algo(16, private, bytearray(enc))
    v.check_eq('unwrapped', (again[0], bytes(again[1])), (cipher, key))


def outcome_matches(v, out, m):
    if len(m) < 3:
        v.check_eq('too short', out, ('exc', 'ValueError'))
    elif spec.be(sum(m[1:len(m) - 2]) % 65536, 2) == m[len(m) - 2:]:
        v.check_eq('accepted', out[0], 'ok')
        if out[0] == 'ok':
            v.check_eq('content', (out[1][0], bytes(out[1][1])),
                       (m[0], m[1:len(m) - 2]))
    else:
        v.check_eq('checksum', out, ('exc', 'ValueError'))


def contents(v, k):
    """encoded messages, with right and wrong checksums"""
    m = v.bytes('content', hi=2048 if v.symbolic else 50)
    v.assume(len(m) <= k - 11)
    if not v.symbolic:
        how = v.choice('how', ['any', 'right', 'near'])
        if how != 'any':
            m = encoded(v.choice('cipher', 14), m[:40])
        if how == 'near':
            m = bytearray(m)
            m[v.choice('at', len(m))] ^= 1 << v.choice('bit', 8)
            m = bytes(m)
    return m


@harness()
def rsa_unwrap(v):
    """every content: accepted exactly when the checksum matches"""
    alg = v.choice('algorithm', RSA)
    public, private, k = pair(v, alg)
    m = contents(v, k)
    enc = pkcs1_ciphertext(alg, public, m)
    outcome_matches(v, v.outcome(PK._get_key_and_cipher_algo, alg, private,
                                 bytearray(enc)), m)


@harness(cut=CUT)
def elgamal_unwrap(v):
    public, private, k = pair(v, 16)
    m = contents(v, k)
    enc = pkcs1_ciphertext(16, public, m)
    outcome_matches(v, v.outcome(PK._get_key_and_cipher_algo, 16, private,
                                 bytearray(enc)), m)


class Plain(object):
    """stands for every ElGamal key and ciphertext: the plaintext may be any
    octets shorter than the prime"""

    def __init__(self, p, octets):
        self.p = p
        self.octets = octets

    def decrypt(self, ciphertext):
        return self.octets


@harness()
def elgamal_padding(v):
    """every plaintext: RFC 3447 7.2.2, "00 02", at least eight octets of
    padding, "00" and the message"""
    k = v.choice('octets of the prime', [64, 128, 257])
    m = v.bytes('plaintext', hi=k)
    if not v.symbolic:
        n = v.choice('padding', 16)
        cut = k - v.choice('leading', [0, 1, 1, 1, 1, 2, k])
        m = (b'\x02' + b'\x07' * n + b'\x00' + m + bytes(k))[:cut]
    em = bytes(k - len(m)) + m
    got = P.PKCS115_ElGamal_Cipher(Plain(
        (1 << 8 * k - 1) + 1, m)).decrypt(None, None)
    i = em.find(b'\x00', 2)
    if em[:2] != b'\x00\x02' or i < 10:
        v.check('refused', got is None)
    else:
        v.check_eq('message', got, em[i + 1:])


@harness()
def rsa_any(v):
    """every number below the modulus"""
    public, private, k = pair(v, 1)
    c = v.nat('ciphertext')
    v.assume(c < public.n)
    v.assume(c >= 1)
    enc = mpi(c)
    m = rsa_plain(private, k, enc)
    out = v.outcome(PK._get_key_and_cipher_algo, 1, private, bytearray(enc))
    if m == b'none':
        v.check_eq('padding', out, ('exc', 'ValueError'))
    else:
        outcome_matches(v, out, m)


# ---------------------------------------------------------- passphrases

class AnyS2K(object):
    """stands for every specifier: the derived key may be any (C12 is about
    which it is)"""

    def __init__(self, symmetric_algorithm, key):
        self.symmetric_algorithm = symmetric_algorithm
        self.key = key

    def to_key(self, passphrase):
        return self.key


def kek(v):
    alg = v.choice('kek cipher', [2, 9] if v.symbolic else sorted(KEYS))
    return alg, v.bytes('kek', KEYS[alg])


@harness()
def passphrase_wrap(v):
    outer, derived = kek(v)
    cipher, key = session(v)
    s = AnyS2K(outer, derived)
    enc = bytes(SK._get_encrypted_key(s, cipher, b'', key))
    v.check_eq('encrypted', enc, cfb(outer, derived, bytes(BLOCKS[outer]),
                                     spec.be(cipher, 1) + key))
    again = SK._get_key_and_cipher_algo(s, outer, b'', bytearray(enc))
    v.check_eq('unwrapped', (again[0], bytes(again[1])), (cipher, key))


@harness()
def passphrase_direct(v):
    """no wrapped key: the derived one"""
    outer, derived = kek(v)
    got = SK._get_key_and_cipher_algo(AnyS2K(outer, derived), outer, b'',
                                      v.choice('none', [None, bytearray()]))
    v.check_eq('derived', (got[0], bytes(got[1])), (outer, derived))


@harness()
def passphrase_unwrap(v):
    """every wrapped content: returned when it is a cipher and a key of its
    length, refused otherwise"""
    outer, derived = kek(v)
    m = v.bytes('content', lo=1, hi=40)
    if not v.symbolic and v.choice('likely', [True, False]):
        cipher, key = session(v)
        m = spec.be(cipher, 1) + key
    enc = cfb(outer, derived, bytes(BLOCKS[outer]), m)
    out = v.outcome(SK._get_key_and_cipher_algo, AnyS2K(outer, derived),
                    outer, b'', bytearray(enc))
    sizes = {16: [1, 3, 4, 7, 11], 24: [2, 8, 12], 32: [9, 10, 13], 0: [0]}
    fits = False
    for n in sorted(sizes):
        if len(m) == n + 1:
            for a in sizes[n]:
                if m[0] == a:
                    fits = True
    if fits:
        v.check_eq('accepted', out[0], 'ok')
        if out[0] == 'ok':
            v.check_eq('content', (out[1][0], bytes(out[1][1])),
                       (m[0], m[1:]))
    else:
        v.check_eq('refused', out, ('exc', 'ValueError'))


# -------------------------------------------------------------- objects

def through_octets(obj):
    """what the packet written for it is read as"""
    p = obj.to_packet()
    again = type(p).from_packet_content(p.header_format, p.type,
                                        bytearray(p.content))
    return p, type(obj).from_packet(again)


@harness(cut=CUT, budget=260)
def recipients(v):
    """session key objects for keys of every algorithm"""
    which = v.choice('key', ['rsa', 'elg'])
    alg = v.choice('algorithm', RSA) if which == 'rsa' else 16
    hide = v.choice('hide', [True, False])
    secret = K.secret(which, algorithm=alg)
    cipher, key = session(v)
    obj = M.PublicKeySessionKey(3, public_key=K.public(which, algorithm=alg),
                                symmetric_algorithm=cipher, session_key=key,
                                hide_key_id=hide)
    p, again = through_octets(obj)
    v.check_eq('recipient', bytes(p.content[:10]), b'\x03' + (
        bytes(8) if hide else utils.hex_to_bytes(secret.key_id, 8))
        + spec.be(alg, 1))
    v.check('for the key', again.is_for(secret))
    got = again.get_algorithm_and_session_key(secret)
    v.check_eq('session key', (got[0], bytes(got[1])), (cipher, key))


@harness()
def passphrases(v):
    """session key objects for passphrases, the session key for another
    cipher than the one which wraps it"""
    outer = v.choice('outer', [2, 9] if v.symbolic else sorted(KEYS))
    cipher, key = session(v)
    word = v.bytes('passphrase', lo=1, hi=2 ** 31 if v.symbolic else 40)
    kind = 0 if v.symbolic else v.choice('kind', [0, 1, 3])
    salt = b'' if v.symbolic else v.bytes('salt', 8)
    spec_ = s2k.S2K_TYPES[kind](hash_algorithm=2, symmetric_algorithm=outer,
                                salt=salt, count=1024)
    obj = M.SymmetricSessionKey(cipher, spec_, passphrase=word,
                                session_key=key)
    p, again = through_octets(obj)
    v.check_eq('packet', bytes(p.content[:2]), b'\x04' + spec.be(outer, 1))
    got = again.get_algorithm_and_session_key(word)
    v.check_eq('session key', (got[0], bytes(got[1])), (cipher, key))
    v.check_eq('without octets', obj.get_algorithm_and_session_key(word)[0],
               cipher)


@bounded(secs=6)
def altered(v):
    """wrapped session keys of 1024-bit RSA and 512-bit ElGamal keys with
    random octets altered, or opened with another key: refused, or (for
    altered padding) content with its checksum"""
    which = v.choice('key', ['rsa', 'elg'])
    alg = 1 if which == 'rsa' else 16
    secret = K.secret(which, algorithm=alg)
    cipher, key = session(v)
    enc = PK._get_encrypted_key(alg, K.public(which, algorithm=alg)
                                ._get_key_obj(), cipher, key)
    if which == 'rsa' and v.choice('other key', [True, False]):
        secret = K.secret('rsa2')
    else:
        at = v.choice('at', range(2, len(enc)))
        n = spec.cdiv(spec.ival(bytes(enc[:2])), 8)
        v.assume(at not in (2 + n, 3 + n))
        enc[at] ^= 1 << v.choice('bit', 8)
    out = v.outcome(PK._get_key_and_cipher_algo, alg, secret._get_key_obj(),
                    enc)
    v.check('refused', out[0] == 'exc')


@bounded(secs=8)
def several(v):
    """messages for up to three keys and passphrases: each opens them"""
    text = v.bytes('text', hi=40)
    secrets = []
    objs = []
    cipher, key = session(v)
    for i in range(v.choice('recipients', [1, 2, 3])):
        which = v.choice('which%d' % i, ['rsa', 'rsa2', 'elg', 'word'])
        if which == 'word':
            word = v.bytes('word%d' % i, lo=1, hi=20)
            objs.append(M.SymmetricSessionKey(
                cipher, s2k.SaltedS2K(8, 7, v.bytes('salt%d' % i, 8)),
                passphrase=word, session_key=key))
            secrets.append(word)
        else:
            alg = 16 if which == 'elg' else 1
            objs.append(M.PublicKeySessionKey(
                3, public_key=K.public(which, algorithm=alg),
                symmetric_algorithm=cipher, session_key=key,
                hide_key_id=v.choice('hide%d' % i, [True, False])))
            secrets.append(K.secret(which, algorithm=alg))
    data = M.SymmetricallyEncryptedMessageData(
        cipher, key, b''.join(bytes(p) for p in M.BinaryMessage(
            text, u'', __import__('datetime').datetime(2000, 1, 1))
            .to_packets()), integrity_protected=True, version=1)
    octets = b''.join(bytes(p) for p in M.EncryptedMessageWrapper(
        objs, data).to_packets())
    pkts = []
    offset = 0
    while offset < len(octets):
        offset, p = P.packet_from_packet_data(bytearray(octets), offset)
        pkts.append(p)
    msg = M.open_pgp_message_from_packets(pkts)
    got = msg.get_message(v.choice('opened by', secrets))
    v.check_eq('content', bytes(got.data), text)


@harness()
def without_packet(v):
    """the data packet alone: the key of IDEA is the passphrase's MD5"""
    word = v.bytes('passphrase', hi=2 ** 31 if v.symbolic else 200)
    k = M.DefaultSessionKey()
    v.check('for a passphrase', k.is_for(word))
    v.check('for no key', not k.is_for(None))
    h = MD5.new()
    h.update(word)
    v.check_eq('key', k.get_algorithm_and_session_key(word), (1, h.digest()))
