"""Transferable keys: RFC 4880 11.1 and 11.2."""
import itertools
import re

from vc import bounded, harness, spec
from contracts import keys as K
from contracts.c04 import mpi
from contracts.c06 import attribute, small_key, subpacket_length
from pgp import exceptions
from pgp import transferrable_keys as T
from pgp.packets import constants
from pgp.packets import packets as P

NEW = constants.NEW_PACKET_HEADER_TYPE
OLD = constants.OLD_PACKET_HEADER_TYPE

# one letter for each kind of packet
LETTERS = 'KUASTRDBVC' + 'osklx'
CERTIFICATIONS = [0x10, 0x11, 0x12, 0x13, 0x30]
#: the order of the diagrams of 11.1: revocations and signatures on the key,
#: user IDs, attributes, subkeys; trust packets follow signatures
STRICT = re.compile(r'K([RD]T*)*(U(CT*)*)*(A(CT*)*)*(S(BT*)+(VT*)*)*\Z')
#: user IDs and user attributes "may be freely intermixed"
ORDER = re.compile(r'K([RD]T*)*([UA](CT*)*)*(S(BT*)+(VT*)*)*\Z')
STRICT_3 = re.compile(r'K([RD]T*)*(U(CT*)*)*\Z')
ORDER_3 = re.compile(r'K([RD]T*)*([UA](CT*)*)*\Z')


def sig_body(st, n=0):
    return (b'\x04' + spec.be(st, 1) + b'\x01\x02\x00\x00\x00\x00'
            + spec.be(n % 65536, 2) + K.mpi(1))


def make(letter, n, secret, version):
    """the packet; n makes it distinguishable"""
    def packet(tag, body):
        return P.PACKET_TYPES[tag].from_packet_content(
            NEW, tag, bytearray(body))
    if letter in 'Kk':
        if secret == (letter == 'K'):
            return packet(5, K.secret_body('rsa', version))
        return packet(6, K.public_body('rsa', version))
    if letter in 'Ss':
        if secret == (letter == 'S'):
            return packet(7, K.secret_body('elg', created=n, algorithm=16))
        return packet(14, K.public_body('elg', created=n, algorithm=16))
    if letter == 'U':
        return packet(13, b'user %d' % n)
    if letter == 'A':
        return packet(17, b'\x05\x65' + spec.be(n, 4))
    if letter == 'T':
        return packet(12, b'\x01' + spec.be(n % 256, 1))
    if letter == 'l':
        return packet(11, b'b\x00\x00\x00\x00\x00')
    if letter == 'x':
        return packet(10, b'PGP')
    st = {'R': 0x20, 'D': 0x1f, 'B': 0x18, 'V': 0x28,
          'o': [0, 1, 2, 0x19, 0x40, 0x50, 0x14][n % 7],
          'C': CERTIFICATIONS[n % 5]}[letter]
    return packet(2, sig_body(st, n))


CACHE = {}


def cached(letter, n, secret, version):
    k = (letter, n, secret, version)
    if k not in CACHE:
        CACHE[k] = make(*k)
    return CACHE[k]


CLASSES = [T.TransferablePublicKey, T.TransferableSecretKey]


def parts(key):
    """what a key is composed of, in order"""
    out = [('K', key)] + [('sig', s, key) for s in key.signatures]
    for letter, items in (('U', key.user_ids), ('A', key.user_attributes),
                          ('S', key.subkeys)):
        for x in items:
            out.append((letter, x))
            out.extend(('sig', s, x) for s in x.signatures)
    return out


def attached(v, word, packets, key):
    """every component has the signatures which followed it"""
    kept = [(w, p) for w, p in zip(word, packets) if w != 'T']
    got = parts(key)
    v.check_eq('components', [x[0] for x in got],
               ['sig' if w in 'RDBVCo' else w for w, p in kept])
    owner = None
    for (w, p), x in zip(kept, got):
        if x[0] == 'sig':
            v.check('signature belongs to the component it followed',
                    x[1].parent is owner and x[2] is owner)
        else:
            owner = x[1]
            if x[0] != 'K':
                v.check('component belongs to the key',
                        owner.primary_public_key is key)
    back = key.to_packets()
    v.check_eq('packet types', [p.type for p in back],
               [p.type for w, p in kept])
    for (w, p), q in zip(kept, back):
        v.check_eq('header format', q.header_format, p.header_format)
        v.check('packet', spec.eqbytes(q.content, p.content))


def decide(v, word, secret, version, n0=0):
    if 'skip' in word:
        return
    packets = [cached(x, n0 + i, secret, version)
               for i, x in enumerate(word)]
    error = key = None
    try:
        key = CLASSES[secret].from_packets(packets)
    except exceptions.InvalidKey as e:
        error = e
    strict, order = (STRICT, ORDER) if version == 4 else (STRICT_3, ORDER_3)
    if not order.match(word):
        v.check_eq('refused', (word, error is None), (word, False))
    elif strict.match(word):
        v.check_eq('accepted', (word, error is None), (word, True))
    if key is not None and order.match(word) and strict.match(word):
        attached(v, word, packets, key)


def words(n):
    for k in range(n + 1):
        for w in itertools.product(LETTERS, repeat=k):
            yield ''.join(w)


@bounded(secs=100, once=True, exhaustive=True)
def orders(v):
    """every sequence of up to 3 packets of 15 kinds, and every sequence of
    up to 6 of the kinds allowed that begins with a key packet"""
    for w in words(3):
        for secret in (False, True):
            decide(v, w, secret, 4, sum(map(ord, w)))
    for k in range(3, 7):
        for w in itertools.product(LETTERS[:10], repeat=k - 1):
            w = 'K' + ''.join(w)
            decide(v, w, False, 4, sum(map(ord, w)))


@bounded(secs=30, once=True, exhaustive=True)
def orders_version_3(v):
    """every sequence of up to 4 packets beginning with a version 3 key"""
    for k in range(1, 5):
        for w in itertools.product(LETTERS[:10], repeat=k - 1):
            decide(v, 'K' + ''.join(w), False, 3, k)


def some_word(v):
    """a word of the grammar"""
    def many(name, top):
        return v.choice(name, top)

    def trusted(name, letter, lo, hi):
        return ''.join(letter + 'T' * many('%s trust%d' % (name, i), 2)
                       for i in range(lo + many(name, hi)))
    w = 'K'
    for i in range(many('direct', 3)):
        w += trusted('direct%d' % i, 'RD'[many('which%d' % i, 2)], 1, 1)
    for letter in 'UA':
        for i in range(many(letter, 3)):
            w += letter + trusted('%s%d' % (letter, i), 'C', 0, 3)
    for i in range(many('S', 3)):
        w += ('S' + trusted('binding%d' % i, 'B', 1, 2)
              + trusted('revoked%d' % i, 'V', 0, 2))
    return w


@bounded(secs=8)
def longer_orders(v):
    """sequences of the grammar of up to about 40 packets, as they are or
    with one packet removed, doubled, replaced or moved"""
    w = some_word(v)
    how = v.choice('how', ['keep', 'remove', 'double', 'replace', 'move'])
    if how != 'keep':
        i = v.choice('at', 60) % len(w)
        rest = w[:i] + w[i + 1:]
        if how == 'remove':
            w = rest
        elif how == 'double':
            w = w[:i] + w[i] + w[i:]
        elif how == 'replace':
            w = w[:i] + LETTERS[v.choice('by', len(LETTERS))] + w[i + 1:]
        else:
            j = v.choice('to', 60) % len(w)
            w = rest[:j] + w[i] + rest[j:]
    decide(v, w, v.choice('secret', [False, True]), 4,
           v.choice('numbers', [0, 100]))


# ---- all contents

def signature_packet(v, fmt, name, i, st):
    """a signature packet of either version"""
    small = v.symbolic
    pk = v.int(name + ' pk', 0, 255)
    h = v.int(name + ' hash', 0, 255)
    h2 = v.bytes(name + ' hash2', 2)
    value = v.nat(name + ' value')
    v.assume(spec.bitlen(value) <= 65535)
    if small:
        v.assume(value >= 1)
    if (i % 2 if v.symbolic else v.choice(name + ' version', 2)) == 0:
        areas = []
        for a in (' hashed', ' unhashed'):
            data = v.bytes(name + a, lo=1 if small else 0,
                           hi=100 if small else 8000)
            areas.append(subpacket_length(len(data) + 1) + b'\x65' + data)
        body = (b'\x04' + spec.be(st, 1) + spec.be(pk, 1) + spec.be(h, 1)
                + spec.be(len(areas[0]), 2) + areas[0]
                + spec.be(len(areas[1]), 2) + areas[1])
    else:
        body = (b'\x03\x05' + spec.be(st, 1)
                + spec.be(v.int(name + ' time', 0, 2 ** 32 - 1), 4)
                + v.bytes(name + ' id', 8) + spec.be(pk, 1) + spec.be(h, 1))
    return P.SignaturePacket.from_packet_content(
        fmt, 2, bytearray(body + h2 + mpi(value)))


def preserved(v, cls, key, subkey, shape):
    """the packets of an accepted sequence are those of the key built from
    it"""
    fmt = [NEW, OLD][len(shape) % 2] if v.symbolic else v.choice(
        'header', [NEW, OLD])
    word = 'K'
    packets = [key]
    for i, x in enumerate(shape):
        n = 'p%d' % i
        if x == 'U':
            p = P.UserIDPacket.from_packet_content(
                fmt, 13, bytearray(v.bytes(n, hi=2 ** 32 - 2 if v.symbolic
                                           else 70000)))
        elif x == 'A':
            if v.symbolic:
                data = v.bytes(n, lo=1, hi=2 ** 32 - 40)
                data = subpacket_length(len(data) + 1) + b'\x65' + data
            else:
                data = attribute(v)
            p = P.UserAttributePacket.from_packet_content(
                fmt, 17, bytearray(data))
        elif x == 'S':
            p = subkey
        elif x == 'T':
            p = P.TrustPacket.from_packet_content(fmt, 12, bytearray(
                b'\x01' + v.bytes(n, 1)))
        else:
            p = signature_packet(v, fmt, n, i, {
                'R': 0x20, 'D': 0x1f, 'B': 0x18, 'V': 0x28, 'P': 0x30,
                'C': 0x10, 'c': 0x13}[x])
        word += {'P': 'C', 'c': 'C'}.get(x, x)
        packets.append(p)
    attached(v, word, packets, cls.from_packets(packets))


SHAPES = ['', 'R', 'DT', 'RD', 'U', 'UC', 'UcP', 'UCU', 'UCTUc', 'A', 'AC',
          'UCAc', 'UCTTACTP', 'ACAC', 'SB', 'SBV', 'SBTVT', 'SBSB',
          'UCSB', 'RTDTUCTAcTSBTVTSB']


def protected(v, name, which, algorithm):
    """octets of a protected secret key with any encrypted part"""
    return K.protected_body(
        which, v.bytes(name, lo=20, hi=2 ** 31 if v.symbolic else 3000), 9, 254,
        b'\x03\x02' + v.bytes(name + ' salt', 8) + b'\x60',
        v.bytes(name + ' iv', 16), algorithm=algorithm)


def shapes(v, first, last):
    return v.choice('shape', SHAPES[first:last])


def positive(v, args):
    """the numbers of a key (zero is C04's concern)"""
    for x in args[4:]:
        if x is not None:
            v.assume(x >= 1)


def public_keys(v, first, last):
    kinds = [(4, 1), (3, 1), (4, 17), (2, 3)]
    body, args = small_key(v, '', kinds)
    shape = shapes(v, first, last)
    if v.symbolic:
        positive(v, args)
    p = P.PublicKeyPacket.from_packet_content(NEW, 6, bytearray(body))
    if 'S' in shape:
        v.assume(args[0] == 4)
    body, args = small_key(v, 'sub', [(4, 16)])
    if v.symbolic:
        positive(v, args)
    sub = P.PublicSubkeyPacket.from_packet_content(OLD, 14, bytearray(body))
    preserved(v, CLASSES[0], p, sub, shape)


def secret_keys(v, first, last):
    shape = shapes(v, first, last)
    which = v.choice('which', ['rsa', 'dsa'])
    p = P.SecretKeyPacket.from_packet_content(NEW, 5, bytearray(
        protected(v, 'encrypted', which, None)))
    sub = P.SecretSubkeyPacket.from_packet_content(OLD, 7, bytearray(
        protected(v, 'subkey', 'elg', 16)))
    preserved(v, CLASSES[1], p, sub, shape)


@harness(cost=2)
def public_key_and_user_ids(v):
    public_keys(v, 0, 9)


@harness(cost=2)
def public_key_and_attributes(v):
    public_keys(v, 9, 14)


@harness(cost=2)
def public_key_and_subkeys(v):
    public_keys(v, 14, len(SHAPES))


@harness(cost=2)
def secret_key_and_user_ids(v):
    secret_keys(v, 0, 14)


@harness(cost=2)
def secret_key_and_subkeys(v):
    secret_keys(v, 14, len(SHAPES))
