"""The octets hashed for signatures, against RFC 4880 5.2.4.

A digest is compared with that of the octets the RFC prescribes: for the
verifier a digest is an unspecified function of the octets, so that equal
digests for every such function means equal octets."""
from Crypto.Hash import MD5, RIPEMD, SHA, SHA224, SHA256, SHA384, SHA512
from Crypto.Signature import PKCS1_v1_5
from Crypto.Util.number import bytes_to_long, long_to_bytes

from vc import bounded, harness, spec
from contracts import keys as K
from contracts.c04 import number, public_part, secret_body, subpacket_length
from pgp import message, signature, utils
from pgp import transferrable_keys as T
from pgp.packets import constants
from pgp.packets import packets as P
from pgp.packets import signature_subpackets as SS

NEW = constants.NEW_PACKET_HEADER_TYPE
OLD = constants.OLD_PACKET_HEADER_TYPE
HASH = {1: MD5, 2: SHA, 3: RIPEMD, 8: SHA256, 9: SHA384, 10: SHA512,
        11: SHA224}
KEY_TYPES = [0x1f, 0x20]
SUBKEY_TYPES = [0x18, 0x19, 0x28]
USER_TYPES = [0x10, 0x11, 0x12, 0x13, 0x30]
SIGNATURE_TYPES = [0x40, 0x50]


# ---- what is prescribed

def key_prefix(body):
    return b'\x99' + spec.be(len(body), 2) + body


def user_prefix(version, first, content):
    if version < 4:
        return content
    return first + spec.be(len(content), 4) + content


def trailer(version, st, pk, h, hashed, created):
    if version < 4:
        return spec.be(st, 1) + spec.be(created, 4)
    return (b'\x04' + spec.be(st, 1) + spec.be(pk, 1) + spec.be(h, 1)
            + spec.be(len(hashed), 2) + hashed
            + b'\x04\xff' + spec.be(len(hashed) + 6, 4))


def crlf(v, data):
    if v.symbolic:
        return spec.crlf(data)
    out = b''
    i = 0
    while i < len(data):
        c = data[i:i + 1]
        if c == b'\r':
            out += b'\r\n'
            if data[i + 1:i + 2] == b'\n':
                i += 1
        elif c == b'\n':
            out += b'\r\n'
        else:
            out += c
        i += 1
    return out


# ---- targets

def small_key(v, name='', kinds=((4, 1), (4, 17), (3, 1), (4, 16), (2, 3))):
    body, args, _ = public_part(v, list(kinds))
    v.assume(len(body) <= 65535)
    return body, args


def user_id(v):
    """octets of a user ID"""
    return v.bytes('user_id', hi=2 ** 32 - 2 if v.symbolic else 70000)


def attribute(v, small=False):
    """octets of a user attribute packet: images and unknown subpackets"""
    body = b''
    for i in range(v.choice('attributes', [1] if small and v.symbolic
                            else [1, 2])):
        n = 'attribute%d' % i
        data = v.bytes(n, hi=2 ** 32 - 100 if v.symbolic else 70000)
        if v.choice(n + '_kind', ['jpeg', 'other']) == 'jpeg':
            c = b'\x01\x10\x00\x01\x01' + bytes(12) + data
        else:
            c = b'\x64' + data
        body = body + subpacket_length(len(c)) + c
    return body


def inner_signature(v, small=False):
    """octets of a version 4 signature, and those of its body as signed"""
    st = v.int('inner_type', 0, 255)
    pk = v.int('inner_pk', 0, 255)
    h = v.int('inner_hash', 0, 255)
    h2 = v.bytes('inner_hash2', 2)
    areas = []
    for name in ('inner_hashed', 'inner_unhashed'):
        data = v.bytes(name, hi=65535)
        areas.append(subpacket_length(len(data) + 1) + b'\x65' + data)
        v.assume(len(areas[-1]) <= 65535)
    head = (b'\x04' + spec.be(st, 1) + spec.be(pk, 1) + spec.be(h, 1)
            + spec.be(len(areas[0]), 2) + areas[0])
    tail = h2 + K.mpi(number(v, 'inner_value'))
    return (head + spec.be(len(areas[1]), 2) + areas[1] + tail,
            head + b'\x00\x00' + tail)


def inner_signature_v3(v, small=False):
    t = v.int('inner_time', 0, 2 ** 32 - 1)
    body = (b'\x03\x05' + spec.be(v.int('inner_type', 0, 255), 1)
            + spec.be(t, 4) + v.bytes('inner_id', 8)
            + spec.be(v.int('inner_pk', 0, 255), 1)
            + spec.be(v.int('inner_hash', 0, 255), 1)
            + v.bytes('inner_hash2', 2) + K.mpi(number(v, 'inner_value')))
    return body, body


# ---- hash_packet_for_signature

def packet_hash(v, packet, st, version, key_packet, target):
    h = v.choice('hash', [2, 8] if v.symbolic else sorted(HASH))
    pk = v.int('pk', 0, 255)
    created = v.int('created', 0, 2 ** 32 - 1)
    hashed = v.bytes('hashed', hi=65535)
    got = utils.hash_packet_for_signature(
        packet, st, version, h, created, pk, key_packet, hashed)
    want = HASH[h].new(target + trailer(version, st, pk, h, hashed, created))
    v.check_eq('digest', got.digest(), want.digest())


def versions(v):
    return v.choice('signature version', [3, 4])


@harness()
def packets_keys(v):
    version = versions(v)
    st = v.choice('type', KEY_TYPES)
    body, args = small_key(v)
    p = P.PublicKeyPacket(NEW, *args)
    packet_hash(v, p, st, version, p, key_prefix(body))


@harness()
def packets_secret_keys(v):
    version = versions(v)
    st = v.choice('type', KEY_TYPES)
    body, args = small_key(v, kinds=[(4, 17)] if v.symbolic
                           else [(4, 17), (3, 1)])
    p = P.PACKET_TYPES[5].from_packet_content(NEW, 5, bytearray(
        body + secret_body(v, ['none'] if v.symbolic
                           else ['none', 'gnu-dummy'])[0]))
    packet_hash(v, p, st, version, p, key_prefix(body))


@harness()
def packets_subkeys(v):
    version = versions(v)
    st = v.choice('type', SUBKEY_TYPES)
    primary = K.public_body('dsa')
    body, args = small_key(v, kinds=[(4, 1), (4, 16), (4, 17)])
    p = P.PublicKeyPacket.from_packet_content(NEW, 6, bytearray(primary))
    if v.choice('secret', [False, True]):
        s = P.PACKET_TYPES[7].from_packet_content(NEW, 7, bytearray(
            body + b'\x00' + v.bytes('secret_part', lo=1)))
    else:
        s = P.PublicSubkeyPacket(NEW, *args)
    packet_hash(v, s, st, version, p, key_prefix(primary) + key_prefix(body))


@harness()
def packets_user_ids(v):
    version = versions(v)
    st = v.choice('type', USER_TYPES)
    primary = K.public_body('dsa')
    p = P.PublicKeyPacket.from_packet_content(NEW, 6, bytearray(primary))
    uid = user_id(v)
    u = P.UserIDPacket.from_packet_content(NEW, 13, bytearray(uid))
    packet_hash(v, u, st, version, p,
                key_prefix(primary) + user_prefix(version, b'\xb4', uid))


@harness()
def packets_user_attributes(v):
    version = versions(v)
    st = v.choice('type', USER_TYPES)
    primary = K.public_body('dsa')
    p = P.PublicKeyPacket.from_packet_content(NEW, 6, bytearray(primary))
    body = attribute(v)
    u = P.UserAttributePacket.from_packet_content(NEW, 17, bytearray(body))
    packet_hash(v, u, st, version, p,
                key_prefix(primary) + user_prefix(version, b'\xd1', body))


@harness()
def packets_signatures(v):
    version = versions(v)
    st = v.choice('type', SIGNATURE_TYPES)
    body, signed = (inner_signature if v.choice('inner', [3, 4]) == 4
                    else inner_signature_v3)(v)
    s = P.SignaturePacket.from_packet_content(NEW, 2, bytearray(body))
    packet_hash(v, s, st, version, None,
                b'\x88' + spec.be(len(signed), 4) + signed)


@harness()
def packets_documents(v):
    version = versions(v)
    st = v.choice('type', [0, 1])
    data = v.bytes('data', hi=2 ** 32 - 100)
    t = v.int('time', 1, 2 ** 31 - 1)
    name = v.bytes('name', hi=255)
    s = P.LiteralDataPacket.from_packet_content(NEW, 11, bytearray(
        b'b' + spec.be(len(name), 1) + name + spec.be(t, 4) + data))
    packet_hash(v, s, st, version, None,
                crlf(v, data) if st == 1 else data)


@harness()
def packets_standalone(v):
    version = versions(v)
    p = P.PublicKeyPacket.from_packet_content(
        NEW, 6, bytearray(K.public_body('dsa')))
    packet_hash(v, p, 2, version, p, b'')


# ---- signing and verifying

def hashed_part(sig):
    """hashed area and creation time of a signature just made"""
    body = bytes(sig.to_packet().content)
    if sig.version < 4:
        return b'', spec.ival(body[3:7])
    return body[6:6 + spec.ival(body[4:6])], 0


def signer(v):
    return v.choice('signer', ['rsa', 'dsa'] if not v.symbolic else ['rsa'])


def extra(v, small):
    """subpackets given to sign"""
    if small and v.symbolic or v.choice('extra', [0, 1]) == 0:
        return None
    return [SS.PolicyURISubpacket(False, u'x' * v.choice('uri', [0, 300, 65510])),
            SS.RevocableSubpacket(True, True)]


def accepted(v, which, h, octets, values):
    """the public-key operation, done here"""
    k = K.NUMBERS[which]
    d = HASH[h].new(octets)
    if which == 'dsa':
        r, s = [int(x) for x in values]
        if not (0 < r < k['q'] and 0 < s < k['q']):
            return False
        m = bytes_to_long(d.digest()[:20])
        w = pow(s, k['q'] - 2, k['q'])
        return pow(k['g'], m * w % k['q'], k['p']) * pow(
            k['y'], r * w % k['q'], k['p']) % k['p'] % k['q'] == r
    n = (k['n'].bit_length() + 7) // 8
    em = long_to_bytes(pow(int(values[0]), k['e'], k['n']), n)
    return em.endswith(d.digest()) and em.startswith(b'\x00\x01\xff\xff')


def signing(v, item, st, target, version=None, small=False):
    """sign, compare the octets; then a signature made here is verified"""
    if version is None:
        version = versions(v)
    which = signer(v)
    h = v.choice('hash', [8] if v.symbolic else sorted(HASH))
    key = K.secret(which, v.choice('signer version', [3, 4])
                   if which == 'rsa' and not v.symbolic else 4)
    sig = key.sign(item, version, st, h, extra(v, small))
    hashed, created = hashed_part(sig)
    pk = K.ALGORITHM[which]
    octets = target + trailer(version, st, pk, h, hashed, created)
    d = HASH[h].new(octets)
    v.check_eq('first two octets of the digest', bytes(sig.hash2),
               d.digest()[:2])
    if v.symbolic:
        want = PKCS1_v1_5.new(key._get_key_obj()).sign(HASH[h].new(octets))
        v.check_eq('signature value', sig.signature_values,
                   (bytes_to_long(want),))
    else:
        v.check('the prescribed octets are signed',
                accepted(v, which, h, octets, sig.signature_values))
    v.check_eq('type', sig.signature_type, st)
    v.check_eq('version', sig.version, version)


def verifying(v, item, st, target, version=None, small=False):
    """a signature made over the prescribed octets is accepted"""
    if version is None:
        version = versions(v)
    h = v.choice('hash', [8] if v.symbolic else sorted(HASH))
    key = K.public('rsa')
    area = v.bytes('hashed', hi=65519)
    area = (b'\x09\x10' + bytes.fromhex(key.key_id)
            + subpacket_length(len(area) + 1) + b'\x66' + area)
    v.assume(len(area) <= 65535)
    created = v.int('created', 0, 2 ** 31 - 1)
    octets = target + trailer(version, st, 1, h, area, created)
    d = HASH[h].new(octets)
    value = bytes_to_long(PKCS1_v1_5.new(
        K.secret('rsa')._get_key_obj()).sign(d))
    if version == 4:
        body = (b'\x04' + spec.be(st, 1) + b'\x01' + spec.be(h, 1)
                + spec.be(len(area), 2) + area + b'\x00\x00')
    else:
        body = (b'\x03\x05' + spec.be(st, 1) + spec.be(created, 4)
                + bytes.fromhex(key.key_id) + b'\x01' + spec.be(h, 1))
    body = body + d.digest()[:2]
    p = P.SignaturePacket.from_packet_content(
        NEW, 2, bytearray(body + K.mpi(1)))
    p.signature_values = [value]
    sig = signature.BaseSignature.from_packet(p, item)
    v.check_eq('accepted', key.verify(sig, item), True)


def both(v, item, st, target, version=None):
    """the subpackets of the signature are varied for documents: with other
    targets only their contents are symbolic"""
    (signing if v.choice('direction', ['sign', 'verify']) == 'sign'
     else verifying)(v, item, st, target, version, True)


def text(v, data):
    return crlf(v, data)


def document(v, st, data):
    """RFC 4880 5.2.4: the document as it is, with its line endings
    converted, or no document at all"""
    return [data, crlf(v, data) if st == 1 else None, b''][st]


@harness()
def documents(v):
    st = v.choice('type', [0, 1, 2])
    data = v.bytes('data', hi=2 ** 32 - 100 if v.symbolic else 2 ** 20)
    (signing if v.choice('direction', ['sign', 'verify']) == 'sign'
     else verifying)(v, data, st, document(v, st, data))


@harness()
def binary_messages(v):
    st = v.choice('type', [0, 1, 2])
    data = v.bytes('data', hi=2 ** 32 - 100 if v.symbolic else 2 ** 20)
    m = message.BinaryMessage(data, u'name', None)
    both(v, m, st, document(v, st, data))


@bounded(secs=4)
def text_documents(v):
    """random text, given as such and as text messages of both formats"""
    st = v.choice('type', [0, 1, 2])
    n = v.choice('length', 30)
    chars = [u'a', u' ', u'\r', u'\n', u'\r\n', u'\xe9', u'\u20ac', u'.']
    s = u''.join(v.choice('c%d' % i, chars) for i in range(n))
    kind = v.choice('kind', ['str', 'u', 't'])
    if kind == 'str':
        item = s
    else:
        item = message.TextMessage(s, u'', None)
        item.data_format = kind.encode()
    data = (s.encode('latin-1', 'replace') if kind == 't'
            else s.encode('utf-8'))
    both(v, item, st, document(v, st, data))


@harness()
def keys(v):
    st = v.choice('type', KEY_TYPES)
    body, args = small_key(v, kinds=[(4, 17), (4, 1), (4, 16)])
    item = T.TransferablePublicKey.from_packet(P.PublicKeyPacket(NEW, *args))
    both(v, item, st, key_prefix(body))


@harness()
def version_3_keys(v):
    st = v.choice('type', KEY_TYPES)
    body, args = small_key(v, kinds=[(3, 1), (2, 2)])
    item = T.TransferablePublicKey.from_packet(P.PublicKeyPacket(NEW, *args))
    both(v, item, st, key_prefix(body))


@harness()
def secret_keys(v):
    st = v.choice('type', KEY_TYPES)
    body, args = small_key(v, kinds=[(4, 17)])
    item = T.TransferableSecretKey.from_packet(
        P.PACKET_TYPES[5].from_packet_content(NEW, 5, bytearray(
            body + secret_body(v, ['none'] if v.symbolic
                               else ['none', 'gnu-dummy'])[0])))
    both(v, item, st, key_prefix(body))


@harness()
def subkeys(v):
    st = v.choice('type', SUBKEY_TYPES)
    primary = K.public_body('dsa')
    body, args = small_key(v, kinds=[(4, 1), (4, 16)])
    if v.choice('secret', [False, True]):
        owner = K.secret('dsa')
        item = T.SecretSubkey.from_packet(
            owner, P.PACKET_TYPES[7].from_packet_content(NEW, 7, bytearray(
                body + b'\x00' + v.bytes('secret_part', lo=1))))
    else:
        owner = K.public('dsa')
        item = T.PublicSubkey.from_packet(owner,
                                          P.PublicSubkeyPacket(NEW, *args))
    both(v, item, st, key_prefix(primary) + key_prefix(body))


@harness()
def user_ids(v):
    st = v.choice('type', USER_TYPES)
    version = versions(v)
    primary = K.public_body('dsa')
    uid = user_id(v)
    owner = K.public('dsa')
    item = T.UserID.from_packet(
        owner, P.UserIDPacket.from_packet_content(NEW, 13, bytearray(uid)))
    both(v, item, st, key_prefix(primary) + user_prefix(
        version, b'\xb4', uid), version)


@harness()
def user_attributes(v):
    st = v.choice('type', USER_TYPES)
    version = versions(v)
    primary = K.public_body('dsa')
    body = attribute(v, True)
    owner = K.public('dsa')
    item = T.UserAttribute.from_packet(
        owner, P.UserAttributePacket.from_packet_content(NEW, 17,
                                                         bytearray(body)))
    both(v, item, st, key_prefix(primary) + user_prefix(
        version, b'\xd1', body), version)


@harness()
def signatures(v):
    st = v.choice('type', SIGNATURE_TYPES)
    body, signed = (inner_signature if v.choice('inner', [3, 4]) == 4
                    else inner_signature_v3)(v, True)
    target = message.BinaryMessage(b'', u'', None)
    item = signature.BaseSignature.from_packet(
        P.SignaturePacket.from_packet_content(NEW, 2, bytearray(body)),
        target)
    both(v, item, st, b'\x88' + spec.be(len(signed), 4) + signed)
