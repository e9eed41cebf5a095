from vc import bounded, harness, spec
from pgp import transferrable_keys as T
from pgp import utils
from pgp.packets import signature_subpackets as S
from pgp.packets import user_attribute_subpackets as A
from contracts.c04 import mpi, number

KNOWN = (2, 3, 4, 5, 6, 7, 9, 10, 11, 12, 16, 20, 21, 22, 23, 24, 25, 26, 27,
         28, 29, 30, 31, 32)
DIGESTS = {1: 16, 2: 20, 3: 20, 8: 32, 9: 48, 10: 64, 11: 28}


def length(n):
    """RFC 4880 5.2.3.1"""
    if n < 192:
        return spec.be(n, 1)
    if n < 8384:
        return spec.be((n - 192) // 256 + 192, 1) + spec.be(
            (n - 192) % 256, 1)
    return b'\xff' + spec.be(n, 4)


def read(v, t, body):
    """the subpacket is read wherever it stands, is written as it was read,
    and the reader stops at its end"""
    crit = v.int('critical', 0, 1)
    v.assume(len(body) < 2 ** 32 - 1)
    raw = length(len(body) + 1) + spec.be(t + 128 * crit, 1) + body
    pre = v.bytes('pre')
    post = v.bytes('post')
    sp, off = S.signature_subpacket_from_data(bytearray(pre + raw + post),
                                              len(pre))
    v.check_eq('stops at the end', off, len(pre) + len(raw))
    v.check_eq('type', sp.type, t)
    v.check_eq('critical flag', bool(sp.critical), crit == 1)
    v.check('value', spec.eqbytes(sp.content, body))
    v.check_eq('octets', bytes(sp), raw)
    return sp


def built(v, sp, other):
    v.check_eq('built from the same values: octets', bytes(other), bytes(sp))


@harness()
def unknown(v):
    types = [t for t in range(128) if t not in KNOWN]
    t = (v.choice('type', [0, 1, 8, 13, 14, 15, 17, 18, 19, 33, 34, 64, 99,
                           100, 110, 127]) if v.symbolic
         else v.choice('type', types))
    body = v.bytes('body', hi=2 ** 32 - 2 if v.symbolic else 9000)
    sp = read(v, t, body)
    built(v, sp, S.SignatureSubpacket(t, sp.critical, bytearray(body)))


@harness()
def times(v):
    t, cls = v.choice('type', [(2, S.CreationTimeSubpacket),
                               (3, S.ExpirationSecondsSubpacket),
                               (9, S.KeyExpirationTimeSubpacket)])
    n = v.int('time', 0, 2 ** 32 - 1)
    sp = read(v, t, spec.be(n, 4))
    v.check_eq('time', sp.time, n)
    built(v, sp, cls(sp.critical, n))


@harness()
def booleans(v):
    t, cls, attr = v.choice('type', [
        (4, S.ExportableSubpacket, 'exportable'),
        (7, S.RevocableSubpacket, 'revocable'),
        (25, S.PrimaryUserIDSubpacket, 'primary')])
    n = v.int('value', 0, 1)
    sp = read(v, t, spec.be(n, 1))
    v.check_eq('flag', getattr(sp, attr), n == 1)
    built(v, sp, cls(sp.critical, n == 1))


@harness()
def trust(v):
    d = v.int('depth', 0, 255)
    a = v.int('amount', 0, 255)
    sp = read(v, 5, spec.be(d, 1) + spec.be(a, 1))
    v.check_eq('depth', sp.depth, d)
    v.check_eq('amount', sp.amount, a)
    built(v, sp, S.TrustSubpacket(sp.critical, d, a))


@harness()
def regular_expression(v):
    text = v.text('pattern')
    sp = read(v, 6, text.encode('ascii') + b'\x00')
    v.check_eq('pattern', sp.pattern, text)
    built(v, sp, S.RegularExpressionSubpacket(sp.critical, text))


@harness()
def text_values(v):
    t, cls, attr = v.choice('type', [
        (24, S.PreferredKeyServerSubpacket, 'uri'),
        (26, S.PolicyURISubpacket, 'uri'),
        (28, S.UserIDSubpacket, 'user_id')])
    text = v.text('text', lo=1, maxchar=0x10ffff)
    sp = read(v, t, text.encode('utf8'))
    v.check_eq('text', getattr(sp, attr), text)
    built(v, sp, cls(sp.critical, text))


@harness()
def text_octets(v):
    """text which need not be valid UTF-8"""
    t = v.choice('type', [6, 24, 26, 28, 29])
    body = v.bytes('body', lo=1, hi=2 ** 32 - 40 if v.symbolic else 70000)
    if t == 6:
        body = body + b'\x00'
    read(v, t, body)


@harness()
def preferences(v):
    t, cls = v.choice('type', [
        (11, S.PreferredSymmetricAlgorithmsSubpacket),
        (21, S.PreferredHashAlgorithmsSubpacket),
        (22, S.PreferredCompressionAlgorithmsSubpacket)])
    body = v.bytes('algorithms')
    sp = read(v, t, body)
    v.check('algorithms', spec.eqbytes(bytes(sp.preferred_algorithms), body))
    built(v, sp, cls(sp.critical, sp.preferred_algorithms))


@harness()
def revocation_key(v):
    c = v.int('class', 128, 255)
    a = v.int('alg', 0, 255)
    f = v.bytes('fingerprint', 20)
    sp = read(v, 12, spec.be(c, 1) + spec.be(a, 1) + f)
    v.check_eq('sensitive', sp.sensitive, c // 64 % 2 == 1)
    v.check_eq('algorithm', sp.public_key_algorithm, a)
    v.check_eq('fingerprint', bytes.fromhex(sp.fingerprint), f)
    if c % 64 == 0:
        built(v, sp, S.RevocationKeySubpacket(sp.critical, sp.fingerprint, a,
                                              sp.sensitive))
        built(v, sp, S.RevocationKeySubpacket(sp.critical, f, a,
                                              sp.sensitive))


@harness()
def additional_recipient(v):
    c = v.choice('class', [0, 128])
    a = v.int('alg', 0, 255)
    f = v.bytes('fingerprint', 20)
    sp = read(v, 10, spec.be(c, 1) + spec.be(a, 1) + f)
    v.check_eq('strong', sp.strong_request, c == 128)
    v.check_eq('algorithm', sp.public_key_algorithm, a)
    v.check_eq('fingerprint', bytes.fromhex(sp.fingerprint), f)
    built(v, sp, S.AdditionalRecipientRequestSubpacket(
        sp.critical, c == 128, a, sp.fingerprint))


@harness()
def issuer(v):
    k = v.bytes('key_id', 8)
    sp = read(v, 16, k)
    v.check_eq('key ID', bytes.fromhex(sp.key_id), k)
    built(v, sp, S.IssuerSubpacket(sp.critical, sp.key_id))


@harness()
def notation(v):
    """name@namespace, neither with another @"""
    human = v.choice('human', [0, 128])
    name = v.text('name', hi=65534 if v.symbolic else 1000, without='@')
    ns = v.text('namespace', hi=65534 if v.symbolic else 1000)
    v.assume(len(name) + len(ns) < 65535)
    value = v.bytes('value', hi=65535)
    if human:
        value = v.text('text', hi=16383, maxchar=0x10ffff).encode('utf8')
    raw = (name + '@' + ns).encode('utf8')
    body = (spec.be(human, 1) + b'\x00\x00\x00' + spec.be(len(raw), 2)
            + spec.be(len(value), 2) + raw + value)
    sp = read(v, 20, body)
    v.check_eq('human readable', sp.human_readable, human == 128)
    v.check_eq('name', sp.name, name)
    v.check_eq('namespace', sp.namespace, ns)
    if human:
        v.check_eq('text', sp.value.encode('utf8'), value)
    else:
        v.check_eq('value', sp.value, value)
    built(v, sp, S.NotationSubpacket(sp.critical, name, ns, human == 128,
                                     sp.value))


@bounded(secs=2)
def notation_octets(v):
    """random names and values of arbitrary octets, with any number of @"""
    human = v.choice('human', [0, 128])
    raw = v.bytes('name', hi=65535)
    if v.bool('at'):
        raw = raw.replace(b'a', b'@')
    value = v.bytes('value', hi=65535)
    read(v, 20, spec.be(human, 1) + b'\x00\x00\x00' + spec.be(len(raw), 2)
         + spec.be(len(value), 2) + raw + value)


@harness()
def key_server_preferences(v):
    body = v.bytes('body', lo=1)
    sp = read(v, 23, body)
    v.check_eq('no modify', bool(sp.no_modify), body[0] >= 128)


@harness()
def key_flags(v):
    body = v.bytes('body', lo=1, hi=180)
    sp = read(v, 27, body)
    b = body[0]
    v.check_eq('certify', bool(sp.may_certify_others), b % 2 == 1)
    v.check_eq('sign', bool(sp.may_sign_data), b // 2 % 2 == 1)
    v.check_eq('encrypt communications', bool(sp.may_encrypt_comms),
               b // 4 % 2 == 1)
    v.check_eq('encrypt storage', bool(sp.may_encrypt_storage),
               b // 8 % 2 == 1)
    v.check_eq('split', bool(sp.may_have_been_split), b // 16 % 2 == 1)
    v.check_eq('authenticate', bool(sp.may_be_used_for_auth),
               b // 32 % 2 == 1)
    v.check_eq('group', bool(sp.may_have_multiple_owners), b >= 128)
    if len(body) == 1 and b // 64 % 2 == 0:
        built(v, sp, S.KeyFlagsSubpacket(
            sp.critical, sp.may_certify_others, sp.may_sign_data,
            sp.may_encrypt_comms, sp.may_encrypt_storage,
            sp.may_be_used_for_auth, sp.may_have_been_split,
            sp.may_have_multiple_owners))


@harness()
def features(v):
    body = v.bytes('body', lo=1)
    sp = read(v, 30, body)
    v.check_eq('modification detection',
               bool(sp.supports_modification_detection), body[0] % 2 == 1)
    if len(body) == 1 and body[0] < 2:
        built(v, sp, S.FeaturesSubpacket(
            sp.critical, sp.supports_modification_detection))


@harness()
def revocation_reason(v):
    c = v.int('code', 0, 255)
    text = v.text('reason', maxchar=0x10ffff)
    sp = read(v, 29, spec.be(c, 1) + text.encode('utf8'))
    v.check_eq('code', sp.revocation_code, c)
    v.check_eq('reason', sp.revocation_reason, text)
    built(v, sp, S.RevocationReasonSubpacket(sp.critical, c, text))


@harness()
def target(v):
    a = v.int('alg', 0, 255)
    h = v.choice('hash', [1, 2, 3, 8, 9, 10, 11, 0, 4, 255])
    n = DIGESTS.get(h)
    if n is None:
        n = v.choice('length', [1, 20, 100])
    d = v.bytes('digest', n)
    sp = read(v, 31, spec.be(a, 1) + spec.be(h, 1) + d)
    v.check_eq('algorithm', sp.public_key_algorithm, a)
    v.check_eq('hash algorithm', sp.hash_algorithm, h)
    v.check_eq('digest', bytes.fromhex(sp.hash), d)
    built(v, sp, S.TargetSubpacket(sp.critical, a, h, sp.hash, n))


def embedded(v, body):
    body = body + mpi(number(v, 'mpi'))
    sp = read(v, 32, body)
    built(v, sp, S.EmbeddedSignatureSubpacket(sp.critical, sp.signature))


@harness()
def embedded_signature_v3(v):
    embedded(v, b'\x03\x05' + v.bytes('head', 1) + v.bytes('time', 4)
             + v.bytes('key_id', 8) + v.bytes('algs', 2)
             + v.bytes('hash2', 2))


@harness()
def embedded_signature_v4(v):
    n = v.bytes('value', hi=65500 if v.symbolic else 150)
    m = v.bytes('value2', hi=65500 if v.symbolic else 150)
    h = length(len(n) + 1) + b'\x64' + n
    u = length(len(m) + 1) + b'\xe5' + m
    embedded(v, b'\x04' + v.bytes('head', 3) + spec.be(len(h), 2) + h
             + spec.be(len(u), 2) + u + v.bytes('hash2', 2))


def read_attribute(v, t, body):
    v.assume(len(body) < 2 ** 32 - 1)
    raw = length(len(body) + 1) + spec.be(t, 1) + body
    pre = v.bytes('pre')
    post = v.bytes('post')
    sp, off = A.user_attribute_subpacket_from_data(
        bytearray(pre + raw + post), len(pre))
    v.check_eq('stops at the end', off, len(pre) + len(raw))
    v.check_eq('type', sp.sub_type, t)
    v.check('value', spec.eqbytes(sp.content, body))
    v.check_eq('octets', bytes(sp), raw)
    return sp


@harness()
def unknown_attribute(v):
    t = v.choice('type', [0, 2, 3, 100, 101, 110, 255] if v.symbolic else
                 [t for t in range(256) if t != 1])
    body = v.bytes('body', hi=2 ** 32 - 2 if v.symbolic else 9000)
    sp = read_attribute(v, t, body)
    other = A.UserAttributeSubpacket(t, bytearray(body))
    built(v, sp, other)
    v.check('equal', other == sp)


@harness()
def image_header(v):
    """a header of any length and version is refused or kept"""
    head = v.int('header length', 0, 65535) if v.symbolic \
        else v.choice('header length', [0, 3, 4, 12, 15, 16, 17, 24, 272])
    version = v.int('version', 0, 255) if v.symbolic \
        else v.choice('version', [0, 1, 2, 255])
    pad = v.bytes('reserved', 12) if v.symbolic or v.bool('set') \
        else bytes(12)
    body = spec.be(head % 256, 1) + spec.be(head // 256, 1) \
        + spec.be(version, 1) + v.bytes('format', 1) + pad \
        + v.bytes('data', hi=2 ** 32 - 40 if v.symbolic else 9000)
    kind, got = v.outcome(A.user_attribute_subpacket_from_data, bytearray(
        length(len(body) + 1) + b'\x01' + body), 0)
    if kind == 'ok':
        v.check('value', spec.eqbytes(got[0].content, body))


@harness()
def image_attribute(v):
    f = v.int('format', 0, 255)
    data = v.bytes('data', hi=2 ** 32 - 40 if v.symbolic else 70000)
    sp = read_attribute(v, 1, b'\x10\x00\x01' + spec.be(f, 1) + bytes(12)
                        + data)
    v.check_eq('version', sp.header_version, 1)
    v.check_eq('format', sp.image_format, f)
    v.check_eq('data', sp.data, data)
    other = A.ImageAttributeSubpacket(1, 16, f, bytearray(data))
    built(v, sp, other)
    v.check('equal', other == sp)


@harness()
def image_made(v):
    """an attribute made from an image has the header RFC 4880 5.12.1
    prescribes"""
    data = v.bytes('data', lo=1, hi=2 ** 32 - 40 if v.symbolic else 70000)
    item = T.UserAttributeContentItem('image/jpeg', data)
    sp = item.to_subpacket()
    v.check_eq('octets', bytes(sp), length(17 + len(data)) + b'\x01'
               + b'\x10\x00\x01\x01' + bytes(12) + data)
    got, off = A.user_attribute_subpacket_from_data(bytearray(bytes(sp)), 0)
    again = T.UserAttributeContentItem.from_subpacket(got)
    v.check_eq('kind', again.mime_type, 'image/jpeg')
    v.check_eq('data', bytes(again.data), data)
    v.check('only images', T.UserAttributeContentItem(
        'text/plain', data).to_subpacket() is None)
