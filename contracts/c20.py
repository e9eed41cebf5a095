"""Signature attributes and expiry.  Subpackets are read and written here by
RFC 4880 5.2.3.1, independently of the code."""
import datetime
import re

from vc import bounded, harness, spec
from contracts import keys as K
from contracts.c05 import length
from pgp import signature, signature_verification
from pgp import transferrable_keys as T
from pgp.packets import constants
from pgp.packets import packets as P

NEW = constants.NEW_PACKET_HEADER_TYPE
CREATED = 1000000000
KEY_CREATED = 900000000


def when(t):
    return datetime.datetime.fromtimestamp(t)


def sub(t, body, critical=0):
    return length(len(body) + 1) + spec.be(t + 128 * critical, 1) + body


def take_apart(area):
    """type with critical flag, and body, of each subpacket"""
    out = []
    i = 0
    while i < len(area):
        n = spec.ival(area[i:i + 1])
        i += 1
        if n == 255:
            n = spec.ival(area[i:i + 4])
            i += 4
        elif n >= 192:
            n = (n - 192) * 256 + spec.ival(area[i:i + 1]) + 192
            i += 1
        out.append((spec.ival(area[i:i + 1]), area[i + 1:i + n]))
        i += n
    return out


def areas(sig):
    """the two areas as they are written"""
    body = bytes(sig.to_packet().content)
    n = spec.ival(body[4:6])
    h = body[6:6 + n]
    body = body[6 + n:]
    n = spec.ival(body[0:2])
    return take_apart(h), take_apart(body[2:2 + n])


def embedded(value):
    return (b'\x04\x19\x01\x08\x00\x00\x00\x00\x12\x34' + K.mpi(value))


ID = b'\x01\x02\x03\x04\x05\x06\x07\xf8'
# a subpacket of every type an attribute is stored in
STOCK = {
    2: spec.be(CREATED, 4),
    3: spec.be(7 * 86400, 4),
    4: b'\x01',
    5: b'\x01\x78',
    6: b'<[^>]+[@.]example\\.com>$\x00',
    7: b'\x01',
    9: spec.be(365 * 86400, 4),
    11: b'\x09\x08\x07\x02',
    12: b'\x80\x11' + bytes(range(20)),
    16: ID,
    20: b'\x80\x00\x00\x00\x00\x0a\x00\x03me@in.test123',
    21: b'\x08\x02\x03',
    22: b'\x02\x01',
    23: b'\x80',
    24: b'hkp://keys.example.com',
    25: b'\x01',
    26: b'http://example.com/policy',
    27: b'\x83',
    28: b'a <a@example.com>',
    29: b'\x03because',
    30: b'\x01',
    32: embedded(77),
}
NAMES = {
    'signature_expiration_time': 3, 'exportable': 4, 'trust_depth': 5,
    'trust_amount': 5, 'regular_expressions': 6, 'revocable': 7,
    'key_expiration_time': 9, 'preferred_symmetric_algorithms': 11,
    'revocation_keys': 12, 'issuer_key_ids': 16, 'notations': 20,
    'preferred_hash_algorithms': 21, 'preferred_compression_algorithms': 22,
    'key_server_should_not_modify': 23, 'preferred_key_server': 24,
    'primary_user_id': 25, 'policy_uri': 26, 'may_certify_others': 27,
    'may_sign_data': 27, 'may_encrypt_comms': 27, 'may_encrypt_storage': 27,
    'may_have_been_split': 27, 'may_be_used_for_auth': 27,
    'may_have_multiple_owners': 27, 'issuer_user_id': 28,
    'revocation_code': 29, 'revocation_reason': 29,
    'supports_modification_detection': 30, 'embedded_signatures': 32,
    'creation_time': 2,
}
FLAGS = {'may_certify_others': 1, 'may_sign_data': 2, 'may_encrypt_comms': 4,
         'may_encrypt_storage': 8, 'may_have_been_split': 16,
         'may_be_used_for_auth': 32, 'may_have_multiple_owners': 128}
LISTS = ('regular_expressions', 'revocation_keys', 'issuer_key_ids',
         'notations', 'embedded_signatures')


class Owner(object):
    """what is signed: the attributes only look at the key's creation time"""


def start(v, t, present=None):
    """a signature with subpackets of the other types in both areas, and
    possibly one of type t"""
    if present is None:
        present = v.choice('present', ['no', 'hashed', 'unhashed'])
    if t == 2:
        present = 'hashed'
    others = [x for x in sorted(STOCK) if x != t]
    if v.symbolic:
        others = [2, 9, 16, 26, 27, 30]
        others = [x for x in others if x != t]
    hashed = b''
    unhashed = b''
    for i, x in enumerate(others):
        s = sub(x, STOCK[x], i % 3 == 0 and x != 20)
        if i % 4 == 1 and x != 2:
            unhashed = unhashed + s
        else:
            hashed = hashed + s
    mine = sub(t, STOCK[t]) if t in STOCK else b''
    if present == 'hashed':
        hashed = hashed + mine + sub(100, b'last')
    elif present == 'unhashed':
        unhashed = mine + unhashed
    body = (b'\x04\x13\x01\x08' + spec.be(len(hashed), 2) + hashed
            + spec.be(len(unhashed), 2) + unhashed + b'\x12\x34' + K.mpi(5))
    p = P.SignaturePacket.from_packet_content(NEW, 2, bytearray(body))
    owner = K.public('rsa', created=KEY_CREATED)
    sig = T.KeySignature.from_packet(p, owner)
    v.check_eq('areas as read', areas(sig),
               (take_apart(hashed), take_apart(unhashed)))
    return sig, owner, present


def snapshot(sig, names):
    out = []
    for n in names:
        x = getattr(sig, n)
        if n == 'regular_expressions':
            x = [r.pattern for r in x]
        elif n in ('notations', 'revocation_keys'):
            x = [bytes(s.to_subpacket()) for s in x]
        elif n == 'embedded_signatures':
            x = [bytes(s.to_packet()) for s in x]
        out.append((n, x))
    return out


def others_of(name):
    t = NAMES[name]
    names = [n for n in sorted(NAMES) if NAMES[n] != t]
    if name == 'creation_time':
        names = [n for n in names if n != 'signature_expiration_time']
    return names


def reread(sig, owner):
    """the signature as another reader of its octets sees it"""
    p = sig.to_packet()
    return T.KeySignature.from_packet(P.SignaturePacket.from_packet_content(
        NEW, 2, bytearray(p.content)), owner)


def without(pair, t):
    return ([x for x in pair[0] if x[0] % 128 != t],
            [x for x in pair[1] if x[0] % 128 != t])


def of_type(pair, t):
    return [x for x in pair[0] + pair[1] if x[0] % 128 == t]


def only_change(v, sig, owner, name, value, body, present=None, skip=()):
    """set one attribute"""
    t = NAMES[name]
    before = areas(sig)
    rest = [n for n in others_of(name) if n not in skip]
    if v.symbolic:
        rest = [n for n in rest if n not in LISTS]
    kept = snapshot(sig, rest)
    setattr(sig, name, value)
    v.check_eq('reads back', getattr(sig, name), value)
    v.check_eq('others read as before', snapshot(sig, rest), kept)
    after = areas(sig)
    mine = of_type(after, t)
    v.check_eq('exactly one subpacket', len(mine), 1)
    v.check_eq('its value', mine[0][1], body)
    a, b = without(after, t), without(before, t)
    if skip:
        a, b = without(a, 3), without(b, 3)
    v.check_eq('other subpackets unchanged', a, b)
    again = reread(sig, owner)
    v.check_eq('reads back from the octets', getattr(again, name), value)


# ---- attributes with one value

@harness()
def booleans(v):
    name, on = v.choice('attribute', [
        ('exportable', b'\x01'), ('revocable', b'\x01'),
        ('primary_user_id', b'\x01'),
        ('key_server_should_not_modify', b'\x80'),
        ('supports_modification_detection', b'\x01')])
    sig, owner, present = start(v, NAMES[name])
    value = v.choice('value', [True, False])
    only_change(v, sig, owner, name, value, on if value else b'\x00')


@harness()
def flags(v):
    name = v.choice('flag', sorted(FLAGS))
    sig, owner, present = start(v, 27)
    value = v.choice('value', [True, False])
    old = 0 if present == 'no' else 0x83
    bit = FLAGS[name]
    new = old - old // bit % 2 * bit + (bit if value else 0)
    before = snapshot(sig, sorted(FLAGS))
    only_change(v, sig, owner, name, value, spec.be(new, 1))
    for n, x in before:
        if n != name:
            v.check_eq('other flags', bool(getattr(sig, n)), bool(x))


@harness()
def numbers(v):
    name = v.choice('attribute', ['trust_depth', 'trust_amount',
                                  'revocation_code'])
    sig, owner, present = start(v, NAMES[name])
    n = v.int('value', 0, 255)
    one = spec.be(n, 1)
    if name == 'trust_depth':
        body = one + (b'\x00' if present == 'no' else b'\x78')
    elif name == 'trust_amount':
        body = (b'\x00' if present == 'no' else b'\x01') + one
    else:
        body = one + (b'' if present == 'no' else b'because')
    only_change(v, sig, owner, name, n, body)


@harness()
def texts(v):
    name = v.choice('attribute', ['preferred_key_server', 'policy_uri',
                                  'issuer_user_id', 'revocation_reason'])
    sig, owner, present = start(v, NAMES[name])
    text = v.text('value', lo=1, hi=10000 if v.symbolic else 60, maxchar=0x10ffff)
    body = text.encode('utf8')
    if name == 'revocation_reason':
        body = (b'\x00' if present == 'no' else b'\x03') + body
    only_change(v, sig, owner, name, text, body)


@harness()
def preferences(v):
    name = v.choice('attribute', [
        'preferred_symmetric_algorithms', 'preferred_hash_algorithms',
        'preferred_compression_algorithms'])
    sig, owner, present = start(v, NAMES[name])
    vals = [v.int('p%d' % i, 0, 255)
            for i in range(v.choice('count', [0, 1, 2, 5]))]
    body = b''
    for x in vals:
        body = body + spec.be(x, 1)
    only_change(v, sig, owner, name, vals, body)


# ---- times

@harness()
def expiration(v):
    sig, owner, present = start(v, 3)
    n = v.int('seconds', 1, 2 ** 32 - 1)
    only_change(v, sig, owner, 'signature_expiration_time',
                when(CREATED + n), spec.be(n, 4))


@harness()
def no_expiration(v):
    sig, owner, present = start(v, 3)
    only_change(v, sig, owner, 'signature_expiration_time', None, bytes(4))


@harness()
def key_expiration(v):
    sig, owner, present = start(v, 9)
    n = v.int('seconds', 1, 2 ** 32 - 1)
    only_change(v, sig, owner, 'key_expiration_time', when(KEY_CREATED + n),
                spec.be(n, 4))


@harness()
def no_key_expiration(v):
    sig, owner, present = start(v, 9)
    only_change(v, sig, owner, 'key_expiration_time', None, bytes(4))


@harness()
def creation(v):
    """the time of expiry stays as it is"""
    sig, owner, present = start(v, 2)
    expires = sig.signature_expiration_time
    t = v.int('time', 0, CREATED + 6 * 86400)
    only_change(v, sig, owner, 'creation_time', when(t), spec.be(t, 4),
                skip=('signature_expiration_time',))
    v.check_eq('expiry', sig.signature_expiration_time, expires)


@harness()
def creation_after_expiry(v):
    """refused, and nothing is changed"""
    sig, owner, present = start(v, 3, 'hashed')
    n = v.int('after', 1, 2 ** 30)
    t = CREATED + 7 * 86400 + n
    before = areas(sig)

    def put():
        sig.creation_time = when(t)
    out = v.outcome(put)
    v.check('refused', out[0] == 'exc')
    v.check_eq('unchanged', areas(sig), before)


@harness()
def constructed(v):
    """times and issuers given to new signatures"""
    version = v.choice('version', [3, 4])
    t = v.int('time', 0, 2 ** 32 - 1)
    kid = v.hexid('issuer', 8)
    owner = K.public('rsa')
    sig = T.KeySignature(owner, version, 0x13, 1, 8, b'\x12\x34', (5,),
                         creation_time=t, issuer_key_id=kid)
    v.check_eq('creation time', sig.creation_time, when(t))
    v.check_eq('issuer', list(sig.issuer_key_ids), [kid])
    body = bytes(sig.to_packet().content)
    if version == 4:
        got = areas(sig)
        v.check_eq('creation subpacket', of_type(got, 2),
                   [(2, spec.be(t, 4))])
        v.check_eq('issuer subpacket', of_type(got, 16),
                   [(16, bytes.fromhex(kid))])
        v.check_eq('nothing else', len(got[0]) + len(got[1]), 2)
    else:
        v.check_eq('octets', body[:15], b'\x03\x05\x13' + spec.be(t, 4)
                   + bytes.fromhex(kid))
    again = reread(sig, owner)
    v.check_eq('creation time read again', again.creation_time, when(t))
    v.check_eq('issuer read again', list(again.issuer_key_ids), [kid])


@harness()
def version_3(v):
    """the two attributes of version 3 signatures"""
    t = v.int('time', 0, 2 ** 32 - 1)
    t2 = v.int('new time', 0, 2 ** 32 - 1)
    a, b = v.hexid('issuer', 8), v.hexid('new issuer', 8)
    owner = K.public('rsa')
    sig = T.KeySignature(owner, 3, 0x13, 1, 8, b'\x12\x34', (5,),
                         creation_time=t, issuer_key_id=a)
    what = v.choice('set', ['time', 'issuer'])
    if what == 'time':
        sig.creation_time = when(t2)
        t = t2
    else:
        sig.issuer_key_ids = [b]
        a = b
    v.check_eq('creation time', sig.creation_time, when(t))
    v.check_eq('issuer', list(sig.issuer_key_ids), [a])
    v.check_eq('octets', bytes(sig.to_packet().content),
               b'\x03\x05\x13' + spec.be(t, 4) + bytes.fromhex(a)
               + b'\x01\x08\x12\x34' + K.mpi(5))
    v.check('no expiry', not sig.expired)


# ---- attributes with several values

def pool(v, name):
    """values an attribute may hold and the bodies of their subpackets"""
    if name == 'issuer_key_ids':
        ids = [ID, b'\x00' * 8, b'\xff' * 8, bytes(range(8))]
        return [(x.hex().upper(), x) for x in ids]
    if name == 'regular_expressions':
        ps = [STOCK[6][:-1], b'a.*', b'', b'^x$'][:4]
        return [(re.compile(x.decode()), x + b'\x00') for x in ps]
    if name == 'notations':
        N = signature.Notation
        out = [(N(u'in.test', u'me', u'123', True), STOCK[20])]
        for ns, n, val in ((u'b', u'a', u''), (u'b', u'a', u'x' * 300),
                           (u'example.com', u'\xe9', u'\u20ac')):
            nm = (n + u'@' + ns).encode('utf8')
            vv = val.encode('utf8')
            out.append((N(ns, n, val, True), b'\x80\0\0\0' + spec.be(
                len(nm), 2) + spec.be(len(vv), 2) + nm + vv))
        return out
    if name == 'revocation_keys':
        R = signature.RevocationKeyInfo
        out = []
        for alg, fp, s in ((17, bytes(range(20)), False),
                           (1, bytes(20), True), (1, bytes(20), False),
                           (255, b'\xff' * 20, True)):
            out.append((R(alg, fp.hex().upper(), s),
                        spec.be(0xc0 if s else 0x80, 1) + spec.be(alg, 1)
                        + fp))
        return out
    out = []
    for n in (77, 1, 2 ** 64, 0):
        p = P.SignaturePacket.from_packet_content(
            NEW, 2, bytearray(embedded(n)))
        out.append((T.KeySignature.from_packet(p, K.public('rsa')),
                    embedded(n)))
    return out


@bounded(secs=6)
def lists(v):
    """lists of up to 4 of 4 values each, for every attribute with several
    values, set twice, over signatures without and with a value"""
    name = v.choice('attribute', LISTS)
    t = NAMES[name]
    sig, owner, present = start(v, t, v.choice('at', ['no', 'hashed',
                                                      'unhashed']))
    values = pool(v, name)
    kept = snapshot(sig, others_of(name))
    rest = without(areas(sig), t)
    for step in range(2):
        which = [i for i in range(4) if v.choice('in%d%d' % (step, i),
                                                 [True, False])]
        if v.choice('reverse', [False, True]):
            which.reverse()
        setattr(sig, name, [values[i][0] for i in which])
        got = areas(sig)
        v.check_eq('one subpacket for each value',
                   sorted(b for _, b in of_type(got, t)),
                   sorted(values[i][1] for i in which))
        v.check_eq('other subpackets unchanged', without(got, t), rest)
        v.check_eq('others read as before', snapshot(sig, others_of(name)),
                   kept)
        for s in (sig, reread(sig, owner)):
            v.check_eq('number read back', len(getattr(s, name)), len(which))
            a = sorted(str(x) for x in snapshot(s, [name])[0][1])
            sig2 = [snapshot_of(name, values[i][0]) for i in which]
            v.check_eq('reads back', a, sorted(str(x) for x in sig2))


def snapshot_of(name, x):
    if name == 'regular_expressions':
        return x.pattern
    if name in ('notations', 'revocation_keys'):
        return bytes(x.to_subpacket())
    if name == 'embedded_signatures':
        return bytes(x.to_packet())
    return x


@bounded(secs=6)
def histories(v):
    """random sequences of up to 12 assignments to single-valued attributes,
    against a table of what was assigned"""
    sig, owner, present = start(v, 100, 'no')
    single = [n for n in sorted(NAMES) if n not in LISTS]
    table = dict(snapshot(sig, single))
    for step in range(v.choice('steps', range(1, 13))):
        name = v.choice('name%d' % step, single)
        if name in FLAGS or name in (
                'exportable', 'revocable', 'primary_user_id',
                'key_server_should_not_modify',
                'supports_modification_detection'):
            x = v.choice('bool%d' % step, [True, False])
        elif name in ('trust_depth', 'trust_amount', 'revocation_code'):
            x = v.int('int%d' % step, 0, 255)
        elif name.startswith('preferred_') and name.endswith('algorithms'):
            x = [v.int('alg%d' % step, 0, 255)]
        elif name == 'creation_time':
            x = when(v.int('t%d' % step, CREATED - 10000, CREATED + 10000))
        elif name == 'signature_expiration_time':
            x = when(v.int('e%d' % step, CREATED + 20000, CREATED + 90000))
        elif name == 'key_expiration_time':
            x = when(v.int('k%d' % step, KEY_CREATED + 1, CREATED + 90000))
        else:
            x = u'text %d' % step
        setattr(sig, name, x)
        table[name] = x
    for s in (sig, reread(sig, owner)):
        for n in single:
            v.check_eq('attribute ' + n, getattr(s, n), table[n])
    got = areas(sig)
    types = [t % 128 for t, _ in got[0] + got[1]]
    v.check_eq('one subpacket of each type', len(types), len(set(types)))


# ---- expiry

def v4_signature(v, period, owner, key_period=None):
    hashed = sub(2, spec.be(CREATED, 4)) + sub(16, bytes.fromhex(
        owner.key_id))
    if period is not None:
        hashed = hashed + sub(3, spec.be(period, 4))
    if key_period is not None:
        hashed = hashed + sub(9, spec.be(key_period, 4))
    body = (b'\x04\x1f\x01\x08' + spec.be(len(hashed), 2) + hashed
            + b'\x00\x00\x12\x34' + K.mpi(5))
    return T.KeySignature.from_packet(P.SignaturePacket.from_packet_content(
        NEW, 2, bytearray(body)), owner)


@harness()
def signatures_expire(v):
    period = v.choice('period', ['none', 'some'])
    n = v.int('seconds', 0, 2 ** 32 - 1) if period == 'some' else None
    owner = K.public('rsa', created=KEY_CREATED)
    sig = v4_signature(v, n, owner)
    if v.choice('near', [True, False]) and n is not None:
        now = CREATED + n + v.int('offset', -2, 2)
    else:
        now = v.int('now', 0, 2 ** 33)
    sig.get_current_time = lambda: when(now)
    expired = n is not None and n > 0 and now >= CREATED + n
    v.check_eq('expired', bool(sig.expired), expired)
    v.check_eq('expiry time', sig.signature_expiration_time,
               when(CREATED + n) if n else None)


@harness()
def keys_expire(v):
    """of version 4 keys: the period is in their self-signature"""
    n = v.int('seconds', 0, 2 ** 32 - 1)
    owner = K.public('rsa', created=KEY_CREATED)
    owner.signatures.append(v4_signature(v, None, owner, n))
    v.check_eq('expiry time', owner.expiration_time,
               when(KEY_CREATED + n) if n else None)
    v.check_eq('creation time', owner.creation_time, when(KEY_CREATED))


@harness()
def keys_without_period(v):
    owner = K.public('rsa', created=KEY_CREATED)
    v.check_eq('no signature', owner.expiration_time, None)
    owner.signatures.append(v4_signature(v, None, owner))
    v.check_eq('no period', owner.expiration_time, None)


@harness()
def version_3_keys_expire(v):
    days = v.int('days', 0, 65535)
    t = v.int('created', 0, 2 ** 32 - 1)
    k = K.NUMBERS['rsa']
    key = T.TransferablePublicKey.from_packet(P.PublicKeyPacket(
        NEW, 3, t, 1, days, k['n'], k['e']))
    v.check_eq('expiry time', key.expiration_time,
               when(t + 86400 * days) if days else None)


@bounded(secs=2)
def expired_signing_keys(v):
    """signature_verification.check_signature_values, for periods and times
    within two seconds of each other, or none"""
    owner = K.public('rsa', created=KEY_CREATED)
    n = v.choice('period', [None, 0, 1, CREATED - KEY_CREATED,
                            CREATED - KEY_CREATED + 5, 2 ** 32 - 1])
    owner.signatures.append(v4_signature(v, None, owner, n))
    sig = v4_signature(v, None, owner)
    if n:
        now = KEY_CREATED + n + v.int('offset', -2, 2)
    else:
        now = v.int('now', 0, 2 ** 33)
    v.assume(now >= CREATED)
    got = signature_verification.check_signature_values(
        owner, sig, current_time=when(now))
    v.check_eq('key expired', bool(got[0]),
               bool(n) and now >= KEY_CREATED + n)
