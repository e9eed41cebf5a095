"""What a key says of itself: the most recent of its own signatures on each
of its parts, RFC 4880 5.2.3.3."""
import datetime

from vc import bounded, harness, spec
from contracts import keys as K
from pgp import transferrable_keys as T

OTHER = '0123456789ABCDEF'
DIRECT, BINDING = [0x1f], [0x18]
CERTIFICATIONS = [0x10, 0x11, 0x12, 0x13]
# part: (types of self-signatures, type of revocations)
TYPES = {'key': (DIRECT, 0x20), 'subkey': (BINDING, 0x28),
         'user ID': (CERTIFICATIONS, 0x30),
         'attribute': (CERTIFICATIONS, 0x30)}
EPOCH = datetime.datetime(1970, 1, 1)


def some_key(v):
    key = K.public('rsa')
    sub = T.PublicSubkey(key, 4, 16, EPOCH, prime_p=23, group_generator_g=5,
                         key_value_y=8)
    uid = T.UserID(key, u'Someone <someone@example.com>', [])
    att = T.UserAttribute(key, [], [])
    sub2 = T.PublicSubkey(key, 4, 16, EPOCH, prime_p=29, group_generator_g=7,
                          key_value_y=8)
    key.subkeys = [sub, sub2]
    key.user_ids = [uid]
    key.user_attributes = [att]
    # (digests are not interpreted)
    v.assume(OTHER not in (key.key_id, sub.key_id, sub2.key_id))
    v.assume(len(set([key.key_id, sub.key_id, sub2.key_id])) == 3)
    return key, {'key': key, 'subkey': sub, 'user ID': uid,
                 'attribute': att}


def values(v, i, name):
    """what one signature says"""
    if name == 'may_sign_data':
        return {name: v.bool('signs%d' % i)}
    if name == 'preferred_hash_algorithms':
        return {name: [v.int('hash%d' % i, 0, 255)]}
    return {
        'may_sign_data': v.bool('signs%d' % i),
        'preferred_hash_algorithms': [v.int('hash%d' % i, 0, 255)],
        'preferred_symmetric_algorithms': [v.int('cipher%d' % i, 0, 255)],
        'preferred_compression_algorithms': [v.int('zip%d' % i, 0, 255)],
        'primary_user_id': v.bool('primary%d' % i),
        'preferred_key_server': u'hkp://%d' % i,
        'policy_uri': u'http://%d' % i,
        'key_server_should_not_modify': v.bool('fixed%d' % i),
        'supports_modification_detection': v.bool('mdc%d' % i),
    }


WHICH = [('self', 'key'), ('self', 'subkey2'), ('self', 'another'),
         ('revocation', 'key'), ('revocation', 'another'), ('other', 'key')]
MORE = [('self', 'subkey'), ('revocation', 'subkey'), ('revocation', 'subkey2'),
        ('other', 'subkey'), ('other', 'another')]
NAMES = ['may_sign_data', 'preferred_hash_algorithms']


def signature(v, i, key, part, obj, times, name):
    types, revocation = TYPES[part]
    kind, by = v.choice('which%d' % i, WHICH if v.symbolic else WHICH + MORE)
    type_ = types[0]
    if kind == 'self' and not v.symbolic:
        type_ = v.choice('certification%d' % i, types)
    if kind == 'revocation':
        type_ = revocation
    if kind == 'other':
        type_ = v.int('type%d' % i, 0, 255)
        for t in types + [revocation]:
            v.assume(type_ != t)
    issuer = {'key': key.key_id, 'subkey': key.subkeys[0].key_id,
              'subkey2': key.subkeys[1].key_id,
              'another': OTHER}[by]
    at = v.int('created%d' % i, 0, 2 ** 32 - 1)
    for t in times:
        v.assume(at != t)
    times.append(at)
    sig = T.KeySignature(obj, 4, type_, 1, 8, b'\0\0', [1],
                         creation_time=at, issuer_key_id=issuer,
                         hashed_subpackets=[], unhashed_subpackets=[])
    vals = values(v, i, name)
    if kind != 'revocation':
        for name in sorted(vals):
            setattr(sig, name, vals[name])
    return sig, by != 'another', kind, at, vals


def one(v):
    return v.choice('what', NAMES if v.symbolic else NAMES + ['all'] * 4)


def latest(sigs, kind):
    best = None
    for s in sigs:
        if s[1] and s[2] == kind and (best is None or s[3] > best[3]):
            best = s
    return best


def said(v, part, n):
    key, parts = some_key(v)
    obj = parts[part]
    times = []
    what = one(v)
    sigs = [signature(v, i, key, part, obj, times, what) for i in range(n)]
    obj.signatures = [s[0] for s in sigs]
    best = latest(sigs, 'self')
    v.check('most recent', obj.get_most_recent_selfsig()
            is (None if best is None else best[0]))
    gone = latest(sigs, 'revocation')
    v.check('most recent revocation', obj.get_most_recent_selfsig(True)
            is (None if gone is None else gone[0]))
    v.check_eq('revoked', obj.revoked, gone is not None)
    for name in sorted(sigs[0][4]):
        if best is not None:
            v.check_eq(name, getattr(obj, name), best[4][name])
        else:
            v.check('no ' + name, not getattr(obj, name))
    v.check_eq('own signatures', len(obj.self_signatures),
               len([1 for s in sigs if s[1]]))
    return obj, sigs, best


@harness()
def of_keys(v):
    said(v, 'key', 2)


@harness()
def of_subkeys(v):
    said(v, 'subkey', 2)


@harness()
def of_user_ids(v):
    said(v, 'user ID', 2)


@harness()
def of_attributes(v):
    said(v, 'attribute', 2)


def setting(v, part):
    """an attribute set is set in the most recent self-signature alone"""
    key, parts = some_key(v)
    obj = parts[part]
    times = []
    what = one(v)
    sigs = [signature(v, i, key, part, obj, times, what) for i in range(2)]
    obj.signatures = [s[0] for s in sigs]
    best = latest(sigs, 'self')
    v.assume(best is not None)
    before = [bytes(s[0].to_packet().content) for s in sigs]
    new = values(v, 9, what)
    names = sorted(new)
    name = v.choice('attribute', names)
    setattr(obj, name, new[name])
    v.check_eq('set', getattr(obj, name), new[name])
    for s, old in zip(sigs, before):
        if s is best:
            v.check_eq('there', getattr(s[0], name), new[name])
            for other in names:
                if other != name:
                    v.check_eq('not ' + other, getattr(s[0], other),
                               s[4][other])
        else:
            v.check_eq('others', bytes(s[0].to_packet().content), old)


@harness()
def setting_of_keys(v):
    setting(v, 'key')


@harness()
def setting_of_user_ids(v):
    setting(v, 'user ID')


@harness()
def expired_revocations(v):
    """a revocation counts until it expires"""
    part = v.choice('part', sorted(TYPES))
    key, parts = some_key(v)
    obj = parts[part]
    now = v.int('now', 0, 2 ** 33)
    sigs = []
    good = []
    for i in range(1 if v.symbolic else 1 + v.choice('more', 3)):
        at = v.int('created%d' % i, 0, 2 ** 32 - 1)
        n = v.int('period%d' % i, 1, 2 ** 32 - 1) \
            if v.choice('expires%d' % i, [True, False]) else None
        by = v.choice('by%d' % i, [key.key_id, OTHER])
        sig = T.KeySignature(
            obj, 4, TYPES[part][1], 1, 8, b'\0\0', [1], creation_time=at,
            issuer_key_id=by,
            hashed_subpackets=[], unhashed_subpackets=[])
        if n is not None:
            sig.signature_expiration_time = EPOCH + datetime.timedelta(
                seconds=at + n)
        sig.get_current_time = lambda: EPOCH + datetime.timedelta(seconds=now)
        sigs.append(sig)
        if by == OTHER:
            continue
        if n is None or now < at + n:
            good.append(sig)
    obj.signatures = sigs
    v.check_eq('revoked', obj.revoked, len(good) > 0)
    v.check_eq('revocations', len(obj.revocation_signatures), len(good))


@bounded(secs=4)
def of_many(v):
    """up to six signatures on each part"""
    said(v, v.choice('part', sorted(TYPES)), v.int('n', 1, 6))


@bounded(secs=3)
def setting_of_others(v):
    """of subkeys and attributes"""
    setting(v, v.choice('part', ['subkey', 'attribute']))
