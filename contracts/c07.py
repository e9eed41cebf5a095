"""When a signature is accepted."""
from Crypto.Signature import PKCS1_v1_5
from Crypto.Util.number import bytes_to_long, long_to_bytes

from vc import bounded, harness, spec
from contracts import keys as K
from contracts.c06 import HASH, trailer
from pgp import message, signature, utils
from pgp import transferrable_keys as T
from pgp.packets import packets as P

KEYS = ['rsa', 'dsa', 'elg']


def values_of(v, which):
    n = 1 if which in ('rsa', 'rsa2') else 2
    return [v.nat('value%d' % i) for i in range(n)]


def accepts(v, key, which, d, values):
    """the public-key operation"""
    k = K.NUMBERS[which]
    if v.symbolic:
        obj = key._get_key_obj()
        if which == 'rsa':
            n = spec.cdiv(spec.bitlen(k['n']), 8)
            if spec.cdiv(spec.bitlen(values[0]), 8) > n:
                return False
            return PKCS1_v1_5.new(obj).verify(d, spec.be(values[0], n))
        if which == 'dsa':
            return obj.verify(spec.ival(d.digest()[:20]), values)
        return obj.verify(PKCS1_v1_5.EMSA_PKCS1_V1_5_ENCODE(
            d, spec.bitlen(k['p']) - 1), values)
    if which == 'dsa':
        r, s = values
        if not (0 < r < k['q'] and 0 < s < k['q']):
            return False
        m = bytes_to_long(d.digest()[:20])
        w = pow(s, k['q'] - 2, k['q'])
        return pow(k['g'], m * w % k['q'], k['p']) * pow(
            k['y'], r * w % k['q'], k['p']) % k['p'] % k['q'] == r
    if which == 'elg':
        r, s = values
        if not 0 < r < k['p']:
            return False
        m = bytes_to_long(PKCS1_v1_5.EMSA_PKCS1_V1_5_ENCODE(
            d, k['p'].bit_length() - 1))
        return pow(k['y'], r, k['p']) * pow(r, s, k['p']) % k['p'] == pow(
            k['g'], m, k['p'])
    n = (k['n'].bit_length() + 7) // 8
    if values[0] >= 256 ** n:
        return False
    em = long_to_bytes(pow(values[0], k['e'], k['n']), n)
    return em == PKCS1_v1_5.EMSA_PKCS1_V1_5_ENCODE(d, n)


def issuer_areas(v, ids):
    """hashed and unhashed areas naming these issuers"""
    areas = [b'', b'']
    for i, who in enumerate(ids):
        at = v.choice('issuer in %d' % i, [0, 1])
        areas[at] = areas[at] + b'\x09\x10' + who
    return areas


def deciding(v, which):
    """any signature on any document: accepted exactly when every check
    succeeds"""
    alg = K.ALGORITHM[which]
    if which == 'rsa':
        alg = v.choice('key algorithm', [1, 3])
    elif which == 'elg':
        alg = 20
    kind = 'key' if v.symbolic else v.choice('verifier', [
        'key', 'secret key', 'subkey'])
    key = {'key': lambda: K.public(which, algorithm=alg),
           'secret key': lambda: K.secret(which, algorithm=alg),
           'subkey': lambda: K.subkey(primary, which, algorithm=alg)}[kind]
    primary = K.public('rsa2')
    key = key()
    own = utils.hex_to_bytes(key.key_id, 8)
    own = bytes(own)
    version = v.choice('version', [3, 4])
    st = 0 if v.symbolic else v.choice('type', [0, 2, 0x10])
    data = v.bytes('data', hi=2 ** 32 if v.symbolic else 60)
    h = v.choice('hash', [2, 8] if v.symbolic else sorted(HASH))
    pk = v.int('pk', 0, 255)
    created = v.int('created', 0, 2 ** 31 - 1)
    n = 1 if version == 3 else v.choice('issuers', [0, 1, 2])
    ids = [v.bytes('issuer%d' % i, 8) for i in range(n)]
    hash2 = v.bytes('hash2', 2)
    values = values_of(v, which)
    if not v.symbolic:
        # near misses of good signatures
        how = v.choice('how', ['all', 'issuer', 'pk', 'hash2', 'value',
                               'none', 'big'])
        if how != 'issuer' and n:
            ids[v.choice('own', n)] = own
        if how != 'pk':
            pk = alg
    hashed, unhashed = issuer_areas(v, ids)
    target = data if st == 0 else b''
    item = data
    if st == 0x10:
        owner = K.public('dsa')
        item = T.UserID(owner, u'user')
        body = K.public_body('dsa')
        target = b'\x99' + spec.be(len(body), 2) + body + (
            b'user' if version == 3 else b'\xb4\x00\x00\x00\x04user')
    d = HASH[h].new(target + trailer(version, st, pk, h, hashed, created))
    if not v.symbolic:
        if how != 'hash2':
            hash2 = d.digest()[:2]
        if how not in ('value', 'all'):
            s = utils.sign_hash(alg, K.secret(which, algorithm=alg)
                                ._get_key_obj(), d)
            values = [int(x) for x in s]
        if how == 'big' and which == 'rsa':
            values = [values[0] + 256 ** 128 * v.choice('more', [1, 2])]
    if version == 4:
        body = (b'\x04' + spec.be(st, 1) + spec.be(pk, 1) + spec.be(h, 1)
                + spec.be(len(hashed), 2) + hashed
                + spec.be(len(unhashed), 2) + unhashed)
    else:
        body = (b'\x03\x05' + spec.be(st, 1) + spec.be(created, 4) + ids[0]
                + spec.be(pk, 1) + spec.be(h, 1))
    p = P.SignaturePacket.from_packet_content(0, 2, bytearray(
        body + hash2 + K.mpi(1)))
    p.signature_values = values
    sig = signature.BaseSignature.from_packet(p, item)
    out = v.outcome(key.verify, sig, item)
    named = False
    for who in ids:
        if who == own:
            named = True
    good = (named and pk == alg and hash2 == d.digest()[:2]
            and accepts(v, key, which, d, values))
    if good:
        v.check_eq('accepted', out, ('ok', True))
    else:
        v.check_eq('refused', out[0], 'exc')
        if pk == alg:
            v.check_eq('as a failed verification', out[1],
                       'SignatureVerificationFailed')


@harness()
def deciding_rsa(v):
    deciding(v, 'rsa')


@harness()
def deciding_dsa(v):
    deciding(v, 'dsa')


@harness()
def deciding_elgamal(v):
    deciding(v, 'elg')


def made_here(v, which, alg):
    """a signature made by a secret key, as an object or written and read
    back, is accepted by its public key"""
    kv = v.choice('key version', [3, 4]) if alg in (1, 3) else 4
    sk = K.secret(which, algorithm=alg, version=kv)
    version = v.choice('version', [3, 4])
    h = v.choice('hash', [2, 10] if v.symbolic else sorted(HASH))
    what = v.choice('what', ['document', 'user'] if v.symbolic else
                    ['document', 'text', 'user', 'key', 'subkey',
                     'revocation'])
    item = v.bytes('data', hi=2 ** 32 if v.symbolic else 60)
    st = {'document': 0, 'text': 1, 'user': 0x13, 'key': 0x1f,
          'subkey': 0x18, 'revocation': 0x20}[what]
    owner = K.public('rsa')
    if what == 'user':
        item = T.UserID(owner, u'somebody')
    elif what in ('key', 'revocation'):
        item = owner
    elif what == 'subkey':
        item = K.subkey(owner, 'elg', algorithm=16)
    sig = sk.sign(item, version, st, h)
    pk = v.choice('verifier', ['secret', 'public', 'made from it'])
    key = {'secret': lambda: sk,
           'public': lambda: K.public(which, algorithm=alg, version=kv),
           'made from it': lambda: sk.to_public_key()}[pk]()
    if v.choice('written', [0, 1]):
        p = sig.to_packet()
        q = P.SignaturePacket.from_packet_content(
            p.header_format, 2, bytearray(p.content))
        sig = type(sig).from_packet(q, item)
    v.check_eq('accepted', key.verify(sig, item), True)


@harness()
def made_rsa(v):
    made_here(v, 'rsa', v.choice('algorithm', [1, 3]))


@harness()
def made_dsa(v):
    made_here(v, 'dsa', 17)


@harness()
def made_elgamal(v):
    made_here(v, 'elg', 20)
