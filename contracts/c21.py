"""Messages as packets, against RFC 4880 5.4, 5.9 and 11.3."""
import datetime

from vc import bounded, harness, spec
from contracts import keys as K
from contracts.c19 import shortest
from pgp import armor
from pgp import message as M
from pgp import s2k
from pgp import utils
from pgp.packets import constants
from pgp.packets import packets as P

NEW = constants.NEW_PACKET_HEADER_TYPE
OLD = constants.OLD_PACKET_HEADER_TYPE
EPOCH = datetime.datetime(1970, 1, 1)


def literal(v, kinds=('b', 'u', 't'), small=False):
    """a message, and the body of its packet"""
    kind = v.choice('format', list(kinds))
    name = v.text('name', hi=120)
    at = v.int('time', 0, 2 ** 32 - 1)
    when = EPOCH + datetime.timedelta(seconds=at)
    if kind == 'b':
        hi = 200 if small else 70000
        data = v.bytes('data', hi=2 ** 32 - 400 if v.symbolic else hi)
        inner = data
        msg = M.BinaryMessage(data, name, when)
    else:
        data = v.text('text', hi=1000)
        inner = data.encode('ascii')
        msg = M.TextMessage(data, name, when)
        msg.data_format = kind.encode('ascii')
    head = name.encode('ascii')
    body = (kind.encode('ascii') + spec.be(len(head), 1) + head
            + spec.be(at, 4) + inner)
    return msg, body


def headers(v):
    return v.choice('headers', [NEW, OLD])


def parts(p):
    return p.type, p.header_format, bytes(p.content)


def through(v, pkts):
    """packets read from the octets of packets, one at a time"""
    if v.symbolic:
        return [type(p).from_packet_content(p.header_format, p.type,
                                            bytearray(p.content))
                for p in pkts]
    return [P.packet_from_packet_data(bytearray(bytes(p)), 0)[1]
            for p in pkts]


def same_literal(v, got, msg):
    v.check_eq('kind', type(got).__name__, type(msg).__name__)
    if isinstance(msg, M.TextMessage):
        v.check_eq('text', got.data, msg.data)
        v.check_eq('format', got.data_format, msg.data_format)
    else:
        v.check_eq('data', bytes(got.data), msg.data)
    v.check_eq('name', got.filename, msg.filename)
    v.check_eq('time', got.timestamp, msg.timestamp)


@harness()
def literals(v):
    msg, body = literal(v)
    fmt = headers(v)
    pkts = msg.to_packets(fmt)
    v.check_eq('packets', len(pkts), 1)
    v.check_eq('octets', bytes(pkts[0]), shortest(fmt, 11, body))
    same_literal(v, M.open_pgp_message_from_packets(through(v, pkts)), msg)


def signature(v, i, msg, few=False):
    """any signature, and its fields"""
    version = v.choice('version%d' % i, [4] if few else [3, 4])
    type_ = v.int('type%d' % i, 0, 255)
    alg = v.choice('algorithm%d' % i, [1] if few else [1, 17])
    hash_ = v.int('hash%d' % i, 0, 255)
    lo = 1 if v.symbolic else 0
    hi = 2 ** 1024
    values = [v.int('value%d_%d' % (i, j), lo, hi)
              for j in range(1 if alg == 1 else 2)]
    hash2 = v.bytes('hash2_%d' % i, 2)
    key = v.hexid('key%d' % i, 8)
    at = v.int('created%d' % i, 0, 2 ** 32 - 1)
    if version == 3:
        sig = M.MessageSignature(msg, 3, type_, alg, hash_, hash2, values,
                                 creation_time=at, issuer_key_id=key)
    else:
        sig = M.MessageSignature(msg, 4, type_, alg, hash_, hash2, values,
                                 creation_time=at, issuer_key_id=key,
                                 hashed_subpackets=[],
                                 unhashed_subpackets=[])
    return sig, (type_, hash_, alg, key)


def signed(v, one_pass, n):
    fmt = headers(v)
    msg, body = literal(v, ['b'], True)
    pairs = [signature(v, i, msg, v.symbolic and n > 2) for i in range(n)]
    sigs = [s for s, _ in pairs]
    pkts = M.SignedMessageWrapper(sigs, msg, one_pass).to_packets(fmt)
    own = [parts(s.to_packet(fmt)) for s in sigs]
    want = [(11, fmt, body)]
    if one_pass:
        # "the first Signature packet after the message corresponds to the
        # last one-pass packet"; "a zero value indicates that the next packet
        # is another One-Pass Signature packet"
        ops = []
        for i in range(n):
            type_, hash_, alg, key = pairs[i][1]
            ops.append((4, fmt, b'\x03' + spec.be(type_, 1)
                       + spec.be(hash_, 1) + spec.be(alg, 1)
                       + utils.hex_to_bytes(key, 8)
                       + (b'\x01' if i == 0 else b'\x00')))
        want = ops[::-1] + want + own
    else:
        want = own + want
    v.check_eq('packets', len(pkts), len(want))
    for i in range(len(want)):
        v.check_eq('packet %d' % i, parts(pkts[i]), want[i])
    got = M.open_pgp_message_from_packets(through(v, pkts))
    v.check_eq('kind', type(got).__name__, 'SignedMessageWrapper')
    v.check_eq('one-pass', got.one_pass, one_pass)
    same_literal(v, got.get_message(), msg)
    v.check_eq('signatures', len(got.signatures), n)
    for i in range(n):
        v.check_eq('signature %d' % i,
                   parts(got.signatures[i].to_packet(fmt)), own[i])
    again = got.to_packets(fmt)
    v.check_eq('written again', len(again), len(want))
    for i in range(len(want)):
        v.check_eq('again %d' % i, parts(again[i]), want[i])


@harness()
def signed_one_pass_by_one(v):
    signed(v, True, 1)


@harness()
def signed_one_pass_by_two(v):
    signed(v, True, 2)


@harness()
def signed_before_by_two(v):
    signed(v, False, 2)


@bounded(secs=5)
def signed_by_many(v):
    """up to thirty signatures"""
    signed(v, v.bool('one-pass'),
           v.choice('n', [1, 2, 3, 4, 5, 7, 9, 12, 17, 30]))


@harness()
def compressed(v):
    """compressed literals"""
    fmt = headers(v)
    msg, body = literal(v, ['b'])
    alg = v.choice('compression', [0, 1, 2, 3])
    level = None if v.choice('default', 2) else v.int('level', 1, 9)
    pkts = msg.compress(alg, level).to_packets(fmt)
    v.check_eq('packets', len(pkts), 1)
    v.check_eq('packet', (pkts[0].type, pkts[0].content[0]), (8, alg))
    got = M.open_pgp_message_from_packets(through(v, pkts))
    v.check_eq('kind', type(got).__name__, 'CompressedMessageWrapper')
    v.check_eq('algorithm', got.compression_algorithm, alg)
    same_literal(v, got.get_message(), msg)


def encrypt(v, n):
    fmt = headers(v)
    objs = []
    bodies = []
    for i in range(n):
        kind = v.choice('kind%d' % i, ['rsa', 'elgamal', 'passphrase',
                                       'direct'])
        if kind in ('rsa', 'elgamal'):
            objs.append(M.PublicKeySessionKey(
                3, public_key_algorithm=1 if kind == 'rsa' else 16,
                key_id=v.hexid('key%d' % i, 8),
                encrypted_key=v.bytes('values%d' % i, lo=1, hi=9000)))
            bodies.append(b'\x03' + bytes(utils.hex_to_bytes(
                objs[i].key_id, 8)) + (b'\x01' if kind == 'rsa' else b'\x10')
                + objs[i].encrypted_key)
        else:
            s = s2k.S2K_TYPES[1](hash_algorithm=v.int('hash%d' % i, 0, 255),
                                 symmetric_algorithm=9,
                                 salt=v.bytes('salt%d' % i, 8))
            objs.append(M.SymmetricSessionKey(
                9, s, encrypted_key=v.bytes('wrapped%d' % i, 33)
                if kind == 'passphrase' else None))
            bodies.append(b'\x04\x09\x01' + spec.be(s.hash_algorithm, 1)
                          + s.salt + (objs[i].encrypted_key or b''))
    mdc = v.choice('protected', [True, False])
    data = v.bytes('data', hi=2 ** 32 - 400 if v.symbolic else 70000)
    body = M.SymmetricallyEncryptedMessageData(
        encrypted_data=data, integrity_protected=mdc, version=1)
    pkts = M.EncryptedMessageWrapper(objs, body).to_packets(fmt)
    v.check_eq('tags', [p.type for p in pkts],
               [1 if isinstance(o, M.PublicKeySessionKey) else 3
                for o in objs] + [18 if mdc else 9])
    for i in range(n):
        v.check_eq('session key %d' % i, bytes(pkts[i].content), bodies[i])
    v.check_eq('data', bytes(pkts[n].content),
               (b'\x01' if mdc else b'') + data)
    got = M.open_pgp_message_from_packets(through(v, pkts))
    v.check_eq('kind', type(got).__name__, 'EncryptedMessageWrapper')
    v.check_eq('recipients', len(got.session_keys), n)
    again = got.to_packets(fmt)
    v.check_eq('packets', len(again), n + 1)
    for i in range(n + 1):
        v.check_eq('packet %d' % i, parts(again[i]), parts(pkts[i]))


@harness()
def encrypted(v):
    """session keys of any content, in order, before the data"""
    encrypt(v, 2)


@harness()
def encrypted_without_session_key(v):
    """the data packet alone"""
    fmt = headers(v)
    mdc = v.choice('protected', [True, False])
    data = v.bytes('data', hi=2 ** 32 - 400 if v.symbolic else 70000)
    body = M.SymmetricallyEncryptedMessageData(
        encrypted_data=data, integrity_protected=mdc, version=1)
    pkt = body.to_packet(fmt)
    got = M.open_pgp_message_from_packets(through(v, [pkt]))
    v.check_eq('kind', type(got).__name__, 'EncryptedMessageWrapper')
    again = got.to_packets(fmt)
    v.check_eq('packets', len(again), 1)
    v.check_eq('packet', parts(again[0]), parts(pkt))


@bounded(secs=4)
def encrypted_to_many(v):
    """up to forty recipients or passphrases"""
    encrypt(v, v.choice('recipients', [1, 3, 4, 5, 8, 9, 12, 17, 24, 40]))


@bounded(secs=6)
def recipients(v):
    """up to four named and four hidden recipients"""
    def some(name):
        out = []
        for i in range(v.choice(name, 5)):
            out.append(v.choice('%s%d' % (name, i), ['rsa', 'rsa2', 'elg']))
        return out
    named, hidden = some('named'), some('hidden')
    key = v.bytes('session key', 32)
    mdc = v.choice('protected', [True, False])
    msg = M.BinaryMessage(b'text', u'', EPOCH)
    pub = dict((w, K.public(w, algorithm=16 if w == 'elg' else 1))
               for w in ('rsa', 'rsa2', 'elg'))
    got = msg.public_key_encrypt(
        9, public_keys=[pub[w] for w in named],
        hidden_public_keys=[pub[w] for w in hidden], session_key=key,
        integrity_protect=mdc)
    pkts = got.to_packets(headers(v))
    n = len(named) + len(hidden)
    v.check_eq('tags', [p.type for p in pkts], [1] * n + [18 if mdc else 9])
    for i in range(n):
        w = (named + hidden)[i]
        v.check_eq('algorithm %d' % i, pkts[i].public_key_algorithm,
                   16 if w == 'elg' else 1)
        v.check_eq('recipient %d' % i, bytes(pkts[i].content)[1:9],
                   bytes(8) if i >= len(named)
                   else bytes.fromhex(pub[w].key_id))
        v.check_eq('opened by recipient %d' % i,
                   v.outcome(got.session_keys[i].get_algorithm_and_session_key,
                             K.secret(w, algorithm=16 if w == 'elg' else 1)),
                   ('ok', (9, key)))


def nested(v, msg, depth):
    """a message around a message"""
    how = v.choice('layer%d' % depth, ['signed', 'one-pass', 'compressed',
                                       'encrypted'])
    if how in ('signed', 'one-pass'):
        if depth:
            how = 'compressed'     # literals only can be signed
        else:
            return how, msg.sign(K.secret(v.choice('by%d' % depth,
                                                   ['rsa', 'dsa'])),
                                 hash_algorithm=8,
                                 one_pass=how == 'one-pass')
    if how == 'compressed':
        return how, msg.compress(v.choice('compression%d' % depth,
                                          [0, 1, 2, 3]), 6)
    return how, msg.symmetric_encrypt(9, b'word', s2k_type=0)


@bounded(secs=8)
def layers(v):
    """literals of up to 200 octets or 1000 characters in up to three layers,
    written to octets or armor and read with the public functions"""
    from pgp import shortcuts
    msg, body = literal(v, small=True)
    inner = msg
    hows = []
    for i in range(v.int('layers', 0, 3)):
        how, msg = nested(v, msg, i)
        hows.append(how)
    data = b''.join(bytes(p) for p in msg.to_packets())
    if v.bool('armored'):
        data = str(armor.ASCIIArmor(armor.PGP_MESSAGE, data))
    got = shortcuts.read_message(data, armored=isinstance(data, str)
                                 or v.bool('said to be'))\
        if isinstance(data, str) else shortcuts.read_message(data)
    for how in hows[::-1]:
        v.check_eq('layer', type(got).__name__, {
            'signed': 'SignedMessageWrapper',
            'one-pass': 'SignedMessageWrapper',
            'compressed': 'CompressedMessageWrapper',
            'encrypted': 'EncryptedMessageWrapper'}[how])
        if how in ('signed', 'one-pass'):
            v.check_eq('one-pass', got.one_pass, how == 'one-pass')
            v.check_eq('signatures', len(got.signatures), 1)
        got = got.get_message(b'word') if how == 'encrypted' \
            else got.get_message()
    same_literal(v, got, inner)


@harness()
def signed_one_pass_by_three(v):
    signed(v, True, 3)
