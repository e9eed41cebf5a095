"""Encrypted data, against RFC 4880 5.7, 5.13 and 5.14."""
import datetime

from Crypto.Hash import SHA

from vc import bounded, harness, spec
from contracts import keys as K
from contracts.c04 import BLOCKS
from contracts.c09 import KEYS, cfb
from pgp import message as M
from pgp import utils
from pgp.packets import packets as P

DATA = M.SymmetricallyEncryptedMessageData
THEN = datetime.datetime(2000, 1, 1)


def session(v):
    alg = v.choice('cipher', [2, 9] if v.symbolic else sorted(KEYS))
    return alg, v.bytes('session key', KEYS[alg]), BLOCKS[alg]


def sha1(*parts):
    h = SHA.new()
    for p in parts:
        h.update(p)
    return h.digest()


def protected(alg, key, plain):
    """RFC 4880 5.13: CFB with a zero IV"""
    return cfb(alg, key, bytes(BLOCKS[alg]), plain)


def unprotected(alg, key, prefix, plain):
    """RFC 4880 5.7: resynchronised after the prefix"""
    n = BLOCKS[alg]
    first = cfb(alg, key, bytes(n), prefix)
    return first + cfb(alg, key, first[2:n + 2], plain)


def content(v, small=False):
    hi = 2 ** 32 - 2000 if v.symbolic else (64 if small else 20000)
    return v.bytes('content', hi=hi)


def literal(v, text):
    return b''.join(bytes(p) for p in
                    M.BinaryMessage(text, u'', THEN).to_packets())


@harness()
def protected_octets(v):
    """what is written for any octets"""
    alg, key, n = session(v)
    text = content(v)
    v.assume(len(text) > 0)
    obj = DATA(alg, key, text, integrity_protected=True, version=1)
    plain = cfb(alg, key, bytes(n), bytes(obj.data), True)
    v.check_eq('length', len(plain), n + 2 + len(text) + 22)
    iv = plain[:n]
    v.check_eq('prefix', plain[n:n + 2], iv[n - 2:])
    v.check_eq('content', plain[n + 2:n + 2 + len(text)], text)
    v.check_eq('MDC', plain[n + 2 + len(text):], b'\xd3\x14' + sha1(
        iv, iv[n - 2:], text, b'\xd3\x14'))
    p = obj.to_packet()
    v.check_eq('packet', (p.type, bytes(p.content)),
               (18, b'\x01' + bytes(obj.data)))


@harness()
def unprotected_octets(v):
    alg, key, n = session(v)
    text = content(v)
    v.assume(len(text) > 0)
    obj = DATA(alg, key, text)
    data = bytes(obj.data)
    v.check_eq('length', len(data), n + 2 + len(text))
    prefix = cfb(alg, key, bytes(n), data[:n + 2], True)
    v.check_eq('prefix', prefix[n:], prefix[n - 2:n])
    v.check_eq('content', cfb(alg, key, data[2:n + 2], data[n + 2:], True),
               text)
    p = obj.to_packet()
    v.check_eq('packet', (p.type, bytes(p.content)), (9, data))


def read(p):
    return DATA.from_packet(type(p).from_packet_content(
        p.header_format, p.type, bytearray(p.content)))


@harness()
def round_trip(v):
    """a literal message of any content"""
    alg, key, n = session(v)
    text = content(v)
    mdc = v.choice('protected', [True, False])
    obj = DATA(alg, key, literal(v, text), integrity_protected=mdc,
               version=1)
    again = read(obj.to_packet())
    v.check_eq('protected', again.integrity_protected, mdc)
    got = again.decrypt(alg, key)
    v.check_eq('content', bytes(got.data), text)
    v.check_eq('rest', (got.filename, got.timestamp), (u'', THEN))


@harness()
def genuine(v):
    """what any other implementation writes for a literal message is read,
    whatever the random prefix"""
    alg, key, n = session(v)
    text = content(v)
    iv = v.bytes('iv', n)
    plain = literal(v, text)
    mdc = v.choice('protected', [True, False])
    if mdc:
        plain = plain + b'\xd3\x14'
        data = protected(alg, key, iv + iv[n - 2:] + plain + sha1(
            iv, iv[n - 2:], plain))
    else:
        data = unprotected(alg, key, iv + iv[n - 2:], plain)
    obj = DATA(encrypted_data=bytearray(data), integrity_protected=mdc,
               version=1)
    got = obj.decrypt(alg, key)
    v.check_eq('content', bytes(got.data), text)


@harness()
def modified(v):
    """every ciphertext whose decrypted octets do not repeat the prefix or do
    not end in the right code is refused"""
    alg, key, n = session(v)
    iv, rep = v.bytes('iv', n), v.bytes('repeated', 2)
    body = v.bytes('body', hi=2 ** 32 if v.symbolic else 100)
    tag, code = v.bytes('tag', 2), v.bytes('code', 20)
    if not v.symbolic:
        keep = v.choice('keep', ['rep', 'tag', 'code', 'none'])
        if keep != 'rep':
            rep = iv[n - 2:]
        if keep in ('code', 'none'):
            tag = b'\xd3\x14'
        if keep != 'code':
            code = sha1(iv, iv[n - 2:], body, tag)
        if keep == 'none':
            code = bytearray(code)
            code[v.choice('at', 20)] ^= 1 + v.choice('bits', 255)
            code = bytes(code)
    good = rep == iv[n - 2:] and tag == b'\xd3\x14' and code == sha1(
        iv, iv[n - 2:], body, b'\xd3\x14')
    v.assume(not good)
    obj = DATA(encrypted_data=bytearray(protected(
        alg, key, iv + rep + body + tag + code)),
        integrity_protected=True, version=1)
    v.check_eq('refused', v.outcome(obj.decrypt, alg, key),
               ('exc', 'ValueError'))


@harness()
def short(v):
    """too few octets for the prefix and the code"""
    alg, key, n = session(v)
    data = v.bytes('data', hi=39)
    v.assume(len(data) < n + 24)
    obj = DATA(encrypted_data=bytearray(data), integrity_protected=True,
               version=1)
    v.check_eq('refused', v.outcome(obj.decrypt, alg, key),
               ('exc', 'ValueError'))


# ------------------------------------------------------------- messages

def message(v, text, kind):
    if kind == 'text':
        return M.TextMessage(v.text('text', hi=64), u'name', THEN)
    inner = M.BinaryMessage(text, u'name', THEN)
    if kind == 'compressed':
        return inner.compress(v.choice('compression', [0, 1, 2, 3]), 6)
    if kind in ('one-pass', 'signed'):
        return inner.sign(K.secret('rsa'), hash_algorithm=8,
                          one_pass=(kind == 'one-pass'))
    return inner


def same(v, got, want, kind):
    v.check_eq('kind', type(got).__name__, type(want).__name__)
    if kind == 'compressed':
        v.check_eq('algorithm', got.compression_algorithm,
                   want.compression_algorithm)
        got, want = got.get_message(), want.get_message()
    if kind in ('one-pass', 'signed'):
        v.check_eq('signatures', len(got.signatures), 1)
        v.check_eq('one-pass', got.one_pass, kind == 'one-pass')
        v.check_eq('signature',
                   bytes(got.signatures[0].to_packet().content),
                   bytes(want.signatures[0].to_packet().content))
        v.check('of the message', K.public('rsa').verify(
            got.signatures[0], got.get_message()))
        got, want = got.get_message(), want.get_message()
    v.check_eq('content', got.data, want.data)
    v.check_eq('rest', (got.filename, got.timestamp), (u'name', THEN))


def sent(msg):
    """what is read from the octets written for a message"""
    octets = b''.join(bytes(p) for p in msg.to_packets())
    pkts = []
    offset = 0
    while offset < len(octets):
        offset, p = P.packet_from_packet_data(bytearray(octets), offset)
        pkts.append(p)
    return M.open_pgp_message_from_packets(pkts)


def by_key(v, kind, mdc, how):
    alg = v.choice('cipher', [9] if v.symbolic else sorted(KEYS))
    text = content(v, True)
    msg = message(v, text, kind)
    which = v.choice('key', ['rsa'] if v.symbolic else ['rsa', 'elg'])
    number = 1 if which == 'rsa' else 16
    recipient = K.public(which, algorithm=number)
    if how == 'key':
        enc = msg.public_key_encrypt(alg, recipient, integrity_protect=mdc)
    elif how == 'keys':
        enc = msg.public_key_encrypt(alg, public_keys=[recipient],
                                     integrity_protect=mdc)
    else:
        enc = msg.public_key_encrypt(alg, hidden_public_keys=[recipient],
                                     integrity_protect=mdc)
    got = sent(enc)
    v.check_eq('protected', got.message_data_obj.integrity_protected, mdc)
    data = enc.to_packets()[1]
    v.check_eq('tag', data.type, 18 if mdc else 9)
    if mdc:
        v.check_eq('version', bytes(data.content)[:1], b'\x01')
    same(v, got.get_message(K.secret(which, algorithm=number)), msg, kind)


@harness()
def for_key(v):
    by_key(v, 'binary', True, 'key')


@harness()
def for_key_unprotected(v):
    by_key(v, 'binary', False, 'key')


@harness()
def for_keys(v):
    by_key(v, 'binary', True, v.choice('how', ['keys', 'hidden']))


def signed(v, kind):
    """signed messages, encrypted with a session key"""
    alg, key, n = (9, v.bytes('session key', 32), 16) if v.symbolic \
        else session(v)
    mdc = True if v.symbolic else v.choice('mdc', [True, False])
    msg = message(v, content(v, True), kind)
    obj = DATA(alg, key, b''.join(bytes(p) for p in msg.to_packets()),
               integrity_protected=mdc, version=1)
    same(v, read(obj.to_packet()).decrypt(alg, key), msg, kind)


@harness()
def signed_one_pass(v):
    signed(v, 'one-pass')


@harness()
def signed_before(v):
    signed(v, 'signed')


@bounded(secs=6)
def other_for_key(v):
    """compressed, signed and text messages of up to 64 octets or characters"""
    by_key(v, v.choice('kind', ['text', 'compressed', 'signed',
                               'one-pass']),
           v.choice('mdc', [True, False]),
           v.choice('how', ['key', 'keys', 'hidden']))


@harness()
def for_passphrase(v):
    """for passphrases, the session key wrapped with a key derived from it"""
    alg = v.choice('cipher', [9] if v.symbolic else sorted(KEYS))
    text = content(v, True)
    kind = 'binary'
    if not v.symbolic:
        kind = v.choice('kind', ['text', 'binary', 'compressed', 'one-pass'])
    msg = message(v, text, kind)
    mdc = v.choice('protected', [True, False])
    word = v.bytes('passphrase', lo=1, hi=2 ** 31 if v.symbolic else 40)
    args = {'s2k_type': 0}
    if not v.symbolic:
        args = v.choice('s2k', [{'s2k_type': 0}, {'s2k_type': 1}, {},
                                {'s2k_hash_algorithm': 8,
                                 's2k_count': 1024},
                                {'s2k_symmetric_algorithm': 3}])
    enc = msg.symmetric_encrypt(alg, word, integrity_protect=mdc, **args)
    got = sent(enc)
    v.check_eq('protected', got.message_data_obj.integrity_protected, mdc)
    data = enc.to_packets()[1]
    v.check_eq('tag', data.type, 18 if mdc else 9)
    if mdc:
        v.check_eq('version', bytes(data.content)[:1], b'\x01')
    spc = got.session_keys[0].s2k_specification
    v.check_eq('specifier', (spc.mode, spc.symmetric_algorithm),
               (args.get('s2k_type', 3),
                args.get('s2k_symmetric_algorithm', alg)))
    if 's2k_hash_algorithm' in args:
        v.check_eq('derivation', (spc.hash_algorithm, spc.count),
                   (args['s2k_hash_algorithm'], args['s2k_count']))
    same(v, got.get_message(word), msg, kind)


@bounded(secs=8)
def tampered(v):
    """messages of up to 64 octets, protected with MDC: altering, removing,
    adding or moving any of the encrypted octets, or opening with another
    session key or passphrase, gives no content"""
    alg, key, n = session(v)
    text = content(v, True)
    msg = message(v, text, v.choice('kind', ['binary', 'compressed']))
    how = v.choice('how', ['flip', 'cut', 'add', 'swap', 'key', 'word'])
    word = v.bytes('word', lo=1, hi=8)
    enc = msg.symmetric_encrypt(alg, word, s2k_type=0, session_key=key)
    obj = enc.message_data_obj
    data = bytearray(obj.data)
    good = bytes(data)
    other = key
    if how == 'flip':
        for i in range(v.choice('flips', [1, 2, 5])):
            data[v.choice('at%d' % i, len(data))] ^= 1 + v.choice(
                'bits%d' % i, 255)
    elif how == 'cut':
        a = v.choice('from', len(data))
        del data[a:a + 1 + v.choice('octets', 24)]
    elif how == 'add':
        a = v.choice('from', len(data) + 1)
        data[a:a] = v.bytes('more', lo=1, hi=20)
    elif how == 'swap':
        i, j = v.choice('block', len(data) // n), v.choice(
            'other block', len(data) // n)
        data[i * n:i * n + n], data[j * n:j * n + n] = \
            data[j * n:j * n + n], data[i * n:i * n + n]
    elif how == 'key':
        other = v.bytes('other key', KEYS[alg])
        # parity bits of DES keys do not count
        v.assume(bytes(x & 254 for x in other) != bytes(x & 254 for x in key))
    else:
        wrong = v.bytes('wrong word', lo=1, hi=8)
        v.assume(wrong != word)
        v.check('wrong passphrase', v.outcome(
            sent(enc).get_message, wrong)[0] == 'exc')
        return
    v.assume(bytes(data) != good or how == 'key')
    obj.data = data
    v.check_eq('with the session key', v.outcome(obj.decrypt, alg, other),
               ('exc', 'ValueError'))
    if how != 'key':
        v.check_eq('with the passphrase', v.outcome(
            sent(enc).get_message, word), ('exc', 'ValueError'))
