"""Keys as octets, armor and files, with the functions the README names."""
import os

from vc import bounded, harness, spec
from contracts import keys as K
from contracts.c17 import SHAPES, attribute
from contracts.c19 import shortest
from contracts.c05 import length as subpacket_length
from pgp import shortcuts
from pgp import transferrable_keys as T
from pgp.packets import constants

NEW = constants.NEW_PACKET_HEADER_TYPE
OLD = constants.OLD_PACKET_HEADER_TYPE
TAGS = {'U': 13, 'A': 17, 'T': 12}


def signature_body(v, st, name):
    areas = b''
    for a in (' hashed', ' unhashed'):
        data = v.bytes(name + a, lo=1 if v.symbolic else 0, hi=100)
        data = subpacket_length(len(data) + 1) + b'\x65' + data
        areas += spec.be(len(data), 2) + data
    return (b'\x04' + spec.be(st, 1) + b'\x01'
            + spec.be(v.int(name + ' hash', 0, 255), 1) + areas
            + v.bytes(name + ' hash2', 2) + b'\x00\x03\x05')


def pieces(v, secret, shape, limit):
    """(tag, body) of the packets of a key"""
    if secret:
        first = 5, K.protected_body(
            'rsa', v.bytes('secret', lo=20, hi=limit), 9, 254,
            b'\x03\x02' + v.bytes('salt', 8) + b'\x60', v.bytes('iv', 16))
        sub = 7, K.protected_body(
            'elg', v.bytes('secret2', lo=20, hi=limit), 9, 254,
            b'\x03\x02' + v.bytes('salt2', 8) + b'\x60', v.bytes('iv2', 16),
            algorithm=16)
    else:
        at = v.int('created', 0, 2 ** 32 - 1)
        first = 6, K.public_body('rsa', 4, at)
        sub = 14, K.public_body('elg', 4, at, 16)
    out = [first]
    for i, x in enumerate(shape):
        n = 'p%d' % i
        if x == 'U':
            out.append((13, v.bytes(n, hi=limit)))
        elif x == 'A':
            if v.symbolic:
                data = v.bytes(n, lo=1, hi=100)
                data = subpacket_length(len(data) + 1) + b'\x65' + data
            else:
                data = attribute(v)
            out.append((17, data))
        elif x == 'T':
            out.append((12, b'\x01' + v.bytes(n, 1)))
        elif x == 'S':
            out.append(sub)
        else:
            out.append((2, signature_body(v, {
                'R': 0x20, 'D': 0x1f, 'B': 0x18, 'V': 0x28, 'P': 0x30,
                'C': 0x10, 'c': 0x13}[x], n)))
    return out


def octets(v, secret, shapes, limit):
    shape = v.choice('shape', shapes)
    fmt = v.choice('headers', [NEW, OLD])
    data = b''
    for tag, body in pieces(v, secret, shape, limit):
        if tag == 17:
            # has no old-format header
            data += shortest(NEW, tag, body)
        else:
            data += shortest(fmt, tag, body)
    key = shortcuts.read_key(data)
    v.check_eq('kind', type(key).__name__, 'TransferableSecretKey' if secret
               else 'TransferablePublicKey')
    v.check_eq('octets', shortcuts.serialize_key(key, False, fmt), data)


SHORT = ['', 'R', 'UC', 'UcP', 'UCU', 'SB', 'UCSB']


@harness()
def public_octets(v):
    octets(v, False, SHORT, 5000 if v.symbolic else 70000)


@harness()
def secret_octets(v):
    octets(v, True, SHORT, 5000 if v.symbolic else 70000)


@bounded(secs=8)
def files(v):
    """keys with up to 21 further packets of up to 3000 octets, as octets,
    armor or files"""
    shape = v.choice('shape', SHAPES)
    secret = v.bool('is secret')
    fmt = NEW if 'A' in shape else v.choice('headers', [NEW, OLD])
    all_ = pieces(v, secret, shape, 3000)
    key = shortcuts.read_key(b''.join(bytes(shortest(fmt, t, b))
                                      for t, b in all_))
    # (trust packets are local to a keyring, not part of the key)
    data = b''.join(bytes(shortest(fmt, t, b)) for t, b in all_ if t != 12)
    armored = v.bool('armored')
    path = os.path.join(v.scratch(), 'key')
    label = 'PRIVATE KEY BLOCK' if secret else 'PUBLIC KEY BLOCK'
    default = fmt == OLD and v.bool('default')
    if default and v.bool('file'):
        shortcuts.write_key_file(key, path, armored)
        with open(path, 'rb') as fh:
            text = fh.read()
        got = shortcuts.read_key_file(path, armored)
    else:
        text = shortcuts.serialize_key(key, armored) if default \
            else shortcuts.serialize_key(key, armored, fmt)
        got = shortcuts.read_key(text, v.bool('said') if armored else False)
        if armored:
            text = text.encode('ascii')
            with open(path, 'wb') as fh:
                fh.write(text)
            again = shortcuts.read_key_file(path, v.bool('said so'))
            v.check_eq('file', shortcuts.serialize_key(again, False, fmt),
                       data)
    if armored:
        lines = text.decode('ascii').split('\n')
        v.check_eq('label', lines[0], '-----BEGIN PGP %s-----' % label)
    else:
        v.check_eq('octets', text, data)
    v.check_eq('kind', type(got).__name__, 'TransferableSecretKey' if secret
               else 'TransferablePublicKey')
    v.check_eq('read back', shortcuts.serialize_key(got, False, fmt), data)
