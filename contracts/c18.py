"""Fingerprints and key IDs against RFC 4880 12.2."""
import datetime

from Crypto.Hash import MD5, SHA

from vc import bounded, harness, spec
from contracts.c04 import mpi, public_part, secret_body
from pgp import transferrable_keys as T
from pgp.packets import constants
from pgp.packets import packets as P

NEW = constants.NEW_PACKET_HEADER_TYPE
OLD = constants.OLD_PACKET_HEADER_TYPE
PUBLIC = [(4, a) for a in (1, 2, 3, 16, 17, 20)]
V3 = [(3, 1), (2, 2), (3, 3)]
SUB = {5: 7, 6: 14}


def hexes(s):
    return bytes(s).hex().upper()


def prescribed(body):
    """version 4: SHA-1 over 0x99, the two-octet length and the body"""
    h = hexes(SHA.new(b'\x99' + spec.be(len(body), 2) + body).digest())
    return h, h[24:]


def prescribed_v3(n, e):
    """version 3: MD5 over the integers' octets; low 64 bits of the modulus"""
    h = hexes(MD5.new(spec.be(n, spec.cdiv(spec.bitlen(n), 8))
                      + spec.be(e, spec.cdiv(spec.bitlen(e), 8))).digest())
    return h, hexes(spec.be(n, 8))


def identity(v, kinds):
    body, args, _ = public_part(v, kinds)
    if args[0] < 4:
        return body, args, prescribed_v3(args[4], args[5])
    v.assume(len(body) <= 65535)
    return body, args, prescribed(body)


def same(v, what, x, ident):
    v.check_eq(what + ' fingerprint', x.fingerprint, ident[0])
    v.check_eq(what + ' key ID', x.key_id, ident[1])


@harness()
def public_packets(v):
    tag = v.choice('tag', [6, 14])
    body, args, ident = identity(v, PUBLIC)
    same(v, 'read', P.PACKET_TYPES[tag].from_packet_content(
        NEW, tag, bytearray(body)), ident)
    same(v, 'built', P.PACKET_TYPES[tag](NEW, *args), ident)


@harness()
def version_3_packets(v):
    tag = v.choice('tag', [6, 14])
    body, args, ident = identity(v, V3)
    same(v, 'read', P.PACKET_TYPES[tag].from_packet_content(
        NEW, tag, bytearray(body)), ident)
    same(v, 'built', P.PACKET_TYPES[tag](NEW, *args), ident)


@harness()
def secret_packets(v):
    """only the public part counts, whatever protects the secret part"""
    tag = v.choice('tag', [5, 7])
    body, args, ident = identity(v, [(4, 17), (3, 1)] if v.symbolic
                                 else PUBLIC + V3)
    sec = secret_body(v, ['none', 'legacy', 'gnu-dummy'] if v.symbolic else
                      ['none', 'legacy', 'sha1', 'checksum', 'gnu-dummy',
                       'gnu-card'])
    p = P.PACKET_TYPES[tag].from_packet_content(NEW, tag,
                                                bytearray(body + sec[0]))
    same(v, 'secret packet', p, ident)


@harness()
def keys(v):
    """key objects of public packets, and the packets they are turned into"""
    body, args, ident = identity(v, [(4, 1), (4, 16), (4, 17), (3, 1)]
                                 if v.symbolic else PUBLIC + V3)
    fmt = v.choice('format', [NEW, OLD])
    p = P.PublicKeyPacket(fmt, *args)
    k = T.TransferablePublicKey.from_packet(p)
    same(v, 'key', k, ident)
    same(v, 'its packet', k.to_packet(), ident)
    p2 = P.PublicSubkeyPacket(fmt, *args)
    k2 = T.PublicSubkey.from_packet(k, p2)
    same(v, 'subkey', k2, ident)


@harness()
def secret_keys(v):
    """a secret key and its public counterpart"""
    body, args, ident = identity(v, [(4, 1), (4, 17), (3, 1)]
                                 if v.symbolic else PUBLIC + V3)
    sec = secret_body(v, ['none', 'gnu-dummy'] if v.symbolic else
                      ['none', 'sha1', 'gnu-dummy'])
    p = P.SecretKeyPacket.from_packet_content(NEW, 5,
                                              bytearray(body + sec[0]))
    k = T.TransferableSecretKey.from_packet(p)
    same(v, 'secret key', k, ident)
    same(v, 'public key', k.to_public_key(), ident)
    p2 = P.SecretSubkeyPacket.from_packet_content(NEW, 7,
                                                  bytearray(body + sec[0]))
    k2 = T.SecretSubkey.from_packet(k, p2)
    same(v, 'secret subkey', k2, ident)
    same(v, 'public subkey', k2.to_public_key(), ident)
