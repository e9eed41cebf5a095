"""Contracts of the functions everything else is built on.  Each is checked
against the real body ('contract:<name>') and used at call sites."""
from vc import contract, nat, anyint, octets, none, opt, rng, spec

U = 'pgp.utils.'


def _w(n):
    def ensures(i):
        return bytearray(spec.be(i, n))
    return ensures


contract(U + 'int_to_2byte', [rng(0, 65535)], _w(2))
contract(U + 'int_to_4byte', [rng(0, 4294967295)], _w(4))
contract(U + 'int_to_8byte', [rng(0, 18446744073709551615)], _w(8))


# ---- big-endian integers of any size

def _b2i(data, offset, length):
    return spec.ival(data[offset:offset + length])


contract(U + 'bytes_to_int', [octets, nat, nat], _b2i,
         requires=lambda data, offset, length: offset + length <= len(data))


def _i2b(i):
    return bytearray(spec.be(i, spec.cdiv(spec.bitlen(i), 8)))


contract(U + 'int_to_bytes', [nat], _i2b)


def _i2m(i):
    n = spec.bitlen(i)
    return bytearray(spec.be(n, 2) + spec.be(i, spec.cdiv(n, 8)))


contract(U + 'int_to_mpi', [nat], _i2m,
         requires=lambda i: spec.bitlen(i) <= 65535)


def _m2i(data, offset):
    n = spec.cdiv(spec.ival(data[offset:offset + 2]), 8)
    return (spec.ival(data[offset + 2:offset + 2 + n]), offset + 2 + n)


contract(U + 'mpi_to_int', [octets, nat], _m2i,
         requires=lambda data, offset: (offset + 2 <= len(data)) and (
             offset + 2 + spec.cdiv(spec.ival(data[offset:offset + 2]), 8)
             <= len(data)))
