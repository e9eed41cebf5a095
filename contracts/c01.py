from vc import bounded, harness, spec
from pgp import utils


@harness()
def fixed_width(v):
    n, top = v.choice('w', [(2, 65535), (4, 2**32 - 1), (8, 2**64 - 1)])
    i = v.int('i', 0, top)
    if n == 2:
        r = utils.int_to_2byte(i)
    elif n == 4:
        r = utils.int_to_4byte(i)
    else:
        r = utils.int_to_8byte(i)
    pre = v.bytes('pre')
    post = v.bytes('post')
    v.check('octets', spec.eqbytes(r, spec.be(i, n)))
    back = utils.bytes_to_int(pre + r + post, len(pre), n)
    v.check_eq('decodes back', back, i)


@harness()
def minimal(v):
    i = v.nat('i')
    r = utils.int_to_bytes(i)
    pre = v.bytes('pre')
    post = v.bytes('post')
    v.check_eq('length', len(r), spec.cdiv(spec.bitlen(i), 8))
    v.check_eq('value', spec.ival(r), i)
    back = utils.bytes_to_int(pre + bytes(r) + post, len(pre), len(r))
    v.check_eq('decodes back', back, i)


@harness()
def mpi(v):
    i = v.nat('i')
    n = spec.bitlen(i)
    v.assume(n <= 65535)
    r = utils.int_to_mpi(i)
    pre = v.bytes('pre')
    post = v.bytes('post')
    buf = pre + bytes(r) + post
    v.check_eq('bit count', spec.ival(r[:2]), n)
    v.check_eq('octets', len(r), 2 + spec.cdiv(n, 8))
    v.check_eq('length', utils.mpi_length(buf, len(pre)), spec.cdiv(n, 8))
    back, off = utils.mpi_to_int(buf, len(pre))
    v.check_eq('decodes back', back, i)
    v.check_eq('consumes exactly its octets', off, len(pre) + len(r))


@harness()
def hex_text(v):
    b = v.bytes('b')
    h = utils.bytearray_to_hex(b)
    v.check_eq('two digits per octet', len(h), 2 * len(b))
    v.check_eq('round trip', bytes(utils.hex_to_bytes(h)), b)


@harness()
def hex_fixed(v):
    n = v.choice('n', [4, 8, 16, 20])
    pre = v.bytes('pre')
    post = v.bytes('post')
    b = v.bytes('b', n)
    h = utils.bytearray_to_hex(pre + b + post, len(pre), 2 * n)
    v.check_eq('digits', len(h), 2 * n)
    v.check_eq('round trip', bytes(utils.hex_to_bytes(h, n)), b)


@harness()
def hex_from_text(v):
    n = v.choice('n', [4, 8, 16, 20])
    h = v.hexid('h', n)
    b = utils.hex_to_bytes(h, n)
    v.check_eq('length', len(b), n)
    v.check_eq('round trip', utils.bytearray_to_hex(b), h)
    v.check_eq('in a buffer', utils.bytearray_to_hex(
        bytearray(b'xyz') + b, 3, 2 * n), h)


@bounded(secs=2)
def number_as_hex(v):
    """random numbers, 1 to 24 octets"""
    n = v.int('n', 1, 24)
    b = v.bytes('b', n)
    i = int.from_bytes(b, 'big')
    h = utils.int_to_hex(i, 2 * n)
    v.check_eq('digits', h, b.hex().upper())
    v.check_eq('hex_to_bytes', bytes(utils.hex_to_bytes(h, n)), b)
