"""C01: GDSII 8-byte reals"""
import math
import numpy
import gdspy
from gdspy.gdsiiformat import _eight_byte_real, _eight_byte_real_to_float
from vc.contract import contract
from contracts.common import *


def u7(c, m):
    return c.U(7, m)


def encode_case(c, lo, hi):
    # every positive double with 16**(e-1) <= v < 16**e is m * 2**(4 e - 56) with integer 2**52 <= m < 2**56
    e = c.choice("exponent", list(range(lo, hi)))
    m = c.int("mantissa", 2 ** 52, 2 ** 56 - 1)
    v = c.exact(m, 4 * e - 56)
    s = c.choice("sign", [0, 1])
    data = _eight_byte_real(-v if s else v)
    m2 = c.mantissa53(m)
    c.eq("bytes", data, c.U(1, 128 * s + e + 64) + c.U(7, m2))


@contract("C01", ["gdsiiformat._eight_byte_real"], samples=60)
def encode_exponents_a(c):
    encode_case(c, -64, -48)


@contract("C01", ["gdsiiformat._eight_byte_real"], samples=60)
def encode_exponents_b(c):
    encode_case(c, -48, -32)


@contract("C01", ["gdsiiformat._eight_byte_real"], samples=60)
def encode_exponents_c(c):
    encode_case(c, -32, -16)


@contract("C01", ["gdsiiformat._eight_byte_real"], samples=60)
def encode_exponents_d(c):
    encode_case(c, -16, 0)


@contract("C01", ["gdsiiformat._eight_byte_real"], samples=60)
def encode_exponents_e(c):
    encode_case(c, 0, 16)


@contract("C01", ["gdsiiformat._eight_byte_real"], samples=60)
def encode_exponents_f(c):
    encode_case(c, 16, 32)


@contract("C01", ["gdsiiformat._eight_byte_real"], samples=60)
def encode_exponents_g(c):
    encode_case(c, 32, 48)


@contract("C01", ["gdsiiformat._eight_byte_real"], samples=60)
def encode_exponents_h(c):
    encode_case(c, 48, 64)


@contract("C01", ["gdsiiformat._eight_byte_real", "gdsiiformat._eight_byte_real_to_float"], samples=4)
def encode_zero(c):
    z = c.choice("zero", [0, 0.0, -0.0])
    c.eq("bytes", _eight_byte_real(z), b"\0\0\0\0\0\0\0\0")
    c.eq("decoded", _eight_byte_real_to_float(b"\0\0\0\0\0\0\0\0"), 0.0)


def decode_case(c, lo, hi):
    e = c.choice("exponent", list(range(lo, hi)))
    s = c.choice("sign", [0, 1])
    data = c.U(1, 128 * s + e + 64)
    m = 0
    for k in range(7):
        byte = c.int("byte%d" % k, 0, 255)
        data = data + c.U(1, byte)
        m = 256 * m + byte
    v = _eight_byte_real_to_float(data)
    w = c.exact(m, 4 * e - 56)
    c.check("decoded value", v == (-w if s else w))


@contract("C01", ["gdsiiformat._eight_byte_real_to_float"], samples=100)
def decode_exponents_a(c):
    decode_case(c, -64, 0)


@contract("C01", ["gdsiiformat._eight_byte_real_to_float"], samples=100)
def decode_exponents_b(c):
    decode_case(c, 0, 64)


@contract("C01", ["gdsiiformat._eight_byte_real", "gdsiiformat._eight_byte_real_to_float"], sym=False, samples=3000)
def roundtrip_samples(c):
    """native floating point: boundaries of every exponent and random numbers, both number types"""
    k = c.int("k", -64, 62)
    near = c.choice("near", [0, 1, 2, 3, 4, 5])
    x = 16.0 ** k
    if near == 1:
        x = numpy.nextafter(x, 0.0)
    elif near == 2:
        x = numpy.nextafter(x, math.inf)
    elif near == 3:
        x = x * c.real("m", 1, 15.9999)
    elif near == 4:
        x = float(round(x * c.real("m", 1, 15.9999), 3)) or x
    elif near == 5:
        x = float("%.3g" % (x * c.real("m", 1, 15.9999)))
    c.assume(16.0 ** -64 <= x < 16.0 ** 63)
    x = -x if c.flag("negative") else x
    x = numpy.float64(x) if c.flag("numpy") else float(x)
    if x == int(x) and abs(x) < 2 ** 53 and c.flag("int"):
        x = int(x)
    b = _eight_byte_real(x)
    c.check("length", len(b) == 8)
    c.eq("bytes", b, c.written_r8(x))
    c.check("round trip", _eight_byte_real_to_float(b) == x)


@contract("C01", ["gdsiiformat._eight_byte_real", "gdsiiformat._eight_byte_real_to_float"], sym=False, samples=1)
def boundaries(c):
    for k in range(-64, 64):
        for x in (16.0 ** k, numpy.nextafter(16.0 ** k, 0.0), numpy.nextafter(16.0 ** k, math.inf)):
            if not 16.0 ** -64 <= x < 16.0 ** 63:
                continue
            for y in (x, -x):
                b = _eight_byte_real(y)
                c.eq("bytes of %r" % y, b, c.written_r8(y))
                c.check("round trip of %r" % y, _eight_byte_real_to_float(b) == y)
