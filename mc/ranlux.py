"""The RANLUX generator ranlxd1 (Luescher, double precision, luxury 202), in integers, for many seeds at once.

Written from the description of the algorithm: a subtract-with-borrow sequence x[n] = x[n-5] - x[n-12] - carry
(mod 2^48) of which 12 of every 202 numbers are used; the first twelve are the bits of a 31 bit shift register.
The selftest is the published one of the GNU Scientific Library: number 10000 of seed 1."""
import numpy

ONE = numpy.int64(1) << 48
LUX = 202


def initial(seeds):
    seeds = numpy.asarray(seeds, 'i8').copy()
    seeds[seeds == 0] = 1
    bits = [(seeds >> b) & 1 for b in range(31)]
    x = []
    i, j = 0, 18
    for k in range(12):
        v = numpy.zeros(len(seeds), 'i8')
        for _ in range(48):
            v = 2 * v + (1 - bits[i])
            bits[i] = bits[i] ^ bits[j]
            i, j = (i + 1) % 31, (j + 1) % 31
        x.append(v)
    return x


def numbers(seeds, n):
    """the first n numbers in [0, 1) of each seed: array (n, seeds)"""
    hist = initial(seeds)                   # the oldest first
    carry = numpy.zeros(len(hist[0]), 'i8')
    out = []
    while len(out) < n:
        for _ in range(LUX):
            y = hist[7] - hist[0] - carry
            carry = (y < 0).astype('i8')
            hist = hist[1:] + [y + carry * ONE]
        out += hist
    return numpy.array(out[:n], 'f8') / float(ONE)


def selftest():
    return int(numbers([1], 10000)[-1, 0] * 2.0 ** 32) == 1998227290
