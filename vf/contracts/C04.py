"""rfft_to_fft: the amplitude array is |DFT| at every frequency."""
from ..harness import *
from .. import nps

S = Suite("C04")
T = "turbustat/statistics/rfft_to_fft.py: rfft_to_fft"


def _amp(im, idx):
    full = nps.fftn(im)
    return V.s_abs(full.get(idx))


@S.contract(T)
def full_2d(c):
    from turbustat.statistics.rfft_to_fft import rfft_to_fft
    n, m = fresh_int("n", 1), fresh_int("m", 1)
    im = fresh_arr("image", [n, m])
    out = rfft_to_fft(im)
    c.prove("shape", same_shape(out, [n, m]))
    i = skolem(c, [n.e, m.e])
    c.prove("amplitude", same(out.get(i), _amp(im, i)))
    req_unchanged(c, "frame", im)


@S.contract(T)
def full_3d(c):
    from turbustat.statistics.rfft_to_fft import rfft_to_fft
    n, m, p = fresh_int("n", 1), fresh_int("m", 1), fresh_int("p", 1)
    im = fresh_arr("image", [n, m, p])
    out = rfft_to_fft(im)
    c.prove("shape", same_shape(out, [n, m, p]))
    i = skolem(c, [n.e, m.e, p.e])
    c.prove("amplitude", same(out.get(i), _amp(im, i)))
    req_unchanged(c, "frame", im)


@S.contract(T)
def half(c):
    from turbustat.statistics.rfft_to_fft import rfft_to_fft
    n, m = fresh_int("n", 1), fresh_int("m", 1)
    im = fresh_arr("image", [n, m])
    out = rfft_to_fft(im, keep_rfft=True)
    h = z3.simplify(m.e / 2 + 1)
    c.prove("half shape", same_shape(out, [n, SInt(h)]))
    i = skolem(c, [n.e, h])
    c.prove("half amplitude", same(out.get(i), _amp(im, i)))
    req_unchanged(c, "frame", im)


@S.contract(T)
def bad_dims(c):
    from turbustat.statistics.rfft_to_fft import rfft_to_fft
    n = fresh_int("n", 1)
    for nd in (1, 4):
        im = fresh_arr("image%d" % nd, [n] * nd)
        r, e = outcome(rfft_to_fft, im)
        c.prove("%dD refused" % nd, r == "exc" and isinstance(e, TypeError))
