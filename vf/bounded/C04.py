"""rfft_to_fft against numpy's full transform."""
import numpy as np
from ..bcore import Violation, registry
CHECKS, check = registry()
T = "turbustat/statistics/rfft_to_fft.py: rfft_to_fft"


def shape_from(rng, k, hint, nd):
    if hint:
        try:
            s = [min(40, max(1, int(hint[n]))) for n in ("n", "m", "p")[:nd]]
            return tuple(s)
        except Exception:
            pass
    small = [(1, 1), (1, 2), (2, 1), (2, 2), (3, 2), (2, 3), (3, 3), (1, 5), (4, 1), (1, 4), (5, 4), (4, 5)]
    if nd == 2 and k < len(small):
        return small[k]
    return tuple(int(x) for x in rng.randint(1, 9 if nd == 3 else 20, size=nd))


def image(rng, shape):
    im = rng.normal(size=shape) * 10.0 ** rng.randint(-3, 4)
    if rng.rand() < 0.3:
        im = np.round(im)
    if rng.rand() < 0.2:
        im = im.astype(">f8")
    if rng.rand() < 0.2:
        im = np.asfortranarray(im)
    return im


def one(rng, k, hint, nd, keep):
    from turbustat.statistics.rfft_to_fft import rfft_to_fft
    shape = shape_from(rng, k, hint, nd)
    im = image(rng, shape)
    keepc = im.copy()
    out = rfft_to_fft(im, keep_rfft=keep)
    ref = np.abs(np.fft.fftn(im))
    if keep:
        ref = ref[..., :shape[-1] // 2 + 1]
    if out.shape != ref.shape:
        raise Violation("shape %s for image shape %s" % (out.shape, shape))
    tol = 1e-9 * (np.abs(im).sum() + 1e-300)
    if not np.all(np.abs(out - ref) <= tol):
        raise Violation("amplitude differs by %g for shape %s" % (np.abs(out - ref).max(), shape))
    if not np.array_equal(im, keepc):
        raise Violation("image modified, shape %s" % (shape,))


@check(T, quick=60, bound="2-D shapes up to 20x20")
def full2(rng, k, hint):
    one(rng, k, hint, 2, False)


@check(T, quick=60, bound="3-D shapes up to 8x8x8")
def full3(rng, k, hint):
    one(rng, k, hint, 3, False)


@check(T, quick=40, bound="2-D and 3-D shapes up to 20")
def half(rng, k, hint):
    one(rng, k, hint, 2 + k % 2, True)


@check(T, quick=4, bound="1-D, 4-D, 5-D")
def refused(rng, k, hint):
    from turbustat.statistics.rfft_to_fft import rfft_to_fft
    nd = (1, 4, 5, 1)[k % 4]
    try:
        rfft_to_fft(np.ones((2,) * nd))
    except TypeError:
        return
    raise Violation("%d-D array accepted" % nd)
