"""Derivative monitor: returned derivative against difference quotients.

For piecewise-smooth functions a kink inside the stencil shows as a difference
between the one-sided quotients, and the central quotient is then off by at
most half that difference (per kink); components where it is not small are
left undecided ("kink" events), the others are decided with that margin.
"""
import numpy as np


def directional(ctx, fun, J, x, d, step, msg, rtol=2e-6, fscale=None,
                noise=200.0, kink=3e-3, vscale=None, curv=0.0):
    """Check J @ d against the quotients of fun at x along d.

    fun : x -> vector;  J : (n, x.size)
    fscale: size of the numbers that enter fun (rounding noise)
    vscale: scale of the derivative values (default: the largest one)
    """
    d = np.asarray(d, float)
    f0 = np.asarray(fun(x), float)
    fp = np.asarray(fun(x + step * d), float)
    fm = np.asarray(fun(x - step * d), float)
    cen = (fp - fm) / (2 * step)
    one = np.abs((fp - f0) - (f0 - fm)) / step
    got = np.asarray(J, float) @ d if np.ndim(J) == 2 else \
        np.asarray(J, float) * d[0]
    if not np.all(np.isfinite(got)):
        ctx.fail('%s: derivative is not finite' % msg)
        return
    if got.shape != cen.shape:
        ctx.fail('%s: derivative has shape %s for values of shape %s'
                 % (msg, got.shape, cen.shape))
        return
    fs = max(np.abs(f0).max() if f0.size else 0.0, fscale or 0.0)
    sc = max(np.abs(cen).max(), np.abs(got).max(), vscale or 0.0)
    floor = noise * 2.3e-16 * fs / step
    sm = one <= kink * sc + 4 * floor
    ctx.event('kink', int((~sm).sum()))
    if not sm.any():
        return
    ctx.event('smooth')
    tol = rtol * sc + floor + 1.05 * one
    err = np.abs(got - cen)
    bad = sm & ~(err <= tol)
    ctx.event('derivative', int(sm.sum()))
    if bad.any():
        # kinks of several samples may cancel in the one-sided difference:
        # the error of a wrong derivative stays when the stencil shrinks
        for q in (7.0, 50.0):
            small = (np.asarray(fun(x + step / q * d), float)
                     - np.asarray(fun(x - step / q * d), float)) \
                / (2 * step / q)
            usable = floor * q < 0.25 * err
            drop = bad & usable & (np.abs(got - small) < 0.5 * err)
            ctx.event('kink', int(drop.sum()))
            bad = bad & ~drop
    if bad.any():
        i = int(np.argmax(np.where(bad, err, 0)))
        ctx.fail('%s: derivative %.9g, difference quotient %.9g in component '
                 '%d (tolerance %.2g, scale %.3g, %d components differ)'
                 % (msg, got[i], cen[i], i, tol[i], sc, int(bad.sum())))


def jacobian(ctx, fun, J, x, scale, msg, rng, ndir=2, step=1e-6, sparse=True,
             cols=None, **kw):
    """Random dense directions plus (optionally) single-coordinate ones;
    `scale` is the size of every entry of x (scalar or vector)."""
    x = np.asarray(x, float)
    s = np.broadcast_to(np.asarray(scale, float), x.shape)
    for _ in range(ndir):
        d = rng.normal(size=x.size)
        directional(ctx, fun, J, x, d * s / np.linalg.norm(d) * np.sqrt(
            min(x.size, 4)), step, msg, **kw)
    if sparse:
        ks = [int(rng.integers(x.size))] if cols is None else cols
        for k in ks:
            d = np.zeros(x.size)
            d[k] = s[k]
            directional(ctx, fun, J, x, d, step, msg + ' (unknown %d)' % k,
                        **kw)
