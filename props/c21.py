"""C21 Interpolation of continuation results."""
import numpy as np
from vlib import gen
from vlib.run import Group

ID = 'C21'
RULE = ('random increasing parameter columns (uneven spacing to 1e3), random '
        'values and tangents of arbitrary positive scaling; query points at '
        'knots, inside and outside; reference: explicit Hermite polynomials '
        'and piecewise linear formula')
ASSUMPTIONS = ['float64 arithmetic', 'increasing parameter column as '
               'documented']


def _curve(rng):
    M = int(rng.integers(2, 9))
    N = gen.dofs(rng, 5, huge=.012)
    lam = np.cumsum(np.exp(rng.uniform(-3, 3, M)))
    lam = (lam - lam.mean()) * 10.0 ** rng.integers(-2, 3)
    X = np.hstack([rng.normal(size=(M, N)), lam[:, None]])
    G = rng.normal(size=(M, N + 1))
    G[:, -1] = np.exp(rng.uniform(-4, 4, M))
    if rng.random() < 0.4:               # tangents may have any length
        G = G * 10.0 ** rng.uniform(-12, 6, (M, 1))
    return M, N, lam, X, G


def _herm(X, G, q):
    out = np.zeros((len(q), X.shape[1]))
    lam = X[:, -1]
    for i, z in enumerate(q):
        k = int(np.searchsorted(lam, z, side='right')) - 1
        k = min(max(k, 0), len(lam) - 2)
        d = lam[k + 1] - lam[k]
        t = (z - lam[k]) / d
        m0, m1 = G[k, :-1] / G[k, -1], G[k + 1, :-1] / G[k + 1, -1]
        out[i, :-1] = ((2 * t ** 3 - 3 * t ** 2 + 1) * X[k, :-1]
                       + (t ** 3 - 2 * t ** 2 + t) * d * m0
                       + (-2 * t ** 3 + 3 * t ** 2) * X[k + 1, :-1]
                       + (t ** 3 - t ** 2) * d * m1)
        out[i, -1] = z
    return out


def _scale(X, G):
    lam = X[:, -1]
    return np.abs(X).max() + np.abs(G[:, :-1] / G[:, -1:]).max() \
        * np.diff(lam).max()


def hermite(ctx):
    from tmdsimpy.postprocess import continuation as pc
    rng = ctx.rng
    M, N, lam, X, G = _curve(rng)
    q = rng.uniform(lam[0], lam[-1], int(rng.integers(1, 30)))
    q = np.concatenate([q, rng.choice(lam, size=2), [lam[0], lam[-1]]])
    rng.shuffle(q)
    X, G, q = (gen.dress(rng, a) for a in (X, G, q))
    keep = X.copy(), G.copy(), q.copy()
    sc = _scale(X, G)
    ctx.note(M=M, N=N, lam=lam)
    got = pc.hermite_interp(X, G, q)
    ctx.close(got, _herm(X, G, q), 'Hermite interpolation', rtol=1e-9,
              scale=sc)
    # invariant under the (positive) length of each tangent
    G2 = G * np.exp(rng.uniform(-2, 2, (M, 1)))
    ctx.close(pc.hermite_interp(X, G2, q), got, 'scaling of tangents matters',
              rtol=1e-9, scale=sc)
    ctx.close(pc.hermite_interp(X, G, lam), X, 'knots are not reproduced',
              rtol=1e-10, scale=sc)
    ctx.check(all(np.array_equal(a, b) for a, b in zip(keep, (X, G, q))),
              'Hermite interpolation modified its inputs')
    ctx.cover(M, 'uneven' if np.ptp(np.diff(lam)) > np.diff(lam).min()
              else 'even')


def upsample(ctx):
    from tmdsimpy.postprocess import continuation as pc
    rng = ctx.rng
    M, N, lam, X, G = _curve(rng)
    f = int(rng.integers(1, 13))
    X, G = gen.dress(rng, X), gen.dress(rng, G)
    keep = X.copy(), G.copy()
    default = rng.random() < 0.3
    if default:
        f = 10
    got = pc.hermite_upsample(X, G) if default \
        else pc.hermite_upsample(X, G, upsample_freq=f)
    q = []
    for k in range(M - 1):
        q += [lam[k] + (lam[k + 1] - lam[k]) * j / f for j in range(f)]
    q = np.array(q + [lam[-1]])
    sc = _scale(X, G)
    ctx.check(got.shape == ((M - 1) * f + 1, N + 1),
              'upsampling by %d of %d points gave %s' % (f, M, got.shape))
    ctx.close(got, _herm(X, G, q), 'upsampled curve', rtol=1e-8, scale=sc)
    ctx.close(got[::f], X, 'original points are not kept', rtol=1e-9,
              scale=sc)
    z = rng.uniform(lam[0], lam[-1], 7)
    ctx.close(pc.hermite_upsample(X, G, upsample_freq=f, new_lams=z),
              _herm(X, G, z), 'requested parameter values', rtol=1e-9,
              scale=sc)
    ctx.check(all(np.array_equal(a, b) for a, b in zip(keep, (X, G))),
              'upsampling modified its inputs')
    ctx.cover('f%d' % f)


def linear(ctx):
    from tmdsimpy.postprocess import continuation as pc
    rng = ctx.rng
    M, N, lam, X, G = _curve(rng)
    ref = None
    knots = lam
    if rng.random() < 0.5:
        ref = np.cumsum(np.exp(rng.uniform(-3, 3, M))) - 5
        knots = ref
        rng.shuffle(X[:, -1])
    span = knots[-1] - knots[0]
    q = rng.uniform(knots[0] - 0.3 * span, knots[-1] + 0.3 * span,
                    int(rng.integers(1, 25)))
    q = np.concatenate([q, knots])
    rng.shuffle(q)
    X, q = gen.dress(rng, X), gen.dress(rng, q)
    ref = None if ref is None else gen.dress(rng, ref)
    keep = X.copy(), q.copy(), knots.copy()
    got = pc.linear_interp(X, q) if ref is None \
        else pc.linear_interp(X, q, reference_values=ref)
    want = np.full((len(q), N + 1), np.nan)
    for i, z in enumerate(q):
        if z < knots[0] or z > knots[-1]:
            continue
        k = min(int(np.searchsorted(knots, z, side='right')) - 1, M - 2)
        t = (z - knots[k]) / (knots[k + 1] - knots[k])
        want[i] = (1 - t) * keep[0][k] + t * keep[0][k + 1]
    ctx.check(got.shape == want.shape, 'shape %s' % (got.shape,))
    ctx.check(np.array_equal(np.isnan(got), np.isnan(want)),
              'points outside the range are not (exactly) those marked')
    m = ~np.isnan(want)
    ctx.close(got[m], want[m], 'linear interpolation', rtol=1e-9,
              scale=np.abs(keep[0]).max())
    ctx.check(all(np.array_equal(a, b) for a, b in zip(keep, (X, q, knots))),
              'linear interpolation modified its inputs')
    z = float(rng.uniform(knots[0], knots[-1]))
    one = pc.linear_interp(X, z, reference_values=knots)
    ctx.check(np.shape(one) == (1, N + 1), 'scalar query')
    ctx.cover(M, 'ref' if ref is not None else 'last',
              'out' if np.isnan(want).any() else 'in')


def reject(ctx):
    from tmdsimpy.postprocess import continuation as pc
    rng = ctx.rng
    M, N, lam, X, G = _curve(rng)
    M = max(M, 3)
    while len(lam) < 3:
        M, N, lam, X, G = _curve(rng)

    def refused(f):
        try:
            f()
        except AssertionError:
            return True
        return False
    mid = np.array([lam[0] + 0.5 * (lam[-1] - lam[0])])
    bad = X.copy()
    bad[[0, 1], -1] = bad[[1, 0], -1]
    same = X.copy()
    same[1, -1] = same[0, -1]
    g0 = G.copy()
    g0[int(rng.integers(len(lam))), -1] *= rng.choice([0.0, -1.0])
    span = lam[-1] - lam[0]
    ctx.check(refused(lambda: pc.hermite_interp(bad, G, mid)),
              'decreasing parameter accepted')
    ctx.check(refused(lambda: pc.hermite_interp(same, G, mid)),
              'repeated parameter accepted')
    ctx.check(refused(lambda: pc.hermite_interp(X, g0, mid)),
              'nonpositive parameter tangent accepted')
    for z in (lam[0] - 0.01 * span, lam[-1] + 0.01 * span):
        ctx.check(refused(lambda: pc.hermite_interp(
            X, G, np.append(mid, z))), 'extrapolation accepted')
    ctx.check(refused(lambda: pc.linear_interp(bad, mid)),
              'decreasing reference accepted')
    ctx.check(refused(lambda: pc.linear_interp(
        X, mid, reference_values=np.append(lam[:-1], lam[-2]))),
        'repeated reference accepted')
    ctx.cover('reject')


GROUPS = {
    'hermite': Group(hermite, 1200, 6000, {'check': 3}),
    'upsample': Group(upsample, 900, 4000, {'check': 3}),
    'linear': Group(linear, 1200, 6000, {'check': 4}),
    'reject': Group(reject, 20, 300, {'check': 6}),
}
SHARDS = 4
