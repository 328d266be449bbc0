"""C01 Fourier synthesis / projection, plain and traced."""
import numpy as np
from vlib import gen, ref
from vlib.run import Group

ID = 'C01'
RULE = ('random harmonic lists (with/without 0, gaps, several integer types), '
        'sample counts from the minimum allowed to 96 incl. non powers of 2, '
        '1-5 columns, derivative orders 0-7; every case compares against '
        'explicit cosine/sine sums')
ASSUMPTIONS = ['float64 arithmetic', 'sample counts are even and larger than '
               '2*max(h)+1 as documented']


def _mods():
    from tmdsimpy.utils import harmonic as hu
    from tmdsimpy.jax import harmonic_utils as jh
    return hu, jh


def _case(ctx):
    rng = ctx.rng
    dt = rng.choice(['int64', 'int64', 'int32', 'uint8', 'uint16'])
    h = gen.harmonics(rng, kmax=int(rng.choice([3, 7, 12])), nmax=7, huge=.012,
                      dtype=str(dt))
    if rng.random() < 0.05:
        h = np.array([0])
    Nt = gen.samples(rng, h)
    if rng.random() < 0.03:
        Nt = 1024
    if rng.random() < 0.2:
        Nt = 2 * int(h.max()) + 2
    nd = gen.dofs(rng, 5, huge=.012)
    X = rng.normal(size=(ref.ncomp(h), nd)) * 10.0 ** rng.integers(-6, 7)
    return gen.dress(rng, h), Nt, nd, gen.dress(rng, X, 0.1)


def synth(ctx):
    rng = ctx.rng
    hu, jh = _mods()
    h, Nt, nd, X = _case(ctx)
    order = int(rng.integers(0, 5 if rng.random() < .8 else 8))
    ctx.note(h=h, Nt=Nt, nd=nd, order=order)
    keep = X.copy(), h.copy()
    want = ref.synth(h, X, Nt, order)
    sc = np.abs(X).max() * float(max(1, h.max())) ** order
    got = hu.time_series_deriv(Nt, h, X, order)
    ctx.close(got, want, 'time series of order %d, h=%s' % (order, h),
              rtol=1e-11, scale=sc)
    if ctx.index % 4 == 0:
        gj = jh.time_series_deriv(Nt, tuple(int(k) for k in h), X, order)
        ctx.close(gj, want, 'traced time series of order %d, h=%s' % (order, h),
                  rtol=1e-11, scale=sc, what='traced')
    ctx.check(np.array_equal(X, keep[0]) and np.array_equal(h, keep[1]),
              'synthesis modified its arguments')
    ctx.cover('order%d' % order, 'h0' if h[0] == 0 else 'no0',
              'min' if Nt == 2 * h.max() + 2 else 'more', str(h.dtype))


def proj(ctx):
    rng = ctx.rng
    hu, jh = _mods()
    h, Nt, nd, X = _case(ctx)
    # arbitrary samples: aliased content above max(h) included
    x = rng.normal(size=(Nt, nd)) * 10.0 ** rng.integers(-6, 7)
    ctx.note(h=h, Nt=Nt, nd=nd)
    x = gen.dress(rng, x, 0.1)
    keep = x.copy()
    want = ref.project(h, x)
    sc = np.abs(x).max()
    ctx.close(hu.get_fourier_coeff(h, x), want, 'coefficients, h=%s' % h,
              rtol=1e-11, scale=sc)
    if ctx.index % 4 == 0:
        ctx.close(jh.get_fourier_coeff(tuple(int(k) for k in h), x), want,
                  'traced coefficients, h=%s' % h, rtol=1e-11, scale=sc,
                  what='traced')
    ctx.check(np.array_equal(x, keep), 'projection modified its samples')
    ctx.cover('h0' if h[0] == 0 else 'no0', 'Nt%d' % (Nt % 4),
              'pow2' if Nt & (Nt - 1) == 0 else 'even')


def roundtrip(ctx):
    hu, jh = _mods()
    h, Nt, nd, X = _case(ctx)
    sc = np.abs(X).max()
    ht = tuple(int(k) for k in h)
    both = (('plain', lambda: hu.time_series_deriv(Nt, h, X, 0),
                          lambda x: hu.get_fourier_coeff(h, x)),
                         ('traced',
                          lambda: jh.time_series_deriv(Nt, ht, X, 0),
                          lambda x: jh.get_fourier_coeff(ht, x)))
    for nm, syn, prj in (both if ctx.index % 5 == 0 else both[:1]):
        ctx.close(prj(syn()), X, nm + ' round trip h=%s Nt=%d' % (h, Nt),
                  rtol=1e-11, scale=sc)
    # dropping harmonics from the projection leaves the others unchanged
    if h.size > 1:
        keep = np.sort(ctx.rng.choice(h.size, size=int(ctx.rng.integers(
            1, h.size)), replace=False))
        hs = h[keep]
        cs = ref.comps(h)
        idx = [cs.index(c) for c in ref.comps(hs)]
        x = hu.time_series_deriv(Nt, h, X, 0)
        ctx.close(hu.get_fourier_coeff(hs, x), X[idx],
                  'projection on a subset of harmonics', rtol=1e-11, scale=sc)
    ctx.cover(len(h), 'h0' if h[0] == 0 else 'no0')


def traced(ctx):
    """Under jit and forward differentiation the values are the same."""
    import jax
    rng = ctx.rng
    hu, jh = _mods()
    h = gen.harmonics(rng, kmax=5, nmax=4)
    ht = tuple(int(k) for k in h)
    Nt = gen.samples(rng, h, hi=32)
    order = int(rng.integers(0, 3))
    n = ref.ncomp(h)
    x0 = rng.normal(size=(n, 2))

    def f(X):
        return jh.time_series_deriv(Nt, ht, X, order)

    def g(X):
        return jh.get_fourier_coeff(ht, f(X) ** 2)
    ctx.close(jax.jit(f)(x0), ref.synth(h, x0, Nt, order), 'jitted synthesis',
              rtol=1e-11, scale=5.0 ** order * 10)
    J = np.asarray(jax.jacfwd(g)(x0))
    B = ref.basis(h, ref.phases(Nt), order)
    x = B @ x0
    want = np.zeros_like(J)
    for c in range(2):
        for j in range(n):
            d = np.zeros((Nt, 2))
            d[:, c] = 2 * x[:, c] * B[:, j]
            want[:, :, j, c] = ref.project(h, d)
    ctx.close(J, want, 'derivative through synthesis and projection',
              rtol=1e-10, scale=np.abs(want).max() + 1)
    ctx.cover('order%d' % order, len(h))


def reject(ctx):
    """Truncating sample counts and misplaced zeroth harmonics are refused."""
    rng = ctx.rng
    hu, jh = _mods()
    h = gen.harmonics(rng, kmax=7, huge=.012)
    n = ref.ncomp(h)
    bad = int(rng.integers(1, h.max() + 1)) * 2
    if rng.random() < .5:                   # at the limit
        bad = 2 * int(h.max()) + int(rng.integers(0, 2))
    X = rng.normal(size=(n, 2))
    for nm, f in (('plain', lambda: hu.time_series_deriv(bad, h, X, 0)),
                  ('traced',
                   lambda: jh.time_series_deriv(bad, tuple(h), X, 0))):
        try:
            f()
            ok = False
        except AssertionError:
            ok = True
        ctx.check(ok, '%s synthesis accepted %d samples for harmonics %s'
                  % (nm, bad, h))
    hb = np.array([1, 0, 2])
    Xb = rng.normal(size=(5, 1))
    x = rng.normal(size=(16, 1))
    for nm, f in (('synthesis', lambda: hu.time_series_deriv(16, hb, Xb, 0)),
                  ('projection', lambda: hu.get_fourier_coeff(hb, x)),
                  ('traced synthesis',
                   lambda: jh.time_series_deriv(16, tuple(hb), Xb, 0)),
                  ('traced projection',
                   lambda: jh.get_fourier_coeff(tuple(hb), x))):
        try:
            f()
            ok = False
        except AssertionError:
            ok = True
        ctx.check(ok, nm + ' accepted a zeroth harmonic that is not first')
    ctx.cover('reject')


GROUPS = {
    'synth': Group(synth, 300, 6000, {'check': 2, 'traced': 0.2}),
    'proj': Group(proj, 480, 6000, {'check': 2, 'traced': 0.2}),
    'roundtrip': Group(roundtrip, 150, 3000, {'check': 1}),
    'traced': Group(traced, 18, 400, {'check': 2}),
    'reject': Group(reject, 10, 60, {'check': 6}),
}
