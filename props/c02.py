"""C02 Harmonic dynamic-stiffness operator."""
import numpy as np
from vlib import gen, ref
from vlib.run import Group

ID = 'C02'
RULE = ('random (also nonsymmetric) M, C, K of 1-6 DOF, random harmonic '
        'lists, positive / zero / negative frequencies; the operator is '
        'compared to the projected time-domain forces of random motions')
ASSUMPTIONS = ['float64 arithmetic']


def _case(ctx):
    rng = ctx.rng
    n = gen.dofs(rng, 6, huge=.012)
    wide = rng.random() < 0.3
    M, C, K = (rng.normal(size=(n, n)) * 10.0 ** (
        rng.uniform(-14, 10) if wide else rng.integers(-3, 4))
        for _ in range(3))
    whole = rng.integers(0, 2, 3) if rng.random() < 0.3 else [0, 0, 0]
    if rng.random() < 0.1:
        whole = [1, 1, 1]
    M, C, K = (gen.dress(rng, rng.integers(-5, 6, (n, n)) if i else A)
               for A, i in zip((M, C, K), whole))
    h = gen.dress(rng, gen.harmonics(rng, kmax=int(rng.choice([3, 9])),
                                     nmax=6))
    w = float(rng.choice([0.0, rng.uniform(0.01, 20), -rng.uniform(0.1, 5)]))
    return n, M, C, K, h, w


def operator(ctx):
    from tmdsimpy.utils import harmonic as hu
    rng = ctx.rng
    n, M, C, K, h, w = _case(ctx)
    ctx.note(n=n, h=h, w=w)
    keep = [A.copy() for A in (M, C, K, h)]
    E, dE = hu.harmonic_stiffness(M, C, K, w, h)
    E1 = hu.harmonic_stiffness(M, C, K, w, h, calc_grad=False)
    ctx.check(isinstance(E1, tuple) and len(E1) == 1,
              'without gradient a 1-tuple is returned')
    # time-domain oracle: project M x'' + C x' + K x of a random motion
    nc = ref.ncomp(h)
    Nt = 2 * int(h.max()) + 4
    A = rng.normal(size=(nc, n))
    U = ref.vec(A)

    def force(M_, C_, K_, w_):
        x = ref.synth(h, A, Nt, 0)
        v = w_ * ref.synth(h, A, Nt, 1)
        a = w_ ** 2 * ref.synth(h, A, Nt, 2)
        return ref.vec(ref.project(h, a @ M_.T + v @ C_.T + x @ K_.T))
    want = force(M, C, K, w)
    hm = float(h.max())
    sc = (np.abs(K).max() + hm * abs(w) * np.abs(C).max()
          + (hm * w) ** 2 * np.abs(M).max()) * np.abs(A).max() * n
    ctx.close(E @ U, want, 'dynamic stiffness times motion', rtol=1e-11,
              scale=sc)
    ctx.close(E1[0], E, 'operator without gradient', rtol=1e-14,
              scale=np.abs(E).max() + 1e-300)
    # entry by entry, each relative to its own terms
    Z = np.zeros((n, n))
    aM, aC, aK = np.abs(M), np.abs(C), np.abs(K)
    ctx.close(E, ref.stiff(M, C, K, w, h), 'operator entries', rtol=1e-13,
              scale=np.abs(ref.stiff(-aM, aC, aK, w, h)))
    # the operator is quadratic in the frequency
    want = 2 * w * ref.stiff(M, Z, Z, 1.0, h) + ref.stiff(Z, C, Z, 1.0, h)
    ctx.close(dE, want, 'frequency derivative', rtol=1e-13,
              scale=np.abs(want))
    # damping only
    Ec, dEc = hu.harmonic_stiffness(M, C, K, w, h, only_C=True)
    Ec1 = hu.harmonic_stiffness(M, C, K, w, h, calc_grad=False, only_C=True)
    ctx.close(Ec, ref.stiff(Z, C, Z, w, h), 'damping-only operator',
              rtol=1e-13, scale=np.abs(ref.stiff(Z, C, Z, w, h)))
    ctx.close(Ec1[0], Ec, 'damping-only operator without gradient',
              rtol=1e-14, scale=sc)
    ctx.close(dEc, ref.stiff(Z, C, Z, 1.0, h), 'damping-only derivative',
              rtol=1e-13, scale=np.abs(ref.stiff(Z, C, Z, 1., h)))
    ctx.check(all(np.array_equal(a, b) for a, b in zip(keep, (M, C, K, h))),
              'the operator modified its arguments')
    ctx.cover(n, 'h0' if h[0] == 0 else 'no0', np.sign(w))


def count(ctx):
    from tmdsimpy.utils import harmonic as hu
    rng = ctx.rng
    h = gen.harmonics(rng, kmax=12, nmax=9, huge=.012)
    if rng.random() < 0.3:
        rng.shuffle(h)
    ctx.check(hu.Nhc(h) == ref.ncomp(h), 'number of components of %s is %s'
              % (h, hu.Nhc(h)))
    rep = np.concatenate([h, [rng.choice(h)]])
    try:
        hu.Nhc(rep)
        ok = False
    except AssertionError:
        ok = True
    ctx.check(ok, 'repeated harmonics accepted: %s' % rep)
    ctx.check(hu.Nhc(np.array([], dtype=int)) == 0, 'empty list')
    ctx.cover(len(h))


GROUPS = {
    'operator': Group(operator, 1800, 8000, {'check': 8}),
    'count': Group(count, 360, 1080, {'check': 2}),
}
SHARDS = 4
