"""C22 Harmonic helpers: phase rotation, wrapping, crossings, conditioning."""
import numpy as np
from vlib import gen, ref
from vlib.run import Group

ID = 'C22'
RULE = ('random harmonic solution sets with extra trailing columns rotated '
        'by scalar / per-row phases at any of their harmonics and compared '
        'with a time shift of the synthesised motion; phases over many '
        'turns; conditioning vectors for scalar, integer and per-harmonic '
        'minima with 0-4 extra unknowns')
ASSUMPTIONS = ['float64 arithmetic']


def rotate(ctx):
    from tmdsimpy.utils import harmonic as hu
    rng = ctx.rng
    h = gen.harmonics(rng, kmax=6, nmax=5, huge=.012)
    N = gen.dofs(rng, 4, huge=.012)
    rows = gen.dofs(rng, 4, huge=.012)
    extra = int(rng.integers(0, 4))
    n = ref.ncomp(h)
    U = rng.normal(size=(rows, n * N + extra)) * 10.0 ** rng.integers(-4, 5)
    one = rows == 1 and rng.random() < 0.5
    hr = int(rng.choice(h[h > 0]))
    phase = rng.uniform(-9, 9)
    if not one and rng.random() < 0.5:
        phase = rng.uniform(-9, 9, rows)
    U = gen.dress(rng, U, 0.1)
    h = gen.dress(rng, h)
    phase = gen.dress(rng, phase, 0.1) if np.ndim(phase) else phase
    arg = U[0] if one else U
    keep = arg.copy()
    kp = np.copy(phase)
    got = hu.rotate_subtract_phase(arg, N, h, phase, hr)
    ctx.check(np.array_equal(arg, keep) and np.array_equal(kp, phase),
              'rotation modified its inputs')
    ctx.check(got.shape == U.shape, 'shape %s' % (got.shape,))
    sc = np.abs(U).max()
    ctx.close(got[:, n * N:], U[:, n * N:], 'extra columns changed',
              rtol=1e-14, scale=np.abs(U[:, n * N:]))
    ph = phase * np.ones(rows)
    tau = rng.uniform(0, 2 * np.pi, 12)
    for r in range(rows):
        A0 = ref.mat(U[r, :n * N], N, h)
        A1 = ref.mat(got[r, :n * N], N, h)
        ctx.close(ref.basis(h, tau) @ A1,
                  ref.basis(h, tau - ph[r] / hr) @ A0,
                  'rotated motion is not the motion delayed in time, h=%s '
                  'h_rotate=%d' % (h, hr), rtol=1e-10, scale=sc * n)
    back = hu.rotate_subtract_phase(got, N, h, -ph if rows > 1 else -phase,
                                    hr)
    ctx.close(back, U, 'rotation back does not restore', rtol=1e-11,
              scale=sc)
    ctx.note(h=h, N=N, hr=hr, phase=phase)
    ctx.cover('h0' if h[0] == 0 else 'no0', 'hr%d' % hr,
              'arr' if np.ndim(phase) else 'scalar', 'ex%d' % extra,
              '1d' if one else '2d')


def wrap(ctx):
    from tmdsimpy.utils import harmonic as hu
    rng = ctx.rng
    n = int(rng.integers(1, 40))
    p = rng.uniform(-1, 1, n) * 10.0 ** rng.uniform(-2, 3)
    p = np.concatenate([p, np.pi * np.arange(-4, 5) * (1 + 1e-9)])
    p = gen.dress(rng, p, 0.1)
    keep = p.copy()
    q = hu.shift_pm_pi(p)
    ctx.check(np.array_equal(p, keep), 'wrapping modified its input')
    ctx.check(q.shape == p.shape, 'wrapping changed the shape')
    ctx.check(bool(np.all(q >= -np.pi - 1e-9)
                   and np.all(q <= np.pi + 1e-9)),
              'wrapped phase outside [-pi, pi)')
    turns = (p - q) / (2 * np.pi)
    ctx.close(turns, np.round(turns), 'wrapping moved by a fraction of a '
              'turn', rtol=1e-9, scale=1.0 + np.abs(turns).max())
    inside = rng.uniform(-np.pi, np.pi, 20) * 0.999
    ctx.close(hu.shift_pm_pi(inside), inside, 'phase inside the range moved',
              rtol=1e-12, scale=np.pi)
    ctx.cover('turns%d' % int(np.log10(1 + np.abs(turns).max())))


def crossing(ctx):
    from tmdsimpy.utils import harmonic as hu
    rng = ctx.rng
    n = int(rng.integers(2, 40))
    x = rng.normal(size=n)
    if rng.random() < 0.3:
        x = np.sort(x)
    size = 10.0 ** rng.uniform(-9, 9) if rng.random() < .5 else 1.0
    x = x * size
    tol = np.inf if rng.random() < 0.5 else \
        float(rng.uniform(0.1, 1.5)) * size
    x = gen.dress(rng, x)
    keep = x.copy()
    got = hu.zero_crossing(x) if tol == np.inf else hu.zero_crossing(
        x, zero_tol=tol)
    want = [i + 1 < n and (x[i] < 0) != (x[i + 1] < 0) and abs(x[i]) < tol
            for i in range(n)]
    ctx.check(np.array_equal(x, keep), 'input modified')
    ctx.check(np.asarray(got).dtype == bool and len(got) == n
              and list(got) == want,
              'sign changes flagged at %s, expected %s'
              % (np.nonzero(got)[0], np.nonzero(want)[0]))
    ctx.cover('tol' if tol < np.inf else 'any', 'some' if any(want) else
              'none')


def condition(ctx):
    from tmdsimpy.utils import harmonic as hu
    rng = ctx.rng
    h = gen.harmonics(rng, kmax=6, nmax=4, huge=.012)
    N = gen.dofs(rng, 4, huge=.012)
    m = int(rng.integers(0, 5))
    n = ref.ncomp(h)
    X = rng.normal(size=n * N + m) * 10.0 ** rng.uniform(-6, 1, n * N + m)
    H = len(h)
    kind = rng.choice(['default', 'float', 'int', 'array', 'list'])
    if kind == 'default':
        d, arg = np.full(H + 1, 1e-4), None
    elif kind == 'float':
        arg = gen.logu(rng, 1e-6, 1.0)
        d = np.full(H + 1, arg)
    elif kind == 'int':
        arg = int(rng.integers(1, 3))
        d = np.full(H + 1, float(arg))
    else:
        d = 10.0 ** rng.uniform(-6, 0, H + 1)
        arg = d.copy() if m else d[:H].copy()
        if kind == 'list':
            arg = [float(q) for q in arg]
    X = gen.dress(rng, X, 0.1)
    keep = X.copy()
    got = hu.harmonic_wise_conditioning(X, N, h) if arg is None \
        else hu.harmonic_wise_conditioning(X, N, h, delta=arg)
    want = np.zeros(X.shape)
    row = 0
    for k, hk in enumerate(h):
        cnt = N if hk == 0 else 2 * N
        mean = np.abs(X[row:row + cnt]).sum() / cnt
        want[row:row + cnt] = max(mean, d[k])
        row += cnt
    for j in range(m):
        want[row + j] = max(abs(X[row + j]), d[-1])
    ctx.check(np.array_equal(X, keep), 'conditioning modified its input')
    ctx.check(np.shape(got) == X.shape, 'conditioning vector has shape %s, '
              'expected %s (N=%d, h=%s, extra unknowns %d, minima %s)'
              % (np.shape(got), X.shape, N, h, m, kind))
    ctx.check(bool(np.all(np.abs(got - want) <= 1e-12 * want)),
              'conditioning vector differs (N=%d, h=%s, m=%d, %s)'
              % (N, h, m, kind))
    ctx.note(h=h, N=N, m=m, kind=kind)
    ctx.cover(kind, 'm%d' % m, 'h0' if h[0] == 0 else 'no0',
              'm>=2N' if m >= 2 * N else 'm<2N')


GROUPS = {
    'rotate': Group(rotate, 1500, 8000, {'check': 5}),
    'wrap': Group(wrap, 600, 3000, {'check': 4}),
    'crossing': Group(crossing, 600, 3000, {'check': 2}),
    'condition': Group(condition, 1500, 8000, {'check': 3}),
}
SHARDS = 4
