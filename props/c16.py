"""C16 Linear frequency responses."""
import contextlib
import io
import numpy as np
from scipy.linalg import eigh
from vlib import forms, gen, ref
from vlib.run import Group

ID = 'C16'
RULE = ('random systems with proportional damping, cosine and sine forces, '
        'frequency lists, retained mode numbers, base masks (also several '
        'base coordinates and inertial coupling), floating systems with rigid '
        'body modes; compared to direct complex '
        'solves, to truncated sums of independent modes and to the '
        'harmonic-balance residuals')
ASSUMPTIONS = ['float64 arithmetic', 'distinct natural frequencies where '
               'modes are truncated', 'all base coordinates share one motion']


def solver(rng):
    if rng.random() < 0.5:
        from tmdsimpy.solvers import NonlinearSolver as S
    else:
        from tmdsimpy.jax.solvers import NonlinearSolverOMP as S
    return S()


def draw(rng, nmin=1):
    N = gen.dofs(rng, 5, nmin, huge=.012)
    return forms.Sys(rng, N=N, damping='ab', nel=0)


def prop_obj(rng, S):
    from tmdsimpy.vibration_system import VibrationSystem
    how = int(rng.integers(3))
    if how == 0:
        return VibrationSystem(S.M, S.K, ab=list(S.ab))
    v = VibrationSystem(S.M, S.K) if how == 1 else \
        VibrationSystem(S.M, S.K, ab=[0.3, 0.4])
    v.set_new_C(ab=list(S.ab))
    return v


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


def direct(M, C, K, w, f):
    """complex amplitude X of x = Re(X exp(i w t)) for force Re(f e^iwt)"""
    return np.array([np.linalg.solve(K - q * q * M + 1j * q * C, f)
                     for q in w])


def freqs(rng, M, K):
    wn = np.sqrt(eigh(K, M, eigvals_only=True))
    w = rng.uniform(0.1, 1.5 * wn[-1], int(rng.integers(1, 8)))
    if rng.random() < 0.4:
        w[0] = wn[rng.integers(wn.size)]        # at resonance
    if rng.random() < .15:                      # backwards, or at rest
        w = w * rng.choice([-1., 0., 1.], w.size)
    return w, wn


def full(ctx):
    rng = ctx.rng
    S = draw(rng)
    v = prop_obj(rng, S)
    N = S.N
    w, wn = freqs(rng, S.M, S.K)
    Fc, Fs = rng.normal(size=N), rng.normal(size=N)
    if rng.random() < .4:               # loads on some coordinates only
        Fc = Fc * (rng.random(N) < .5)
        Fs = Fs * (rng.random(N) < .5)
    sol = solver(rng)
    neigs = N + int(rng.integers(0, 3))
    w, Fc, Fs = (gen.dress(rng, a) for a in (w, Fc, Fs))
    if rng.random() < .1:
        Fc = np.round(3 * Fc).astype(int)
    keep = [a.copy() for a in (w, Fc, Fs)]
    kw = {'Flsin': Fs}
    mode = int(rng.integers(3))
    if mode == 0:
        kw, Fs = {}, np.zeros(N)
    elif mode == 1 and rng.random() < .5:
        Fc = np.zeros(N)
        keep[1] = Fc.copy()
    if not (neigs == 3 and rng.random() < .5):
        kw['neigs'] = neigs
    out = quiet(v.linear_frf, w, Fc, sol, **kw)
    X = direct(S.M, S.C, S.K, w, Fc - 1j * Fs)
    sc = np.abs(X).max() + 1e-12
    ctx.check(out.shape == (w.size, 2 * N + 1), 'shape of the response')
    msg = 'N=%d, force %d' % (N, mode)
    cond = 1e-10 * (wn[-1] / wn[0]) ** 2
    ctx.close(out[:, :N], X.real, 'cosine response, ' + msg, rtol=cond,
              scale=sc)
    ctx.close(out[:, N:-1], -X.imag, 'sine response, ' + msg, rtol=cond,
              scale=sc)
    ctx.close(out[:, -1], w, 'frequencies of the response', rtol=1e-14,
              scale=np.abs(w).max())
    # root of the harmonic-balance residual with other harmonics at rest
    h = gen.harmonics(rng, kmax=4, nmax=3, one=True)
    U = np.zeros((ref.ncomp(h), N))
    F = np.zeros_like(U)
    i1 = forms.hindex(h, 1)
    k = int(rng.integers(w.size))
    U[i1], U[i1 + 1] = out[k, :N], out[k, N:-1]
    F[i1], F[i1 + 1] = Fc, Fs
    R = v.hbm_res(np.r_[ref.vec(U), w[k]], ref.vec(F), h)[0]
    ctx.close(R, np.zeros(R.size), 'harmonic-balance residual of the linear '
              'response', rtol=0, atol=1e-9 * cond / 1e-10 * (
                  np.abs(S.K).sum() * sc + np.abs(F).max()))
    ctx.check(all(np.array_equal(a, b) for a, b in zip(
        keep, (w, Fc, Fs if 'Flsin' in kw else keep[2]))),
        'arguments modified')
    ctx.cover('n%d' % N, mode, 'neigs%d' % min(neigs, N))


def modal(ctx):
    """Retaining fewer modes; superposition and scaling."""
    rng = ctx.rng
    S = draw(rng, 2)
    v = prop_obj(rng, S)
    N = S.N
    w2, V = eigh(S.K, S.M)
    wn = np.sqrt(w2)
    n = int(rng.integers(1, N))
    if np.diff(wn)[n - 1] < 1e-3 * wn[0]:
        n = N
    w, _ = freqs(rng, S.M, S.K)
    Fc, Fs = rng.normal(size=N), rng.normal(size=N)
    out = quiet(v.linear_frf, w, Fc, solver(rng), neigs=n, Flsin=Fs)
    f = V.T @ (Fc - 1j * Fs)
    X = np.zeros((w.size, N), complex)
    size = 0.0                  # of the terms, which may cancel
    for r in range(n):
        c = S.ab[0] + S.ab[1] * w2[r]
        d = w2[r] - w ** 2 + 1j * w * c
        X += np.outer(f[r] / d, V[:, r])
        size = max(size, np.abs(V[:, r]) @ np.abs(Fc - 1j * Fs) * np.abs(
            V[:, r]).max() / np.abs(d).min())
    sc = np.abs(X).max() + 1e-3 * size + 1e-12
    ctx.close(out[:, :N], X.real, 'cosine response with %d of %d modes'
              % (n, N), rtol=1e-8, scale=sc)
    ctx.close(out[:, N:-1], -X.imag, 'sine response with %d of %d modes'
              % (n, N), rtol=1e-8, scale=sc)
    # superposition
    a, b = rng.normal(size=2)
    sol = solver(rng)
    one = quiet(v.linear_frf, w, Fc, sol, neigs=n)
    two = quiet(v.linear_frf, w, np.zeros(N), sol, neigs=n, Flsin=Fs)
    mix = quiet(v.linear_frf, w, a * Fc, sol, neigs=n, Flsin=b * Fs)
    ctx.close(mix[:, :-1], a * one[:, :-1] + b * two[:, :-1],
              'superposition', rtol=1e-9, scale=sc * (abs(a) + abs(b)) * 4)
    # quarter period shift: sine force of the same size
    sh = quiet(v.linear_frf, w, np.zeros(N), sol, neigs=n, Flsin=Fc)
    ctx.close(sh[:, N:-1], one[:, :N], 'quarter period shift', rtol=1e-9,
              scale=sc * 4)
    ctx.close(sh[:, :N], -one[:, N:-1], 'quarter period shift', rtol=1e-9,
              scale=sc * 4)
    # one frequency at a time
    k = int(rng.integers(w.size))
    single = quiet(v.linear_frf, w[[k]], Fc, sol, neigs=n)
    ctx.close(single[0], one[k], 'single frequency', rtol=1e-11,
              scale=sc * 4)
    ctx.cover('modal', 'n%d' % N, n)


def base(ctx):
    rng = ctx.rng
    S = draw(rng, 2)
    v = prop_obj(rng, S)
    N = S.N
    nb = int(rng.integers(1, min(N, 3)))
    flag = np.zeros(N, bool)
    flag[rng.choice(N, nb, replace=False)] = True
    n = N - nb
    fr = ~flag
    M, K, C = (a[np.ix_(fr, fr)] for a in (S.M, S.K, S.C))
    w, wn = freqs(rng, M, K)
    Ub = rng.normal(size=2)
    if rng.random() < 0.3:
        Ub[rng.integers(2)] = 0
    w, Ub, flag = (gen.dress(rng, a) for a in (w, Ub, flag))
    keep = w.copy(), Ub.copy(), flag.copy()
    kw = {} if n == 3 and rng.random() < .5 else {
        'neigs': n + int(rng.integers(0, 2))}
    out = quiet(v.linear_frf_base, w, Ub, flag, solver(rng), **kw)
    z = Ub[0] - 1j * Ub[1]
    one = np.ones(nb)
    X = np.array([np.linalg.solve(
        K - q * q * M + 1j * q * C,
        -(S.K - q * q * S.M + 1j * q * S.C)[np.ix_(fr, flag)] @ one * z)
        for q in w])
    sc = np.abs(X).max() + 1e-3 * max(np.abs(np.linalg.inv(
        K - q * q * M + 1j * q * C)).max() * np.abs(
            S.K - q * q * S.M + 1j * q * S.C).max() for q in w) * np.abs(z)
    ctx.check(out.shape == (w.size, 2 * n + 1), 'shape of the response')
    msg = '%d of %d base coordinates' % (nb, N)
    cond = 1e-10 * (wn[-1] / wn[0]) ** 2
    ctx.close(out[:, :n], X.real, 'cosine response, ' + msg, rtol=cond,
              scale=sc)
    ctx.close(out[:, n:-1], -X.imag, 'sine response, ' + msg, rtol=cond,
              scale=sc)
    ctx.close(out[:, -1], w, 'frequencies of the response', rtol=1e-14,
              scale=np.abs(w).max())
    h = np.array([0, 1]) if rng.random() < .5 else np.array([1, 3])
    nc = ref.ncomp(h)
    i1 = forms.hindex(h, 1)
    k = int(rng.integers(w.size))
    U = np.zeros((nc, n))
    U[i1], U[i1 + 1] = out[k, :n], out[k, n:-1]
    B = np.zeros((nc, nb))
    B[i1], B[i1 + 1] = Ub[0], Ub[1]
    R = v.hbm_base_res(np.r_[ref.vec(U), w[k]], B.reshape(-1), flag, h)[0]
    ctx.close(R, np.zeros(R.size), 'base-excited harmonic-balance residual of '
              'the linear response', rtol=0, atol=10 * cond * (
                  np.abs(S.K).sum() * max(sc, 1)))
    ctx.check(np.array_equal(w, keep[0]) and np.array_equal(Ub, keep[1])
              and np.array_equal(flag, keep[2]), 'arguments modified')
    ctx.cover('base', 'n%d' % N, nb, 'cpl%d' % (np.abs(
        S.M[np.ix_(fr, flag)]).max() > 0))


def floating(rng, n):
    """(M, K) of chains without connection to the ground: one or two rigid
    body modes."""
    cut = int(rng.integers(1, n)) if n > 3 and rng.random() < .4 else n
    K = np.zeros((n, n))
    for i in range(n - 1):
        if i + 1 != cut:
            k = rng.uniform(.5, 2)
            K[i:i + 2, i:i + 2] += k * np.array([[1, -1], [-1, 1]])
    M = np.diag(rng.uniform(.5, 2, n))
    if rng.random() < .3:
        M = gen.spd(rng, n, .5, 2)
        M = .5 * (M + M.T)
    p = rng.permutation(n)
    return M[np.ix_(p, p)], K[np.ix_(p, p)], 1 if cut == n else 2


def free(ctx):
    """Systems with rigid body modes respond finitely at nonzero frequency."""
    rng = ctx.rng
    from tmdsimpy.vibration_system import VibrationSystem
    n = int(rng.integers(2, 7))
    M, K, nr = floating(rng, n)
    ab = [float(rng.uniform(0, .1)), float(rng.uniform(0, .1))]
    v = VibrationSystem(M, K, ab=list(ab))
    C = ab[0] * M + ab[1] * K
    w2 = eigh(K, M, eigvals_only=True)
    w = rng.uniform(.3, 1.5 * np.sqrt(w2[-1]), int(rng.integers(1, 6)))
    if rng.random() < .15:
        w = w * rng.choice([-1., 1.], w.size)
    if ctx.index % 3 < 2:
        Fc, Fs = rng.normal(size=(2, n))
        out = quiet(v.linear_frf, w, Fc, solver(rng), neigs=n, Flsin=Fs)
        X = direct(M, C, K, w, Fc - 1j * Fs)
        m = n
    else:                       # base coordinate(s), possibly not connected
        flag = np.zeros(n, bool)
        flag[rng.integers(n)] = True
        fr = ~flag
        m = n - 1
        Ub = rng.normal(size=2)
        out = quiet(v.linear_frf_base, w, Ub, flag, solver(rng), neigs=m)
        Z = [K - q * q * M + 1j * q * C for q in w]
        X = np.array([np.linalg.solve(z[np.ix_(fr, fr)], -z[np.ix_(
            fr, flag)] @ np.ones(1) * (Ub[0] - 1j * Ub[1])) for z in Z])
    cond = max(np.linalg.cond((K - q * q * M + 1j * q * C)) for q in w)
    sc = np.abs(X).max() + 1e-12
    ctx.close(out[:, :m], X.real, 'cosine response of a floating system',
              rtol=1e-11 * cond + 1e-9, scale=sc)
    ctx.close(out[:, m:-1], -X.imag, 'sine response of a floating system',
              rtol=1e-11 * cond + 1e-9, scale=sc)
    ctx.cover('free', nr, 'n%d' % n, ctx.index % 3 == 2)


def base_modal(ctx):
    """Base excitation with fewer modes is the truncated sum over the modes
    of the free coordinates."""
    rng = ctx.rng
    S = draw(rng, 3)
    v = prop_obj(rng, S)
    N = S.N
    flag = np.zeros(N, bool)
    flag[rng.choice(N, int(rng.integers(1, N - 1)), replace=False)] = True
    fr = ~flag
    n = int(fr.sum())
    M, K = (a[np.ix_(fr, fr)] for a in (S.M, S.K))
    w2, V = eigh(K, M)
    q = int(rng.integers(1, n))
    if np.diff(np.sqrt(w2))[q - 1] < 1e-3 * np.sqrt(w2[0]):
        q = n
    w, _ = freqs(rng, M, K)
    Ub = rng.normal(size=2)
    out = quiet(v.linear_frf_base, w, Ub, flag, solver(rng), neigs=q)
    z = Ub[0] - 1j * Ub[1]
    X = np.zeros((w.size, n), complex)
    size = 0.0                  # of the terms, which may cancel
    for k, s in enumerate(w):
        Z = (S.K - s * s * S.M + 1j * s * S.C)[np.ix_(fr, flag)]
        f = -Z.sum(1) * z
        for r in range(q):
            c = S.ab[0] + S.ab[1] * w2[r]
            d = w2[r] - s * s + 1j * s * c
            X[k] += V[:, r] @ f / d * V[:, r]
            size = max(size, np.abs(V[:, r]) @ np.abs(Z).sum(1) / np.abs(d)
                       * np.abs(z) * np.abs(V[:, r]).max())
    sc = np.abs(X).max() + 1e-3 * size + 1e-12
    ctx.close(out[:, :n], X.real, 'cosine base response with %d of %d modes'
              % (q, n), rtol=1e-8, scale=sc)
    ctx.close(out[:, n:-1], -X.imag, 'sine base response with %d of %d modes'
              % (q, n), rtol=1e-8, scale=sc)
    ctx.cover('base modal', n, q, int(flag.sum()))


def refuse(ctx):
    """Responses need proportional damping: explicit damping is refused."""
    rng = ctx.rng
    from tmdsimpy.vibration_system import VibrationSystem
    S = draw(rng)
    C = gen.spd(rng, S.N, .01, .1)
    how = ctx.index % 3
    if how == 0:
        v = VibrationSystem(S.M, S.K, C)
    elif how == 1:
        v = VibrationSystem(S.M, S.K)
    else:
        v = VibrationSystem(S.M, S.K, ab=list(S.ab))
        v.set_new_C(C=C)
    try:
        quiet(v.linear_frf, np.array([1.0]), np.ones(S.N), solver(rng))
        ok = False
    except AssertionError:
        ok = True
    ctx.check(ok, 'modal response with explicit damping')
    ctx.cover('refuse', how)


GROUPS = {
    'full': Group(full, 780, 3000, {'check': 4}),
    'modal': Group(modal, 720, 2160, {'check': 5}),
    'base': Group(base, 960, 3000, {'check': 4}),
    'free': Group(free, 360, 1080, {'check': 2}),
    'base_modal': Group(base_modal, 360, 1080, {'check': 2}),
    'refuse': Group(refuse, 15, 60, {'check': 1}),
}
SHARDS = 6
