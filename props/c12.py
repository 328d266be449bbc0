"""C12 Shooting residual and stability."""
import numpy as np
from scipy.integrate import solve_ivp
from scipy.linalg import expm
from vlib import elems, forms, gen
from vlib.run import Group, Skip

ID = 'C12'
RULE = ('random forced systems with zero to three displacement-dependent '
        'elements; shooting residual, trajectory, state transition matrix and '
        'derivatives compared to an independent high-accuracy integration of '
        'the equation of motion with independent element laws, to the matrix '
        'exponential for linear systems, and Floquet verdicts to the '
        'eigenvalues of the independent transition matrix')
ASSUMPTIONS = ['float64 arithmetic',
               'step limit of the integrator at least 128 per period, '
               'natural periods not shorter than a fifth of the period',
               'elements depend on displacement only (cubic damping is driven '
               'through displacement in time integration by design)']
SMOOTH = ['cubic', 'quintic', 'poly']
ROUGH = ['uni', 'iwanbb']


def law(S, x):
    f = np.zeros(S.N)
    for e in S.els:
        u = (e.Q @ x)[None, :]
        f += e.T @ e.law(u, u, u)[0]
    return f


def rhs(S, Fl, w):
    Mi = np.linalg.inv(S.M)
    N = S.N

    def f(t, y):
        x, v = y[:N], y[N:]
        a = Mi @ (Fl[:N] * np.cos(w * t) + Fl[N:] * np.sin(w * t)
                  - S.C @ v - S.K @ x - law(S, x))
        return np.r_[v, a]
    return f


def flow(S, Fl, w, y0, t_eval=None, rtol=1e-10):
    T = 2 * np.pi / w
    f = rhs(S, Fl, w)

    def far(t, y):
        return np.abs(y).max() - 4.0
    far.terminal = True
    if t_eval is not None:
        t_eval = np.minimum(t_eval, T)
    s = solve_ivp(f, (0, T), y0, method='DOP853', rtol=rtol,
                  atol=1e-12, t_eval=t_eval, max_step=T / 20, events=far)
    if s.status != 0 or not np.all(np.isfinite(s.y)):
        raise Skip('motion leaves the range')
    return s.y


def coarse(S, Fl, w, y0, Nt, y):
    """Error of a fifth-order integration with the step limit of the code
    under test: size of the discretization error that is not a violation."""
    T = 2 * np.pi / w
    s = solve_ivp(rhs(S, Fl, w), (0, T), y0, max_step=T / Nt,
                  t_eval=np.minimum(np.arange(Nt + 1) * T / Nt, T))
    if s.status != 0 or not np.abs(s.y - y).max() < 1e-4:
        raise Skip('stiff motion')
    return 20 * float(np.abs(s.y - y).max()) + 1e-6


def draw(ctx, kinds, nel=None):
    rng = ctx.rng
    for attempt in range(20):
        S = forms.Sys(rng, N=int(rng.integers(1, 4)), lev=0.4,
                      kinds=kinds, nel=nel)
        N = S.N
        w = float(rng.uniform(0.6, 3.0))
        Fl = rng.normal(size=2 * N) * 0.3
        if rng.random() < 0.3:
            Fl[N:] = 0
        y0 = rng.normal(size=2 * N) * 0.4
        Nt = int(rng.choice([128, 150, 160, 256]))
        T = 2 * np.pi / w
        try:
            y = flow(S, Fl, w, y0, np.arange(Nt + 1) * T / Nt)
            err = coarse(S, Fl, w, y0, Nt, y)
        except Skip:
            continue
        return S, w, Fl, y0, Nt, y, err
    raise Skip('no bounded motion found')


def transition(S, Fl, w, y0, e=2e-4):
    n = y0.size
    D = np.zeros((n, n + 1))
    for k in range(n + 1):
        d = np.zeros(n)
        if k < n:
            d[k] = e
        dw = e if k == n else 0
        D[:, k] = (flow(S, Fl, w + dw, y0 + d, rtol=1e-11)[:, -1]
                   - flow(S, Fl, w - dw, y0 - d, rtol=1e-11)[:, -1]) / (2 * e)
    return D[:, :n], D[:, n]


def compare(ctx, kinds, tol, dtol):
    S, w, Fl, y0, Nt, y, err = draw(ctx, kinds)
    N, n = S.N, 2 * S.N
    T = 2 * np.pi / w
    keep = y0.copy(), Fl.copy()
    arg = np.r_[y0, w]
    ntkw = gen.ntkw(ctx.rng, Nt)
    out = S.obj.shooting_res(arg, Fl, return_aux=True, **ntkw)
    ctx.check(len(out) == 4, 'residual, derivatives and auxiliary results')
    R, dU, dw, aux = out
    msg = 'N=%d w=%.3f elements %s' % (N, w, [e.kind for e in S.els])
    ctx.note(N=N, w=w, kinds=[e.kind for e in S.els], Nt=Nt)
    sc = max(1.0, np.abs(y).max())
    tol = max(err, tol)
    ctx.close(R, y[:, -1] - y0, 'shooting residual ' + msg, rtol=tol,
              scale=sc)
    ctx.close(aux[1], y[:N], 'displacement history ' + msg, rtol=tol,
              scale=sc)
    ctx.close(aux[2], y[N:], 'velocity history ' + msg, rtol=tol, scale=sc)
    ctx.check(np.shape(dU) == (n, n) and np.shape(dw) == (n,)
              and np.shape(aux[0]) == (n, n), 'shapes of the derivatives')
    ctx.close(np.asarray(aux[0]) - np.eye(n), dU, 'derivative is not '
              'transition matrix minus identity', rtol=1e-12,
              scale=1 + np.abs(dU).max())
    short = S.obj.shooting_res(arg, Fl, **ntkw)
    ctx.check(len(short) == 3 and all(np.array_equal(a, b) for a, b in zip(
        short, out)), 'auxiliary results change the residual')
    if dtol:
        P, pw = transition(S, Fl, w, y0)
        ctx.close(aux[0], P, 'transition matrix ' + msg, rtol=dtol,
                  scale=max(1.0, np.abs(P).max()) ** 2)
        ctx.close(dw, pw, 'frequency derivative ' + msg, rtol=dtol,
                  scale=max(1.0, np.abs(pw).max(), np.abs(P).max() ** 2))
        ctx.event('derivative')
    ctx.check(np.array_equal(arg, np.r_[keep[0], w])
              and np.array_equal(Fl, keep[1]), 'arguments modified')
    ctx.cover('n%d' % N, len(S.els), '+'.join(sorted(set(
        e.kind for e in S.els))))


def smooth(ctx):
    compare(ctx, SMOOTH, 0, 1e-3)


def kinked(ctx):
    compare(ctx, SMOOTH + ROUGH + ROUGH, 1e-4, None)


def linear(ctx):
    """Linear systems: matrix exponential, exact periodic orbits."""
    rng = ctx.rng
    S = forms.Sys(rng, nel=0, N=int(rng.integers(1, 4)))
    N, n = S.N, 2 * S.N
    w = float(rng.uniform(0.6, 3))
    T = 2 * np.pi / w
    Mi = np.linalg.inv(S.M)
    A = np.block([[np.zeros((N, N)), np.eye(N)], [-Mi @ S.K, -Mi @ S.C]])
    Fl = rng.normal(size=n)
    X = np.linalg.solve(S.K - w * w * S.M + 1j * w * S.C,
                        Fl[:N] - 1j * Fl[N:])
    y0 = np.r_[X.real, (1j * w * X).real]
    Nt = 128
    R, dU, dw, aux = S.obj.shooting_res(np.r_[y0, w], Fl, Nt=Nt,
                                        return_aux=True)
    sc = max(1.0, np.abs(y0).max())
    ctx.close(R, np.zeros(n), 'periodic orbit of a linear system', rtol=1e-5,
              scale=sc)
    t = np.arange(Nt + 1) * T / Nt
    ctx.close(aux[1], (X[:, None] * np.exp(1j * w * t)).real,
              'periodic motion', rtol=1e-5, scale=sc)
    P = expm(A * T)
    ctx.close(aux[0], P, 'transition matrix of a linear system', rtol=1e-5,
              scale=max(1.0, np.abs(P).max()))
    ctx.cover('linear', N)


def stability(ctx):
    """Floquet verdict of recorded orbits."""
    from tmdsimpy.postprocess.shooting import time_stability
    rng = ctx.rng
    S, w, Fl, y0, Nt, y, err = draw(ctx, SMOOTH)
    if rng.random() < 0.5:          # unstable trivial orbits: negative springs
        S.K = S.K - rng.uniform(0, 1.0) * np.diag(np.diag(S.K))
        S.obj.K = S.K
    N, n = S.N, 2 * S.N
    rows = []
    ref = []
    for r in range(int(rng.integers(1, 4))):
        wr = w * (1 + 0.1 * r)
        yr = y0 * (1 - 0.3 * r)
        try:
            yy = flow(S, Fl, wr, yr, np.arange(Nt + 1) * 2 * np.pi / wr / Nt)
            P = transition(S, Fl, wr, yr)[0]
            err = coarse(S, Fl, wr, yr, Nt, yy)
        except Skip:
            continue
        if np.abs(P).max() > 100:
            continue
        rows.append(np.r_[yr, wr])
        ref.append((yy, err, np.abs(np.linalg.eigvals(P)).max(),
                    np.abs(P).max()))
    if not rows:
        raise Skip('no bounded motion found')
    rows = np.array(rows)
    keep = rows.copy()
    yt, vt, st, mx = time_stability(S.obj, rows, Fl,
                                    **gen.ntkw(rng, Nt))
    k = len(ref)
    ctx.check(np.shape(yt) == (N, Nt + 1, k) and np.shape(vt) == np.shape(yt)
              and np.shape(st) == (k,) and np.shape(mx) == (k,),
              'shapes of the stability results')
    for r in range(k):
        yy, err, m, sz = ref[r]
        sc = max(1.0, np.abs(yy).max())
        ctx.close(yt[:, :, r], yy[:N], 'displacement history', rtol=err,
                  scale=sc)
        ctx.close(vt[:, :, r], yy[N:], 'velocity history', rtol=err,
                  scale=sc)
        ctx.close(mx[r], m, 'largest multiplier', rtol=0,
                  atol=3e-3 * max(1.0, sz))
        ctx.check(bool(st[r]) == bool(mx[r] <= 1), 'verdict %s for the '
                  'returned multiplier 1 %+.3g' % (st[r], mx[r] - 1))
        if abs(m - 1) > 6e-3 * max(1.0, sz):
            ctx.check(bool(st[r]) == (m <= 1), 'verdict %s for largest '
                      'multiplier %.4f' % (st[r], m))
            ctx.event('stable' if m <= 1 else 'unstable')
    ctx.check(np.array_equal(rows, keep), 'arguments modified')
    ctx.cover('floquet', k, 'n%d' % N)


def border(ctx):
    """Hardly damped linear systems: verdict and returned multiplier agree
    on both sides of one."""
    from tmdsimpy.vibration_system import VibrationSystem
    from tmdsimpy.postprocess.shooting import time_stability
    rng = ctx.rng
    N = int(rng.integers(1, 3))
    K = np.diag(rng.uniform(.5, 4, N))
    c = float(rng.choice([0.0, -1.0, 1.0])) * 10.0 ** rng.uniform(-8, -4)
    s = VibrationSystem(np.eye(N), K, c * np.eye(N))
    rows = np.c_[rng.normal(size=(3, 2 * N)), rng.uniform(.6, 2, 3)]
    _, _, st, mx = time_stability(s, rows, rng.normal(size=2 * N), Nt=32)
    for r in range(3):
        ctx.close(mx[r], np.exp(-c * np.pi / rows[r, -1]), 'largest '
                  'multiplier, damping %.3g' % c, rtol=3e-3)
        ctx.check(bool(st[r]) == bool(mx[r] <= 1), 'verdict %s for the '
                  'returned multiplier 1 %+.3g' % (st[r], mx[r] - 1))
        ctx.cover('border', np.sign(mx[r] - 1), int(np.log10(abs(
            mx[r] - 1) + 1e-16)))


def refuse(ctx):
    """Elements with memory and wrong state sizes are refused."""
    rng = ctx.rng
    S = forms.Sys(rng, nel=int(rng.integers(0, 3)), kinds=SMOOTH, lev=0.4)
    n = 2 * S.N
    bad = ctx.index % 2
    if bad:
        el = elems.make(rng, str(rng.choice(['jenkins', 'iwan4'])), S.N)
        S.obj.add_nl_force(el.obj)
        arg = np.r_[rng.normal(size=n) * .1, 1.0]
    else:
        arg = np.r_[rng.normal(size=n + int(rng.choice([-1, 1, 2]))) * .1, 1.]
    try:
        S.obj.shooting_res(arg, np.zeros(n), Nt=16)
        ok = False
    except AssertionError:
        ok = True
    ctx.check(ok, 'element with memory accepted' if bad
              else 'state of wrong size accepted')
    ctx.cover('refuse', bad)


GROUPS = {
    'smooth': Group(smooth, 72, 900, {'check': 4, 'derivative': 0.5}),
    'kinked': Group(kinked, 48, 600, {'check': 3}),
    'linear': Group(linear, 230, 690, {'check': 3}),
    'stability': Group(stability, 30, 300, {'check': 2}),
    'border': Group(border, 100, 300, {'check': 4}),
    'refuse': Group(refuse, 24, 100, {'check': 1}),
}
SHARDS = 8
