"""C10 Extended periodic motion residual."""
import numpy as np
from scipy.integrate import solve_ivp
from vlib import elems, forms, gen, ref
from vlib.run import Group, Skip

ID = 'C10'
RULE = ('random systems and states of the extended periodic motion residual, '
        'compared to projected time-domain forces of the scaled motion; '
        'linear modes (closed form, with static load) and orbits of '
        'conservative oscillators (independent time integration) inserted as '
        'roots; points accepted by the continuation solver re-examined')
ASSUMPTIONS = ['float64 arithmetic',
               'harmonic 1 is the first nonzero harmonic']


def residual(ctx):
    rng = ctx.rng
    lev = 10.0 ** rng.uniform(-1, 0.5)
    S = forms.Sys(rng, lev=lev)
    f = forms.make(rng, S, 'epmc')
    h = f.kw['h']
    n = f.x.size - 3
    if rng.random() < 0.2:
        y = np.array(f.x, float)
        y[-3:] = (10.0 ** rng.uniform(-2, 2), y[-2] * 10.0 ** rng.uniform(-1, 2),
                  rng.uniform(-7, 6))
        f.x = gen.dress(rng, y)
    keep = [np.array(a) for a in f.kw['args']] + [f.x.copy()]
    msg = 'residual h=%s Nt=%d elements %s' % (h, f.kw['Nt'],
                                               [e.kind for e in S.els])
    ctx.note(h=h, Nt=f.kw['Nt'], kinds=[e.kind for e in S.els], N=S.N)
    out = f.call(f.x, True)
    ctx.check(len(out) == 3, 'residual returns value and two derivatives')
    want = f.ref(f.x)
    eq = S.size(np.r_[f.x[:n]] * np.where(
        np.arange(n) < S.N * (h[0] == 0), 1.0, 10.0 ** f.x[-1]), f.x[-3], h,
        f.kw['Nt'], f.x[-2]) + np.abs(f.kw['args'][0]).max()
    cons = 1e-11 * (1 + np.abs(S.M).sum() * np.abs(f.x[:n]).max() ** 2
                    + np.abs(f.kw['args'][0]).sum() * np.abs(f.x[:n]).max())
    ctx.close(out[0][:-2], want[:-2], 'equation rows, ' + msg, rtol=1e-9,
              scale=eq)
    ctx.close(out[0][-2], want[-2], 'modal mass row, ' + msg, rtol=0,
              atol=cons)
    ctx.close(out[0][-1], want[-1], 'phase row, ' + msg, rtol=0, atol=cons)
    g = f.call(f.x, False)
    ctx.close(g[0], out[0], 'without gradient, ' + msg, rtol=1e-12, scale=eq)
    now = [np.array(a) for a in f.kw['args']] + [f.x]
    ctx.check(all(np.array_equal(a, b) for a, b in zip(keep, now)),
              'arguments modified')
    ctx.cover('h0' if h[0] == 0 else 'no0', 'n%d' % S.N,
              '+'.join(sorted(set(e.kind for e in S.els))))


def linear_mode(ctx):
    """A damped linear mode with static preload is a root at any amplitude
    without elements and in the limit of small amplitude with smooth ones."""
    from scipy.linalg import eigh
    rng = ctx.rng
    nl = ctx.index % 2
    S = forms.Sys(rng, damping='ab', lev=0.5, nel=int(rng.integers(1, 3))
                  if nl else 0, kinds=['cubic', 'quintic', 'cubdamp'])
    h = gen.harmonics(rng, kmax=5, nmax=4, one=True)
    Nt = gen.samples(rng, h, hi=48)
    N, nc = S.N, ref.ncomp(h)
    w2, V = eigh(S.K, S.M)
    r = int(rng.integers(N))
    phi, w = V[:, r], np.sqrt(w2[r])
    xi = float(phi @ S.C @ phi)
    th = float(rng.uniform(-np.pi, np.pi))
    A = np.zeros((nc, N))
    F = np.zeros((nc, N))
    i1 = forms.hindex(h, 1)
    A[i1], A[i1 + 1] = phi * np.cos(th), phi * np.sin(th)
    if h[0] == 0 and not nl:
        F[0] = rng.normal(size=N)
        A[0] = np.linalg.solve(S.K, F[0])
    a = float(rng.uniform(-6, 6)) if not nl else float(rng.uniform(-8, -6))
    b = rng.normal(size=2 * N)
    q = np.r_[A[i1], A[i1 + 1]]
    b -= q * (q @ b) / (q @ q)
    F[i1], F[i1 + 1] = b[:N], b[N:]
    x = np.r_[ref.vec(A), w, xi, a]
    R = S.obj.epmc_res(x, ref.vec(F), h, Nt=Nt)[0]
    sc = S.size(x[:-3], w, h, Nt, xi)
    ctx.close(R[:-2] / (10.0 ** a), np.zeros(R.size - 2),
              'linear mode %d of %d does not satisfy the equation' % (r, N),
              rtol=0, atol=1e-9 * sc * max(1.0, 10.0 ** -a)
              if not nl else 1e-9 * sc)
    ctx.close(R[-2:], np.zeros(2), 'constraints at a linear mode', rtol=0,
              atol=1e-10 * (1 + np.abs(b).sum() * np.abs(q).max()))
    # detuned frequency or damping are no roots
    for k in (-3, -2):
        y = x.copy()
        y[k] += 0.01 * w
        R2 = S.obj.epmc_res(y, ref.vec(F), h, Nt=Nt)[0]
        e = 10.0 ** a * (np.abs(S.M @ phi).max() * (0.02 * w * w if k == -3
                                                    else 0.01 * w * w))
        ctx.check(np.abs(R2[:-2]).max() > 0.2 * e, 'residual does not depend '
                  'on %s' % ('frequency' if k == -3 else 'modal damping'))
    ctx.cover('linear', nl, 'h0' if h[0] == 0 else 'no0', 'r%d' % r)


def orbit(ctx):
    """Free orbits of conservative oscillators are roots, with damping
    proportional to mass cancelled by the modal damping unknown."""
    from tmdsimpy.vibration_system import VibrationSystem
    from tmdsimpy.nlforces.cubic_stiffness import CubicForce
    from tmdsimpy.nlforces.quintic_stiffness import QuinticForce
    from tmdsimpy.nlforces.general_poly_stiffness import GenPolyForce
    rng = ctx.rng
    m, k, c = rng.uniform(0.5, 2), rng.uniform(0.5, 2), rng.uniform(0, 0.1)
    k3, k5, k2 = rng.uniform(0, 1), rng.uniform(0, 0.5), 0.0
    if ctx.index % 2:
        k2 = rng.uniform(-0.4, 0.4)
    s = VibrationSystem(np.array([[m]]), np.array([[k]]), np.array([[c]]))
    I1 = np.eye(1)
    s.add_nl_force(CubicForce(I1, I1, np.array([k3])))
    s.add_nl_force(QuinticForce(I1, I1, np.array([k5])))
    if k2:
        s.add_nl_force(GenPolyForce(I1, I1, np.array([[k2]]),
                                    np.array([[2]])))

    def acc(x):
        return -(k * x + k2 * x ** 2 + k3 * x ** 3 + k5 * x ** 5) / m
    x0 = float(rng.uniform(0.2, 1.0))

    def ev(t, y):
        return y[1]
    ev.direction = -1
    ev.terminal = False
    sol = solve_ivp(lambda t, y: [y[1], acc(y[0])], (0, 40), [x0, 0.0],
                    rtol=1e-11, atol=1e-13, events=ev, dense_output=True,
                    max_step=0.5)
    te = [t for t in sol.t_events[0] if t > 0.2]
    if not te:
        raise Skip('no period found')
    T = te[0]
    w = 2 * np.pi / T
    h = np.arange(0, 16) if k2 else np.arange(1, 18, 2)
    n = 256
    t = np.arange(n) * T / n
    shift = float(rng.uniform(0, T))
    A = ref.project(h, sol.sol((t + shift) % T)[0][:, None])
    i1 = forms.hindex(h, 1)
    amp = np.hypot(A[i1, 0], A[i1 + 1, 0]) * np.sqrt(m)
    Q = A.copy()
    Q[1 * (h[0] == 0):] /= amp
    F = np.zeros_like(A)
    F[i1], F[i1 + 1] = A[i1 + 1], -A[i1]
    x = np.r_[ref.vec(Q), w, c / m, np.log10(amp)]
    R = s.epmc_res(x, ref.vec(F), h, Nt=n)[0]
    ctx.close(R, np.zeros(R.size), 'free orbit with x0=%.3f k2=%.3f' % (
        x0, k2), rtol=0, atol=2e-6)
    ctx.note(x0=x0, w=w, amp=amp, h=h)
    ctx.cover('orbit', 'even' if k2 else 'odd', 'a%d' % (10 * x0))


def traced(ctx):
    """Points of a continued backbone: equation, normalization and phase."""
    from tmdsimpy.solvers import NonlinearSolver
    from tmdsimpy.continuation import Continuation
    from scipy.linalg import eigh
    rng = ctx.rng
    for attempt in range(50):
        S = forms.Sys(rng, N=int(rng.integers(1, 4)), damping='ab', lev=0.3,
                      nel=int(rng.integers(1, 3)),
                      kinds=['cubic', 'quintic', 'cubdamp', 'jenkins'])
        if all(np.min(e.par.get('k', 0)) >= 0 and np.array_equal(e.T, e.Q.T)
               for e in S.els):
            break
    h = np.array([0, 1, 2, 3]) if rng.random() < 0.5 else np.array([1, 3])
    Nt = 32
    N, nc = S.N, ref.ncomp(h)
    i1 = forms.hindex(h, 1)
    # linearized start: stuck elements add their tangent stiffness
    K = S.K.copy()
    for e in S.els:
        if e.kind == 'jenkins':
            K = K + e.par['kt'] * e.T @ e.Q
    w2, V = eigh(K, S.M)
    A = np.zeros((nc, N))
    A[i1] = V[:, 0]
    F = np.zeros((nc, N))
    F[i1 + 1] = 1.0
    x = np.r_[ref.vec(A), np.sqrt(w2[0]), V[:, 0] @ S.C @ V[:, 0], -4.0]
    Fl = ref.vec(F)

    def fun(X, calc_grad=True):
        return S.obj.epmc_res(X, Fl, h, Nt=Nt, calc_grad=calc_grad)
    cont = Continuation(NonlinearSolver(), ds0=0.1, CtoP=None, config={
        'DynamicCtoP': True, 'MaxSteps': 8, 'dsmax': 0.3, 'verbose': -1})
    try:
        X = cont.continuation(fun, x, -4.0, 0.0)
    except AssertionError:
        raise Skip('no initial solution')
    for p in X:
        rep = np.abs(fun(p)[0]).max()
        if rep > 1e-7 * 10.0 ** p[-1]:
            # accepted by the step-size criterion of the base solver only
            ctx.event('unresolved')
            continue
        r = S.eom(np.where(np.arange(nc * N) < N * (h[0] == 0), 1.0,
                           10.0 ** p[-1]) * p[:nc * N], p[-3], h, Nt, p[-2])
        ctx.check(np.abs(r).max() < 1e-5 * 10.0 ** p[-1] * (
            1 + S.size(p[:nc * N], p[-3], h, Nt)),
            'backbone point leaves the equation')
        B = ref.mat(p[:nc * N], N, h)
        ctx.check(abs(B[i1] @ S.M @ B[i1] + B[i1 + 1] @ S.M @ B[i1 + 1] - 1)
                  < 1e-6, 'first harmonic without unit modal mass')
        ctx.check(abs(B[i1 + 1].sum()) < 1e-6, 'phase condition not kept')
    ctx.event('backbone_point', len(X))
    ctx.cover('traced', len(X) > 3)


GROUPS = {
    'residual': Group(residual, 1800, 6000, {'check': 4}),
    'linear_mode': Group(linear_mode, 720, 2160, {'check': 3}),
    'orbit': Group(orbit, 140, 420, {'check': 0.9}),
    'traced': Group(traced, 140, 420, {'backbone_point': 1}),
}
SHARDS = 6
