"""C27 Independent routes to the same motion agree."""
import numpy as np
from scipy.integrate import solve_ivp
from vlib import elems, forms, gen, ref
from vlib.run import Group, Skip
from props import c12

ID = 'C27'
RULE = ('harmonic-balance problems solved with the solvers of the package '
        'and marched in time by an independent integration of the equation '
        'of motion with independent element laws; shooting and stability '
        'verdicts of the same orbits; the residual forms evaluated at one '
        'common motion; frequency responses traced by continuation, resolved '
        'point by point')
ASSUMPTIONS = ['float64 arithmetic',
               'the truncated harmonics are small (measured on the time-domain'
               ' residual of the solution; other cases are skipped)',
               'hysteretic motions: agreement to the truncation error of the '
               'sampled friction force']
P = 8


def solve(fun, X0, tol=1e-9):
    from tmdsimpy.solvers import NonlinearSolver
    X, R, dR, info = NonlinearSolver().nsolve(fun, X0, verbose=False,
                                              xtol=1e-12)
    if not np.abs(R).max() < tol:
        raise Skip('no solution found')
    return X


def forced(rng, S, h, Nt, size=0.3):
    """A harmonic-balance solution under one-harmonic force (+ static)."""
    N = S.N
    w = float(rng.uniform(.4, 2.5))
    Fl = np.zeros(ref.ncomp(h) * N)
    z = N * (h[0] == 0)
    Fl[z:z + 2 * N] = rng.normal(size=2 * N) * size
    if z and rng.random() < .4:
        Fl[:N] = rng.normal(size=N) * size
    X = np.linalg.solve(ref.stiff(S.M, S.C, S.K, w, h), Fl) * .3
    for s in (.3, .65, 1.0):
        def fun(U, calc_grad=True, s=s):
            return S.obj.hbm_res(np.r_[U, w], s * Fl, h, Nt=Nt,
                                 calc_grad=calc_grad)[:2]
        X = solve(fun, X)
    return w, Fl, X


def accel(S, Fl, h, w):
    Mi = np.linalg.inv(S.M)
    cs = ref.comps(h)
    A = ref.mat(Fl, S.N, h)

    def f(t, y):
        x, v = y[:S.N], y[S.N:]
        fe = sum(A[j] * (np.cos(k * w * t) if c == 'c' else np.sin(k * w * t))
                 for j, (c, k) in enumerate(cs) if A[j].any())
        fn = np.zeros(S.N)
        for e in S.els:
            u, ud = (e.Q @ x)[None, :], (e.Q @ v)[None, :]
            fn += e.T @ e.law(u, ud, u)[0]
        return np.r_[v, Mi @ (fe - S.C @ v - S.K @ x - fn)]
    return f


def table(S, X, h, w, Nt):
    A = ref.mat(X, S.N, h)
    return (ref.synth(h, A, Nt, 0), w * ref.synth(h, A, Nt, 1),
            w * w * ref.synth(h, A, Nt, 2))


def damped(rng, kinds, nel):
    """Moderately damped system (periodic motions exist and are isolated)."""
    S = forms.Sys(rng, N=int(rng.integers(1, 4)), kinds=kinds, nel=nel,
                  lev=.4, damping='full')
    S.C = S.C + float(rng.uniform(.02, .3)) * S.M
    S.obj.set_new_C(C=S.C)
    return S


def periodic(ctx):
    """Memoryless elements: the solution repeats in time; shooting and the
    Floquet verdict agree."""
    from tmdsimpy.postprocess.shooting import time_stability
    rng = ctx.rng
    kinds = ['cubic', 'quintic', 'poly']
    shoot = ctx.index % 2 == 0
    S = damped(rng, kinds if shoot else kinds + ['cubdamp', 'cubdamp'],
               int(rng.integers(1, 3)))
    h = np.arange(0, int(rng.integers(9, 14)))
    Nt = 128
    w, Fl, X = forced(rng, S, h, Nt)
    T = 2 * np.pi / w
    x, v, a = table(S, X, h, w, Nt)
    t = np.arange(Nt) * T / Nt
    f = accel(S, Fl, h, w)
    res = max(np.abs(f(t[i], np.r_[x[i], v[i]])[S.N:] - a[i]).max()
              for i in range(0, Nt, 3))
    sc = np.abs(x).max() + np.abs(v).max()
    if res > 1e-4 * sc or sc > 4:
        raise Skip('harmonic truncation')
    y0 = np.r_[x[0], v[0]]
    s = solve_ivp(f, (0, T), y0, method='DOP853', rtol=1e-10, atol=1e-12,
                  t_eval=np.r_[t, T], max_step=T / 20)
    if s.status != 0:
        raise Skip('integration failed')
    msg = 'N=%d w=%.3f %s' % (S.N, w, [e.kind for e in S.els])
    tol = 1e-6 * sc + 60 * T * res
    ctx.note(N=S.N, w=w, kinds=[e.kind for e in S.els], h=len(h),
             truncation=res)
    ctx.close(s.y[:S.N, :-1].T, x, 'motion marched in time against harmonic '
              'balance, ' + msg, rtol=0, atol=tol)
    ctx.close(s.y[:, -1], y0, 'state after one period, ' + msg, rtol=0,
              atol=tol)
    ctx.event('marched')
    if not shoot or np.any(Fl[:S.N]):
        ctx.cover('march', S.N)
        return
    # shooting finds the same orbit and the verdict is the observed one
    F1 = Fl[S.N:3 * S.N]
    R, dR = S.obj.shooting_res(np.r_[y0, w], F1, Nt=Nt)[:2]
    ctx.close(R, np.zeros(2 * S.N), 'shooting residual at the harmonic '
              'solution, ' + msg, rtol=0, atol=tol + 2e-3 * sc)
    Y = solve(lambda y, calc_grad=True: S.obj.shooting_res(
        np.r_[y, w], F1, Nt=Nt)[:2], y0, 1e-6)
    Pm = c12.transition(S, F1, w, y0)[0]
    mult = np.abs(np.linalg.eigvals(Pm)).max()
    gain = 1 / max(1e-3, np.abs(np.linalg.svd(Pm - np.eye(2 * S.N))[1]).min())
    ctx.close(Y, y0, 'initial state found by shooting, ' + msg, rtol=0,
              atol=(tol + 4e-3 * sc) * min(gain, 30))
    yt, vt, st, mx = time_stability(S.obj, np.r_[y0, w][None, :], F1, Nt=Nt)
    ctx.close(yt[:, :Nt, 0].T, x, 'motion of the stability analysis',
              rtol=0, atol=tol + 4e-3 * sc)
    if abs(mult - 1) > .02 * max(1, np.abs(Pm).max()):
        ctx.check(bool(st[0]) == (mult < 1), 'stability verdict %s, observed '
                  'growth per period %.4f' % (st[0], mult), what='verdict')
    ctx.cover('shoot', S.N, 'stable%d' % (mult < 1))


def branch(ctx):
    """Lightly damped single coordinate: solutions on all branches, including
    the unstable one, from amplitude and phase control."""
    from tmdsimpy.postprocess.shooting import time_stability
    from tmdsimpy.nlforces.cubic_stiffness import CubicForce
    rng = ctx.rng
    S = forms.Sys(rng, N=1, kinds=['cubic'], nel=0, lev=1, damping='full')
    m, k = float(S.M[0, 0]), float(S.K[0, 0])
    c = .02 * np.sqrt(m * k) * rng.uniform(.5, 4)
    S.C = np.array([[c]])
    S.obj.set_new_C(C=S.C)
    al = k * rng.uniform(.2, 1)
    e = elems.Elem('cubic', CubicForce(np.eye(1), np.eye(1), al), np.eye(1),
                   np.eye(1), lambda u, v, U: al * u ** 3)
    S.els.append(e)
    S.obj.add_nl_force(e.obj)
    A = float(rng.uniform(.3, 1))
    wb = np.sqrt((k + .75 * al * A * A) / m)
    w = wb * float(rng.uniform(.93, 1.2)) if ctx.index % 2 else \
        wb * float(rng.uniform(1.002, 1.06))
    h = np.array([1, 3, 5, 7, 9, 11])
    Nt = 128
    Fl = np.zeros(12)
    Fl[0] = 1.0
    x0 = np.zeros(14)
    x0[0] = A
    x0[12] = (k + .75 * al * A * A - m * w * w) * A
    x0[13] = c * w * A

    def fun(x, calc_grad=True):
        return S.obj.hbm_amp_phase_control_res(
            np.r_[x, w], Fl, h, np.ones(1), A, 0, Nt=Nt,
            calc_grad=calc_grad)[:2]
    X = solve(fun, x0)
    F = X[12:14]
    G = np.zeros(12)
    G[:2] = F
    U = X[:12]
    R = S.obj.hbm_res(np.r_[U, w], G, h, Nt=Nt)[0]
    ctx.close(R, np.zeros(12), 'amplitude and phase control solution in the '
              'forced equations', rtol=0, atol=1e-7)
    x, v, a = table(S, U, h, w, Nt)
    y0 = np.r_[x[0], v[0]]
    T = 2 * np.pi / w

    # growth of perturbations over one period
    def march(y):
        s = solve_ivp(accel(S, G, h, w), (0, T), y, method='DOP853',
                      rtol=1e-11, atol=1e-13)
        return s.y[:, -1]
    base = march(y0)
    ctx.close(base, y0, 'orbit closes', rtol=0, atol=1e-4 * A)
    d = 1e-5
    Pm = np.column_stack([(march(y0 + d * q) - march(y0 - d * q)) / (2 * d)
                          for q in np.eye(2)])
    ctx.close(np.linalg.det(Pm), np.exp(-c / m * T), 'phase volume', rtol=0,
              atol=1e-4)
    mult = np.abs(np.linalg.eigvals(Pm)).max()
    yt, vt, st, mx = time_stability(S.obj, np.r_[y0, w][None, :], F, Nt=Nt)
    ctx.close(mx[0], mult, 'growth per period', rtol=0,
              atol=.02 * max(1, np.abs(Pm).max()))
    if abs(mult - 1) > .03 * max(1, np.abs(Pm).max()):
        ctx.check(bool(st[0]) == (mult < 1), 'stability verdict %s, observed '
                  'growth per period %.4f' % (st[0], mult), what='verdict')
        ctx.event('stable' if mult < 1 else 'unstable')
    ctx.cover('branch', 'stable%d' % (mult < 1))


class March:
    """Step-by-step local laws with memory, started in the steady state of
    the cycle."""

    def __init__(self, S, X, h, w, Nf):
        self.S = S
        self.st = []
        x = table(S, X, h, w, Nf)[0]
        A = ref.mat(X, S.N, h)
        for e in S.els:
            u = x @ e.Q.T
            U = A @ e.Q.T
            u3 = np.vstack([u] * 2 + [u[:1]])
            p = e.par
            if e.kind in ('iwan4', 'viwan4'):
                f, sl = p['model'].path(u3[:, 0], U[0, 0] if h[0] == 0
                                        else u[0, 0])
                self.st.append([u[0, 0], sl])
            elif e.kind[:5] == 'eldry':
                st = U[0] if p['u0'] is None else p['u0']
                f = ref.eldry_path(u3, p['nt'], p['kt'], p['kn'], p['mu'],
                                   p['gap'], st)
                self.st.append([u[0], f[-1]])
            else:
                st = U[0] if p['u0'] is None else p['u0']
                f = ref.jenkins_path(u3, p['kt'], p['Fs'], st)
                self.st.append([u[0], f[-1]])

    def force(self, x):
        F = np.zeros(self.S.N)
        for e, st in zip(self.S.els, self.st):
            u = e.Q @ x
            p = e.par
            if e.kind in ('iwan4', 'viwan4'):
                f, sl = p['model'].path(u, st[0], st[1])
                st[:] = [u[0], sl]
            elif e.kind[:5] == 'eldry':
                f = ref.eldry_path(u[None, :], p['nt'], p['kt'], p['kn'],
                                   p['mu'], p['gap'], st[0], st[1])[0]
                st[:] = [u, f]
            else:
                f = ref.jenkins_path(u[None, :], p['kt'], p['Fs'], st[0],
                                     st[1])[0]
                st[:] = [u, f]
            F += e.T @ f
        return F


def hysteretic(ctx):
    """Friction: the step-by-step law, marched from the harmonic-balance
    state, stays on the harmonic-balance motion for several periods."""
    rng = ctx.rng
    pos = ctx.index % P
    kind = ['jenkins', 'vjenkins', 'iwan4', 'viwan4', 'jjenkins', 'eldry2',
            'jvjenkins', 'eldry3'][pos]
    N = int(rng.integers(1, 3)) if kind[:5] != 'eldry' else 3
    S = forms.Sys(rng, N=N, nel=0, damping='full')
    S.C = S.C + .05 * S.M
    S.obj.set_new_C(C=S.C)
    m = {'eldry2': 2, 'eldry3': 3}.get(kind, 1)
    Q = np.linalg.qr(rng.normal(size=(N, N)))[0][:m]
    e = elems.make(rng, kind, N, m=1, lev=.3, Q=Q, T=Q.T.copy(),
                   u0mode='none')
    S.els.append(e)
    S.obj.add_nl_force(e.obj)
    h = np.arange(0, 8)
    Nt = 128
    w, Fl, X = forced(rng, S, h, Nt, .25)
    T = 2 * np.pi / w
    n = 1536
    x, v, a = table(S, X, h, w, n)
    M = March(S, X, h, w, n)
    Mi = np.linalg.inv(S.M)
    A = ref.mat(Fl, N, h)
    fe = ref.synth(h, A, n, 0)
    dt = T / n
    # leapfrog, friction state advanced with the displacement
    q = x[0].copy()
    vel = v[0].copy()
    worst = 0.0
    sz = np.ptp(x, axis=0).max() + 1e-12
    for i in range(2 * n):
        f = M.force(q)
        acc = Mi @ (fe[i % n] - S.C @ vel - S.K @ q - f)
        vel = vel + (.5 if i == 0 else 1) * dt * acc
        q = q + dt * vel
        worst = max(worst, np.abs(q - x[(i + 1) % n]).max())
    ctx.note(kind=kind, w=w, worst=worst, size=sz)
    lim = .02 if kind[:5] == 'eldry' else .01
    ctx.check(worst <= lim * sz, '%s: marched motion leaves the harmonic '
              'balance motion by %.3g of %.3g' % (kind, worst, sz))
    ctx.event('marched')
    ctx.cover('hyst', kind, 'N%d' % N)


def agree(ctx):
    """All residual forms at one common motion and load."""
    rng = ctx.rng
    pos = ctx.index % P
    prng, h, Nt = elems.pool(ctx.seed, 'C27', pos, nmax=3, hi=32, kmax=4)
    h = np.array(sorted({int(k) for k in h} | {1, int(prng.integers(2, 4))}))
    Nt = max(Nt, 2 * int(max(h)) + 2)
    N = 3
    S = forms.Sys(rng, N=N, lev=.4, nel=int(rng.integers(0, 3)))
    extra = ['none', 'eldry2', 'roughTAN', 'jvjenkins', 'none', 'eldry3',
             'roughMIF', 'jjenkins'][pos]
    U = elems.motion(rng, N, h, .4)
    if extra[:5] == 'rough':
        mat = elems.rough_material(prng)
        mat['model'] = extra[5:]
        e = elems.make_rough(rng, mat, N, Q=np.eye(3), T=np.eye(3))
        U = elems.rough_motion(rng, e, h, N)
        S.obj.add_nl_force(e.obj)
    elif extra != 'none':
        e = elems.make(rng, extra, N, m=1, lev=.4)
        S.obj.add_nl_force(e.obj)
    vs = S.obj
    w = float(rng.uniform(.3, 2))
    n = U.size
    Fl = rng.normal(size=n)
    St, Dy = forms.stat_dyn(Fl, h, N)
    i1 = forms.hindex(h, 1)
    c1, s1 = slice(i1 * N, i1 * N + N), slice(i1 * N + N, i1 * N + 2 * N)
    kw = dict(Nt=Nt, calc_grad=False)
    base = np.asarray(vs.hbm_res(np.r_[U, w], 0 * Fl, h, **kw)[0])
    tot = np.asarray(vs.total_aft(U, w, h, Nt=Nt)[0])
    # everything that enters the equations
    sc = np.abs(base).max() + np.abs(tot).max() + np.abs(
        ref.stiff(S.M, S.C, S.K, w, h)).max() * np.abs(U).max() \
        + np.abs(Fl).max() + S.size(U, w, h, Nt)
    t = dict(rtol=1e-9, scale=sc)
    ctx.close(base, ref.stiff(S.M, S.C, S.K, w, h) @ U + tot,
              'linear and nonlinear part', **t)
    r = vs.hbm_res(np.r_[U, w], Fl, h, **kw)[0]
    ctx.close(r, base - Fl, 'external force', **t)
    s = float(rng.normal())
    r = vs.hbm_res_dFl(np.r_[U, s], w, Fl, h, **kw)[0]
    ctx.close(r, base - St - s * Dy, 'force-amplitude form', **t)
    rec = rng.normal(size=N)
    o = int(rng.integers(0, 3))
    amp = float(np.hypot(rec @ U[c1], rec @ U[s1]) * w ** o)
    ta = dict(rtol=1e-9, scale=sc + amp ** 2 + amp)
    r = vs.hbm_amp_control_res(np.r_[U, s, w], Fl, h, rec, amp, o, **kw)[0]
    ctx.close(r, np.r_[base - St - s * Dy, 0], 'amplitude-control form', **ta)
    fc = rng.normal(size=2)
    G = St.copy()
    G[c1], G[s1] = fc[0] * Fl[c1], fc[1] * Fl[c1]
    want = np.r_[base - G, w ** o * rec @ U[c1] - amp, w ** o * rec @ U[s1]]
    r = vs.hbm_amp_phase_control_res(np.r_[U, fc, w], Fl, h, rec, amp, o,
                                     **kw)[0]
    ctx.close(r, want, 'amplitude and phase form', **ta)
    r = vs.hbm_amp_phase_control_dA_res(np.r_[U, fc, amp], Fl, h, rec, w, o,
                                        **kw)[0]
    ctx.close(r, want, 'amplitude-parameter form', **ta)
    # phase resonance forms
    rhi = int(rng.choice([k for k in h if k > 1]))
    phi = rng.normal(size=N) if rng.random() < .5 else None
    one = vs.vprnm_single_eqn(U, w, h, rhi, Nt=Nt, superharmonic_filter=phi)
    q = float(np.ravel(one[0])[0])
    # without force in that harmonic the constraint is not defined
    V = ref.mat(U, N, h)
    V[[j for j, (_, k) in enumerate(ref.comps(h)) if k >= rhi]] = 0
    FV = np.asarray(vs.total_aft(ref.vec(V), w, h, Nt=Nt)[0])
    j = forms.hindex(h, rhi)
    FV, UV = FV.reshape(-1, N)[j:j + 2], ref.mat(U, N, h)[j:j + 2]
    if phi is not None:
        FV, UV = FV @ phi, UV @ S.M.T @ phi
    real = bool(np.abs(FV).max() > 1e-6 * (1e-300 + np.abs(tot).max())
                and np.abs(UV).max() > 1e-9 * np.abs(U).max())
    ctx.check(not real or abs(q) <= 1 + 1e-9, 'phase resonance constraint '
              'outside of [-1, 1]')
    cs = float(rng.uniform(.2, 3))
    vk = dict(Nt=Nt, calc_grad=False, constraint_scale=cs)
    if phi is not None:
        vk['superharmonic_filter'] = phi
    r = vs.vprnm_res(np.r_[U, w, s], h, rhi, Fl, **vk)[0]
    ctx.close(r[:n], base - St - s * Dy, 'phase resonance form', **t)
    if real:
        ctx.event('quadrature')
        ctx.close(r[n], cs * q, 'phase resonance row', rtol=1e-8, scale=cs)
    r = vs.vprnm_amp_phase_res(np.r_[U, fc, w, amp], Fl, h, rhi, rec, o,
                               **vk)[0]
    ctx.close(r[:n + 2], want, 'controlled phase resonance form', **ta)
    if real:
        ctx.close(r[n + 2], cs * q, 'phase resonance row', rtol=1e-8,
                  scale=cs)
    # nonlinear mode: the same motion with mass-proportional self excitation
    A = 10.0 ** rng.uniform(-1, 1)
    B = ref.mat(U, N, h)
    B[(h[0] == 0) * 1:] /= A
    xi = float(rng.normal() * .2)
    r = vs.epmc_res(np.r_[ref.vec(B), w, xi, np.log10(A)], Fl, h, **kw)[0]
    C0 = np.array(vs.C)
    vs.set_new_C(C=C0 - xi * S.M)
    self_ex = vs.hbm_res(np.r_[U, w], St, h, **kw)[0]
    vs.set_new_C(C=C0)
    k1 = ref.vec(B)
    ctx.close(r, np.r_[self_ex, k1[c1] @ S.M @ k1[c1] + k1[s1] @ S.M @ k1[s1]
                       - 1, Dy @ k1], 'nonlinear mode form', rtol=1e-9,
              scale=sc * (1 + abs(xi)) + np.abs(k1).max() ** 2 * N * N * 4
              + np.abs(Fl).max() * np.abs(k1).sum())
    # base motion
    flag = np.zeros(N, bool)
    flag[rng.choice(N, int(rng.integers(1, N)), replace=False)] = True
    T = ref.mat(U, N, h)
    r = vs.hbm_base_res(np.r_[ref.vec(T[:, ~flag]), w], ref.vec(T[:, flag]),
                        flag, h, Nt=Nt)[0]
    ctx.close(r, ref.vec(base.reshape(-1, N)[:, ~flag]), 'base-motion form',
              **t)
    ctx.cover('agree', extra, 'h0' if h[0] == 0 else 'no0')


def statics(ctx):
    """Static equilibrium is the harmonic balance of the zeroth harmonic."""
    rng = ctx.rng
    S = forms.Sys(rng, kinds=['cubic', 'quintic', 'poly', 'uni', 'iwanbb'],
                  lev=.4)
    U = rng.normal(size=S.N) * .4
    F = rng.normal(size=S.N)
    R, J = S.obj.static_res(U, F)
    w = float(rng.uniform(.2, 2))
    out = S.obj.hbm_res(np.r_[U, w], F, np.array([0]), Nt=16)
    sc = S.size(U, w, np.array([0]), 16) + np.abs(F).max()
    ctx.close(out[0], R, 'zeroth harmonic against statics', rtol=1e-10,
              scale=sc)
    ctx.close(out[1], J, 'zeroth harmonic derivative against statics',
              rtol=1e-9, scale=max(np.abs(J).max(), sc))
    ctx.close(out[2], np.zeros(S.N), 'frequency derivative of a static state',
              rtol=1e-10, scale=sc)
    # a static state is the mean of a motion without oscillation
    h = gen.harmonics(rng, zero=True)
    V = np.zeros(ref.ncomp(h) * S.N)
    V[:S.N] = U
    G = np.zeros(V.size)
    G[:S.N] = F
    r = S.obj.hbm_res(np.r_[V, w], G, h, Nt=gen.samples(rng, h))[0]
    ctx.close(r[:S.N], R, 'mean part of a motion at rest', rtol=1e-9,
              scale=sc)
    ctx.close(r[S.N:], np.zeros(V.size - S.N), 'oscillating part of a motion '
              'at rest', rtol=1e-9, scale=sc)
    ctx.cover('static', S.N, len(S.els))


def response(ctx):
    """A frequency response traced by continuation: every point solves the
    time-domain balance, lies where a separate solve finds it, and
    interpolation gives solutions in between."""
    from tmdsimpy.continuation import Continuation
    from tmdsimpy.solvers import NonlinearSolver
    from tmdsimpy.utils import harmonic as hu
    from tmdsimpy.postprocess import continuation as pc
    rng = ctx.rng
    S = damped(rng, ['cubic', 'uni', 'iwanbb', 'jenkins', 'viwan4'],
               int(rng.integers(1, 3)))
    N = S.N
    h = np.array([0, 1, 2, 3]) if ctx.index % 2 else np.array([0, 1, 3])
    Nt = 64
    n = ref.ncomp(h) * N
    Fl = np.zeros(n)
    Fl[N:2 * N] = rng.normal(size=N) * .1
    wn = np.sqrt(np.linalg.eigvals(np.linalg.solve(S.M, S.K)).real.min())
    lo, hi = .6 * wn, 1.3 * wn
    if rng.random() < .4:
        lo, hi = hi, lo

    def fun(Uw, calc_grad=True):
        return S.obj.hbm_res(Uw, Fl, h, Nt=Nt, calc_grad=calc_grad)
    X0 = np.linalg.solve(ref.stiff(S.M, S.C, S.K, lo, h), Fl)
    X0 = solve(lambda U, calc_grad=True: fun(np.r_[U, lo], calc_grad)[:2], X0)
    C = hu.harmonic_wise_conditioning(np.r_[X0, lo], N, h)
    C[-1] = abs(hi - lo)
    got = []
    cfg = dict(dsmax=.1, dsmin=1e-4, verbose=-1, MaxSteps=150, xtol=1e-9,
               callback=lambda X, d: got.append(np.array(X)))
    if rng.random() < .5:
        cfg['DynamicCtoP'] = True
    sol = NonlinearSolver()
    C0 = C.copy()
    XL = Continuation(sol, ds0=.05, CtoP=C, config=cfg).continuation(
        fun, np.r_[X0, lo], lo, hi)
    if len(XL) < 8:
        raise Skip('short branch')
    if not cfg.get('DynamicCtoP'):
        ctx.check(np.array_equal(C, C0), 'conditioning vector modified')
    ctx.check(len(got) == len(XL) + 1 and np.array_equal(
        np.array(got[:-1]), XL),
              'callback saw other points than returned')
    for i in range(0, len(XL), 3):
        X = XL[i]
        r = S.eom(X[:-1], X[-1], h, Nt) - Fl
        ctx.check(np.abs(r).max() < 1e-4 * np.abs(Fl).max(),
                  'point %d does not balance the equation of motion: %.3g' % (
                      i, np.abs(r).max()), what='point')
        try:
            Y = solve(lambda U, calc_grad=True: fun(
                np.r_[U, X[-1]], calc_grad)[:2], X[:-1], 1e-8)
        except Skip:
            continue
        ctx.check(np.abs(Y - X[:-1]).max() < .02 * np.abs(X[:-1]).max(),
                  'point %d is not the solution a separate solve finds' % i,
                  what='resolved')
    # interpolation where the branch is a function of frequency
    up = XL if hi > lo else XL[::-1]
    w = up[:, -1]
    if np.all(np.diff(w) > 0):
        q = np.sort(rng.uniform(w[0], w[-1], 6))
        grad = []
        for X in up:
            _, dU, dw = fun(X)
            grad.append(np.r_[-np.linalg.solve(dU, dw), 1.0])
        for row in pc.hermite_interp(up, np.array(grad), q):
            r = S.eom(row[:-1], row[-1], h, Nt) - Fl
            ctx.check(np.abs(r).max() < .2 * np.abs(Fl).max(),
                      'interpolated response is off: residual %.3g of force '
                      '%.3g' % (np.abs(r).max(), np.abs(Fl).max()),
                      what='interpolated')
    ctx.cover('response', N, 'down%d' % (hi < lo), '+'.join(sorted(set(
        e.kind for e in S.els))))


GROUPS = {
    'periodic': Group(periodic, 48, 800, {'marched': .5, 'verdict': .1}),
    'branch': Group(branch, 40, 600, {'verdict': .3, 'unstable': .05}),
    'hysteretic': Group(hysteretic, 40, 800, {'marched': .5}),
    'agree': Group(agree, 64, 1200, {'check': 6}),
    'statics': Group(statics, 240, 720, {'check': 3}),
    'response': Group(response, 16, 200, {'point': 1, 'resolved': 1,
                                          'interpolated': 1}),
}
SHARDS = 8
