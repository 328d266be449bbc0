"""Random systems and all residual forms with independent references."""
import numpy as np
from . import elems, gen, ref


class Sys:
    def __init__(self, rng, N=None, kinds=None, nel=None, lev=1.0,
                 damping=None, u0mode=None):
        from tmdsimpy.vibration_system import VibrationSystem
        self.N = N = N or gen.dofs(rng, 4)
        self.M, self.K, self.C, self.ab = gen.system(rng, N, damping)
        self.lev = lev
        if self.ab is not None and rng.random() < 0.7:
            self.obj = VibrationSystem(self.M, self.K, ab=list(self.ab))
        elif not np.any(self.C):
            self.obj = VibrationSystem(self.M, self.K)
        else:
            self.obj = VibrationSystem(self.M, self.K, self.C)
        kinds = kinds or elems.INST + ['jenkins', 'vjenkins', 'iwan4',
                                       'viwan4']
        nel = int(rng.integers(0, 4)) if nel is None else nel
        self.els = []
        for _ in range(nel):
            el = elems.make(rng, str(rng.choice(kinds)), N, lev=lev,
                            u0mode=u0mode)
            self.els.append(el)
            self.obj.add_nl_force(el.obj)

    def fnl(self, U, w, h, Nt):
        F = np.zeros(U.size)
        for el in self.els:
            F = F + el.aft_ref(U, w, h, Nt)
        return F

    def eom(self, U, w, h, Nt, xi=0.0):
        """Projected inertia + damping + stiffness + nonlinear forces."""
        A = ref.mat(U, self.N, h)
        x = ref.synth(h, A, Nt, 0)
        v = w * ref.synth(h, A, Nt, 1)
        a = w * w * ref.synth(h, A, Nt, 2)
        C = self.C - xi * self.M
        lin = ref.vec(ref.project(h, a @ self.M.T + v @ C.T + x @ self.K.T))
        return lin + self.fnl(U, w, h, Nt)

    def size(self, U, w, h, Nt, xi=0.0):
        """Sum of magnitudes of everything entering the equations."""
        hm = max(1.0, float(np.max(h)))
        m = np.abs(U).max() * self.N
        s = m * (np.abs(self.K).max() + hm * abs(w) * (
            np.abs(self.C).max() + abs(xi) * np.abs(self.M).max())
            + (hm * w) ** 2 * np.abs(self.M).max())
        for el in self.els:
            _, (Ul, u, Fh, f) = ref.aft(el.Q, el.T, U, w, h, Nt, el.law)
            s += np.abs(f).max() * max(1.0, np.abs(el.T).max()) \
                * el.Q.shape[0]
            if el.kind == 'poly':
                s += el.par['bound'](np.abs(Ul).sum(0)) * max(
                    1.0, np.abs(el.T).max()) * el.Q.shape[0]
        return s + 1e-12


class Form:
    """x holds the unknowns followed by the continuation parameter."""

    def __init__(self, name, x, xs, call, refv, size, **kw):
        self.name, self.x, self.xs = name, x, xs
        self.call, self.ref, self.size = call, refv, size
        self.kw = kw


def stat_dyn(Fl, h, N):
    S = np.array(Fl, float)
    D = np.array(Fl, float)
    for j, (_, k) in enumerate(ref.comps(h)):
        r = slice(j * N, (j + 1) * N)
        if k == 0:
            D[r] = 0
        else:
            S[r] = 0
    return S, D


def hindex(h, k):
    """index of the cosine component of harmonic k"""
    for j, (c, kk) in enumerate(ref.comps(h)):
        if kk == k and (c == 'c'):
            return j
    raise KeyError(k)


FORMS = ['hbm', 'hbm_dFl', 'base', 'amp', 'amp_phase', 'amp_phase_dA', 'epmc',
         'vprnm', 'vprnm_amp_phase']


def make(rng, S, name, **kw):
    f = _make(rng, S, name, **kw)
    f.x = gen.dress(rng, f.x)
    return f


def _make(rng, S, name, style=None, h=None, Nt=None, big=False):
    """Random evaluation of residual form `name` on system S."""
    N, vs, lev = S.N, S.obj, S.lev
    one = True if name in ('amp', 'amp_phase', 'amp_phase_dA', 'epmc',
                           'vprnm', 'vprnm_amp_phase') else None
    if h is None:
        h = gen.harmonics(rng, kmax=int(rng.choice([3, 6])), nmax=4, one=one)
        if name[:5] == 'vprnm' and max(h) < 2:
            h = np.append(h, int(rng.integers(2, 5)))
    if Nt is None:
        Nt = gen.samples(rng, h, hi=48)
    default = Nt == 128 and rng.random() < .7
    nc = ref.ncomp(h)
    n = nc * N
    U = elems.motion(rng, N, h, lev, style)
    w = float(rng.uniform(0.2, 3))
    Fl = rng.normal(size=n)
    if rng.random() < 0.3:
        Fl[N * (h[0] == 0) + N:] = 0
    Fl, h = gen.dress(rng, Fl, 0.1), gen.dress(rng, h)
    opt = {} if default else dict(Nt=Nt)
    if rng.random() < 0.3:
        opt['aft_tol'] = 1e-7
    us = np.full(n, lev)
    i1 = hindex(h, 1) if 1 in h else None
    recov = rng.normal(size=N)
    if rng.random() < 0.5:
        recov = np.zeros(N)
        recov[rng.integers(N)] = 1.0
    recov = gen.dress(rng, recov, 0.2)
    order = int(rng.integers(0, 3))
    amp = float(rng.uniform(0.1, 2))
    Sf, Df = stat_dyn(Fl, h, N)
    kw = dict(h=h, Nt=Nt)

    def c1(x):
        return x[i1 * N:(i1 + 1) * N], x[(i1 + 1) * N:(i1 + 2) * N]

    def size(x, w_, fs=1.0, xi=0.0):
        return S.size(x[:n], w_, h, Nt, xi) + np.abs(Fl).max() * max(
            1.0, abs(fs))

    if name == 'hbm':
        x = np.r_[U, w]
        return Form(name, x, np.r_[us, w],
                    lambda x, g: vs.hbm_res(x, Fl, h, calc_grad=g, **opt),
                    lambda x: S.eom(x[:-1], x[-1], h, Nt) - Fl,
                    lambda x: size(x, x[-1]), args=(Fl, h), **kw)
    if name == 'hbm_dFl':
        x = np.r_[U, float(rng.normal())]
        return Form(name, x, np.r_[us, 1.0],
                    lambda x, g: vs.hbm_res_dFl(x, w, Fl, h, calc_grad=g,
                                                **opt),
                    lambda x: S.eom(x[:-1], w, h, Nt) - Sf - x[-1] * Df,
                    lambda x: size(x, w, x[-1]), args=(Fl, h), **kw)
    if name == 'base':
        nb = int(rng.integers(1, N)) if N > 1 else 0
        flag = np.zeros(N, bool)
        flag[rng.choice(N, nb, replace=False)] = True
        Ub = gen.dress(rng, rng.normal(size=nc * nb) * lev)
        full = ref.mat(U, N, h)
        free = ref.vec(full[:, ~flag])

        def assemble(x):
            A = np.zeros((nc, N))
            A[:, flag] = Ub.reshape(nc, nb)
            A[:, ~flag] = x[:-1].reshape(nc, N - nb)
            return ref.vec(A)

        def refv(x):
            R = S.eom(assemble(x), x[-1], h, Nt).reshape(nc, N)
            return ref.vec(R[:, ~flag])
        x = np.r_[free, w]
        return Form(name, x, np.r_[np.full(free.size, lev), w],
                    lambda x, g: vs.hbm_base_res(x, Ub, flag, h, **opt),
                    refv, lambda x: S.size(assemble(x), x[-1], h, Nt),
                    nograd=False, args=(Ub, flag, h), **kw)
    if name == 'amp':
        x = np.r_[U, float(rng.normal()), w]

        def refv(x):
            u1, u2 = c1(x)
            r = S.eom(x[:n], x[-1], h, Nt) - Sf - x[-2] * Df
            a = (x[-1] ** order * (recov @ u1)) ** 2 \
                + (x[-1] ** order * (recov @ u2)) ** 2 - amp ** 2
            return np.r_[r, a]
        return Form(name, x, np.r_[us, 1.0, w],
                    lambda x, g: vs.hbm_amp_control_res(
                        x, Fl, h, recov, amp, order, calc_grad=g, **opt),
                    refv, lambda x: size(x, x[-1], x[-2]) + x[-1] ** (
                        2 * order) * (np.abs(recov).sum()
                                      * np.abs(U).max()) ** 2 + amp ** 2,
                    args=(Fl, h, recov), order=order, **kw)
    if name in ('amp_phase', 'amp_phase_dA', 'vprnm_amp_phase'):
        cs = rng.normal(size=2)

        def hbm(x, w_, A):
            u1, u2 = c1(x)
            F = np.array(Sf)
            f1 = Fl[i1 * N:(i1 + 1) * N]
            F[i1 * N:(i1 + 1) * N] = x[n] * f1
            F[(i1 + 1) * N:(i1 + 2) * N] = x[n + 1] * f1
            r = S.eom(x[:n], w_, h, Nt) - F
            return np.r_[r, w_ ** order * (recov @ u1) - A,
                         w_ ** order * (recov @ u2)]

        def sz(x, w_):
            return size(x, w_, np.abs(x[n:n + 2]).max()) + w_ ** order \
                * np.abs(recov).sum() * np.abs(U).max() + amp
        if name == 'amp_phase':
            x = np.r_[U, cs, w]
            return Form(name, x, np.r_[us, 1, 1, w],
                        lambda x, g: vs.hbm_amp_phase_control_res(
                            x, Fl, h, recov, amp, order, calc_grad=g, **opt),
                        lambda x: hbm(x, x[-1], amp),
                        lambda x: sz(x, x[-1]), args=(Fl, h, recov),
                        order=order, **kw)
        if name == 'amp_phase_dA':
            x = np.r_[U, cs, amp]
            return Form(name, x, np.r_[us, 1, 1, 1],
                        lambda x, g: vs.hbm_amp_phase_control_dA_res(
                            x, Fl, h, recov, w, order, calc_grad=g, **opt),
                        lambda x: hbm(x, w, x[-1]), lambda x: sz(x, w),
                        args=(Fl, h, recov), order=order, **kw)
    if name == 'epmc':
        x = np.r_[U / lev, w, float(rng.normal() * 0.1),
                  float(np.log10(lev) + rng.uniform(-1, 0.3))]

        def scaled(x):
            A = 10.0 ** x[-1]
            V = ref.mat(x[:n], N, h)
            for j, (_, k) in enumerate(ref.comps(h)):
                if k:
                    V[j] *= A
            return ref.vec(V)

        def refv(x):
            u1, u2 = c1(x)
            r = S.eom(scaled(x), x[-3], h, Nt, x[-2]) - Sf
            return np.r_[r, u1 @ S.M @ u1 + u2 @ S.M @ u2 - 1.0, Df @ x[:n]]
        return Form(name, x, np.r_[np.ones(n), w, 0.1, 1.0],
                    lambda x, g: vs.epmc_res(x, Fl, h, calc_grad=g, **opt),
                    refv, lambda x: S.size(scaled(x), x[-3], h, Nt, x[-2])
                    + np.abs(Fl).max() + np.abs(Fl).sum() * np.abs(x[:n]).max()
                    + np.abs(S.M).sum() * np.abs(x[:n]).max() ** 2,
                    args=(Fl, h), **kw)
    # phase resonance
    rhi = int(rng.choice([k for k in h if k > 1]))
    phi = rng.normal(size=N) if rng.random() < 0.5 else None
    cscale = float(rng.uniform(0.1, 5)) if rng.random() < 0.6 else None
    vopt = dict(opt)
    if phi is not None:
        phi = gen.dress(rng, phi)
        vopt['superharmonic_filter'] = phi
    if cscale is not None:
        vopt['constraint_scale'] = cscale

    def single(U_, w_):
        return vprnm_ref(S, U_, w_, h, Nt, rhi, phi)
    sc = 1.0 if cscale is None else cscale
    kw.update(rhi=rhi, phi=phi, single=single, cscale=sc)
    if name == 'vprnm':
        x = np.r_[U, w, float(rng.normal())]
        return Form(name, x, np.r_[us, w, 1.0],
                    lambda x, g: vs.vprnm_res(x, h, rhi, Fl, calc_grad=g,
                                              **vopt),
                    lambda x: np.r_[S.eom(x[:n], x[-2], h, Nt) - Sf
                                    - x[-1] * Df, sc * single(x[:n], x[-2])],
                    lambda x: size(x, x[-2], x[-1]) + sc, args=(Fl, h, phi),
                    **kw)
    x = np.r_[U, cs, w, amp]
    return Form(name, x, np.r_[us, 1, 1, w, 1],
                lambda x, g: vs.vprnm_amp_phase_res(
                    x, Fl, h, rhi, recov, order, calc_grad=g, **vopt),
                lambda x: np.r_[hbm(x, x[-2], x[-1]),
                                sc * single(x[:n], x[-2])],
                lambda x: sz(x, x[-2]) + sc, args=(Fl, h, recov, phi),
                order=order, **kw)


def vprnm_ref(S, U, w, h, Nt, rhi, phi=None, parts=False):
    N = S.N
    V = ref.mat(U, N, h)
    for j, (_, k) in enumerate(ref.comps(h)):
        if k >= rhi:
            V[j] = 0
    F = -S.fnl(ref.vec(V), w, h, Nt)
    j = hindex(h, rhi)
    f = F.reshape(-1, N)[j:j + 2]
    x = ref.mat(U, N, h)[j:j + 2]
    if phi is not None:
        f = f @ phi
        x = x @ S.M.T @ phi if False else np.array([phi @ S.M @ q for q in x])
    f, x = f.ravel(), x.ravel()
    if parts:
        return f, x
    return float(f @ x) / (np.sqrt(f @ f) * np.sqrt(x @ x))
