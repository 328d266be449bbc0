"""Independent reference model (numpy, explicit loops, no repository code).

Conventions (from the documentation): a harmonic list h gives components
[const?] then cos, sin for every nonzero harmonic; a global harmonic vector has
all DOFs of one component together.
"""
import numpy as np


def comps(h):
    out = []
    for k in h:
        k = int(k)
        if k == 0:
            out.append(('c', 0))
        else:
            out.append(('c', k))
            out.append(('s', k))
    return out


def ncomp(h):
    return len(comps(h))


def basis(h, tau, order=0):
    """d^order/dtau^order of every component at phases tau (radians)."""
    tau = np.asarray(tau, float)
    B = np.zeros((tau.size, ncomp(h)))
    for j, (kind, k) in enumerate(comps(h)):
        if k == 0:
            B[:, j] = 1.0 if order == 0 else 0.0
            continue
        shift = order * np.pi / 2
        if kind == 'c':
            B[:, j] = float(k) ** order * np.cos(k * tau + shift)
        else:
            B[:, j] = float(k) ** order * np.sin(k * tau + shift)
    return B


def phases(Nt):
    return 2 * np.pi * np.arange(Nt) / Nt


def synth(h, X, Nt, order=0):
    return basis(h, phases(Nt), order) @ np.asarray(X, float)


def project(h, ft):
    """Discrete Fourier projection of samples over one cycle."""
    ft = np.asarray(ft, float)
    Nt = ft.shape[0]
    tau = phases(Nt)
    out = np.zeros((ncomp(h), ft.shape[1]))
    for j, (kind, k) in enumerate(comps(h)):
        if k == 0:
            out[j] = ft.sum(0) / Nt
        else:
            wgt = np.cos(k * tau) if kind == 'c' else np.sin(k * tau)
            out[j] = 2.0 / Nt * (wgt @ ft)
    return out


def mat(U, N, h):
    """Global harmonic vector -> (component, DOF) table."""
    U = np.asarray(U, float)
    n = ncomp(h)
    return np.array([[U[j * N + i] for i in range(N)] for j in range(n)])


def vec(A):
    return np.asarray(A, float).reshape(-1)      # component major


def stiff(M, C, K, w, h):
    N = K.shape[0]
    n = ncomp(h)
    E = np.zeros((n * N, n * N))
    cs = comps(h)
    for j, (kind, k) in enumerate(cs):
        r = slice(j * N, (j + 1) * N)
        if k == 0:
            E[r, r] = K
            continue
        E[r, r] = K - (k * w) ** 2 * M
        # d/dt of cos gives -k w sin, of sin gives k w cos
        other = j + 1 if kind == 'c' else j - 1
        o = slice(other * N, (other + 1) * N)
        if kind == 'c':
            E[r, o] = k * w * C         # cos equation, sin coefficient
        else:
            E[r, o] = -k * w * C        # sin equation, cos coefficient
    return E


def aft(Q, T, U, w, h, Nt, law):
    """law(u (Nt,n), v (Nt,n), U_loc (Nhc,n)) -> f (Nt,m)."""
    N = Q.shape[1]
    Uloc = mat(U, N, h) @ Q.T
    u = synth(h, Uloc, Nt, 0)
    v = w * synth(h, Uloc, Nt, 1)
    f = law(u, v, Uloc)
    F = project(h, f)
    return vec(F @ T.T), (Uloc, u, F, f)


# --------------------------------------------------------------- friction
def jenkins_path(u, kt, Fs, u0, f0=0.0):
    """Force along a displacement path (per column), start (u0, f0)."""
    u = np.asarray(u, float)
    f = np.zeros_like(u)
    up = np.array(u0, float) * np.ones(u.shape[1])
    fp = np.array(f0, float) * np.ones(u.shape[1])
    for i in range(u.shape[0]):
        t = fp + kt * (u[i] - up)
        fp = np.where(t > Fs, Fs, np.where(t < -Fs, -Fs, t))
        up = u[i]
        f[i] = fp
    return f


def steady(path_fn, u, ncyc=2):
    """Last of ncyc repeats of the cycle."""
    n = u.shape[0]
    return path_fn(np.vstack([u] * ncyc))[-n:]


class Iwan4:
    def __init__(self, kt, Fs, chi, beta, N, alpha):
        c = (chi + 1.0) / (chi + 2.0)
        self.pm = Fs * (1 + beta) / (kt * (beta + c))
        R = Fs * (chi + 1) / (self.pm ** (chi + 2) * (beta + c))
        S = (Fs / self.pm) * (beta / (beta + c))
        wid = np.ones(N) if alpha <= 1 else alpha ** np.arange(N)
        wid = wid / wid.sum() * self.pm
        edge = np.concatenate([[0.0], np.cumsum(wid)])
        mid = 0.5 * (edge[1:] + edge[:-1])
        self.phi = np.concatenate([mid, [self.pm]])
        self.wgt = np.concatenate([R * mid ** chi * wid, [S]])
        self.kt, self.Fs, self.chi, self.beta = kt, Fs, chi, beta

    def path(self, u, u0, x0=None):
        """u (n,) -> force (n,), final slider elongations."""
        x = np.zeros(self.phi.size) if x0 is None else np.array(x0, float)
        up = float(u0)
        f = np.zeros(len(u))
        for i, ui in enumerate(u):
            x = np.minimum(np.maximum(x + (float(ui) - up), -self.phi),
                           self.phi)
            up = float(ui)
            f[i] = float(np.dot(self.wgt, x))
        return f, x


def iwan_backbone(u, kt, Fs, chi, beta):
    """Monotonic (continuum) 4-parameter Iwan force."""
    u = np.asarray(u, float)
    c = (chi + 1.0) / (chi + 2.0)
    pm = Fs * (1 + beta) / (kt * (beta + c))
    a = np.abs(u)
    # F = int_0^a phi rho dphi + a int_a^pm rho dphi + S-part
    R = Fs * (chi + 1) / (pm ** (chi + 2) * (beta + c))
    S = (Fs / pm) * (beta / (beta + c))
    ac = np.minimum(a, pm)
    f = R * ac ** (chi + 2) / (chi + 2) \
        + ac * R * (pm ** (chi + 1) - ac ** (chi + 1)) / (chi + 1) + S * ac
    return np.where(a >= pm, Fs, f) * np.sign(u)


def eldry_path(u, ntan, kt, kn, mu, gap, u0, f0=0.0, coupled=None):
    """Elastic dry friction, columns in groups of ntan tangential + 1 normal.

    u0: starting tangential position (scalar or one per column of u)."""
    u = np.asarray(u, float)
    n = ntan + 1
    tcols = [j for j in range(u.shape[1]) if j % n != ntan]
    f = np.zeros_like(u)
    up = {}
    fp = {}
    u0 = np.asarray(u0, float) * np.ones(u.shape[1])
    f0 = np.asarray(f0, float) * np.ones(u.shape[1])
    for j in tcols:
        up[j], fp[j] = u0[j], f0[j]
    for i in range(u.shape[0]):
        for j in range(u.shape[1]):
            if j % n == ntan:
                f[i, j] = max(kn * (u[i, j] - gap), 0.0)
        for j in tcols:
            jn = (j // n) * n + ntan
            lim = mu * f[i, jn]
            t = fp[j] + kt * (u[i, j] - up[j])
            t = min(max(t, -lim), lim)
            f[i, j] = t
            fp[j], up[j] = t, u[i, j]
    return f


# ----------------------------------------------------------- rough contact
class Rough:
    """Elastic-plastic rough contact with asperity friction (numpy)."""

    def __init__(self, E, nu, R, Et, Sy, mu, meso, gaps, wts, model, nrad):
        self.E, self.nu, self.R, self.Et, self.Sy = E, nu, R, Et, Sy
        self.mu, self.meso = mu, meso
        self.gaps = np.asarray(gaps, float)
        self.wts = np.asarray(wts, float)
        self.Es = E / (2 * (1 - nu ** 2))
        self.Gs = E / (2 * (1 + nu)) / (2 * (2 - nu))
        self.C = 1.295 * np.exp(0.736 * nu)
        # yield displacement of sphere against flat, doubled for two spheres
        self.dy = 2 * (np.pi * self.C * Sy / (4 * self.Es)) ** 2 * 2 * R
        self.model = model
        self.rad = np.linspace(0, 1, nrad)
        w = 2 * np.ones(nrad)
        w[0] = w[-1] = 1
        self.radw = w / w.sum()
        r = self.rad
        with np.errstate(divide='ignore'):
            kt = 0.8709 + (1 - 0.8709) / np.sqrt(1 - r ** 2) + 0.0629 * r \
                - 0.8915 * r ** 2 + 0.6998 * r ** 3
        kt[~np.isfinite(kt)] = 0.0
        self.ktil = kt

    # normal laws for one asperity: (force, contact radius)
    def el(self, d):
        if d <= 0:
            return 0.0, 0.0
        return (4.0 / 3 * 2 * self.Es * np.sqrt(2 * self.R) * (d / 2) ** 1.5,
                np.sqrt(self.R * d))

    def pl(self, d):
        C, Sy, Es, R, E, Et = self.C, self.Sy, self.Es, self.R, self.E, self.Et
        x = d / self.dy
        ae = np.sqrt(R * d)
        B = 0.14 * np.exp(23 * Sy / (2 * Es))
        ap = 2 * R * (np.pi * C * Sy / (4 * Es)) \
            * np.sqrt(x * (x / 1.9) ** B)
        q = Et / E
        if q < np.finfo(float).eps:
            ups = 0.0
        else:
            s = np.sqrt(E / Sy)
            ups = -2 * s * q ** (1 - (d - self.dy) / 2 / (2 * R)) \
                / ((4 - 3 * np.exp(-2 * s * q)) * (1 - q))
        a = ae + (ap - ae) * np.exp(ups)
        H = 2.84 - 0.92 * (1 - np.cos(np.pi * a / (2 * R)))
        Fc = 4.0 / 3 * (R / Es) ** 2 * (C * np.pi * Sy / 2) ** 3
        Fe = 4.0 / 3 * 2 * Es * np.sqrt(2 * R) * (d / 2) ** 1.5
        Fp = Fc * (np.exp(-0.25 * x ** (5.0 / 12)) * x ** 1.5
                   + 4 * H / C * (1 - np.exp(-1 / 25 * x ** (5.0 / 9))) * x)
        f = Fp + (Fe - Fp) * (1 - np.exp(-3.3 * q))
        return f, a

    def un(self, d, dm, Fm):
        """Unloading from (dm, Fm) along a Hertz curve with residual depth."""
        Kh = 4.0 / 3 * self.Es
        if dm <= 0 or Fm <= 0:
            return 0.0, 0.0
        res = dm * (1 - Fm / (Kh * np.sqrt(self.R) * dm ** 1.5))
        if d - res <= 0:
            return 0.0, 0.0
        Rb = Fm ** 2 / (Kh ** 2 * (dm - res) ** 3)
        return Kh * np.sqrt(Rb) * (d - res) ** 1.5, np.sqrt(Rb * (d - res))

    def general(self, d, dm, Fm):
        lim = 1.9 * self.dy
        if d > dm and d > lim:
            return self.pl(d)
        if d < lim and dm < lim:
            return self.el(d)
        return self.un(d, dm, Fm)

    # tangential laws
    def tan(self, du, f0, fn, a):
        k = 8 * self.Gs * a
        lim = self.mu * fn
        return np.clip(k * du + f0, -lim, lim)

    def mif(self, du, tr0, rad0, fn, a):
        """Returns (asperity force(2), traction (nr,2), radii (nr))."""
        rad = a * self.rad
        t0 = np.stack([np.interp(rad, rad0, tr0[:, c], left=0.0, right=0.0)
                       for c in (0, 1)], 1)
        if fn > 0:
            kloc = 8 * self.Gs / (np.pi * a) * self.ktil
            tn = 1.5 * fn / (np.pi * a ** 2) * np.sqrt(1 - self.rad ** 2)
        else:
            kloc = np.zeros_like(self.rad)
            tn = np.zeros_like(self.rad)
        lim = (self.mu * tn)[:, None]
        tr = np.clip(kloc[:, None] * du[None, :] + t0, -lim, lim)
        f = 2 * np.pi * a ** 2 * (tr * self.rad[:, None]
                                  * self.radw[:, None]).sum(0)
        return f, tr, rad

    def init_state(self):
        n = self.gaps.size
        st = dict(um=0.0, Fm=np.zeros(n), u0=np.zeros(3))
        if self.model == 'TAN':
            st['f'] = np.zeros((n, 2))
        else:
            st['f'] = np.zeros((n, self.rad.size, 2))
            st['r'] = np.zeros((n, self.rad.size))
        return st

    def eval(self, u, st, normal):
        """One evaluation; returns force(3) and the would-be new state."""
        n = self.gaps.size
        du = np.asarray(u[:2]) - st['u0'][:2]
        F = np.zeros(3)
        new = dict(um=st['um'], Fm=np.array(st['Fm']), u0=np.array(u, float),
                   f=np.zeros_like(st['f']))
        if 'r' in st:
            new['r'] = np.zeros_like(st['r'])
        info = np.zeros((n, 2))
        for k in range(n):
            d = u[2] - self.meso - self.gaps[k]
            fn, a = normal(k, d)
            info[k] = fn, a
            if self.model == 'TAN':
                ft = self.tan(du, st['f'][k], fn, a)
                new['f'][k] = ft
            else:
                ft, new['f'][k], new['r'][k] = self.mif(
                    du, st['f'][k], st['r'][k], fn, a)
            F[2] += self.wts[k] * fn
            F[:2] += self.wts[k] * ft
        return F, new, info

    def static(self, u, st):
        def normal(k, d):
            return self.general(d, st['um'] - self.meso - self.gaps[k],
                                st['Fm'][k])
        F, new, info = self.eval(u, st, normal)
        new['Fm'] = np.maximum(info[:, 0], st['Fm'])
        new['um'] = max(float(u[2]), st['um'])
        return F, new, info

    def cycle(self, u, u0, repeats=2):
        """Harmonic analysis: normal unloading curve from the largest
        displacement of the cycle; friction starts at u0 with zero force."""
        n = self.gaps.size
        um = float(u[:, 2].max())
        dm = um - self.meso - self.gaps
        Fm = np.array([self.general(dm[k], -self.meso - self.gaps[k], 0.0)[0]
                       for k in range(n)])

        def normal(k, d):
            return self.un(d, dm[k], Fm[k])
        st = self.init_state()
        st['u0'] = np.array(u0, float)
        if 'r' in st:
            st['r'] = np.tile(self.rad, (n, 1))
        f = np.zeros_like(u)
        for _ in range(repeats):
            for i in range(u.shape[0]):
                f[i], st, _info = self.eval(u[i], st, normal)
        return f


# ------------------------------------------------------- finite differences
def directional(fun, x, d, eps):
    """Central and one-sided difference quotients of fun along d."""
    f0 = np.asarray(fun(x), float)
    fp = np.asarray(fun(x + eps * d), float)
    fm = np.asarray(fun(x - eps * d), float)
    return (fp - fm) / (2 * eps), (fp - f0) / eps, (f0 - fm) / eps
