"""C24 Single-mode reduced models."""
import numpy as np
from scipy.linalg import eigh
from vlib import forms, gen, ref
from vlib.run import Group, Skip

ID = 'C24'
RULE = ('random backbones (amplitude dependent frequency, damping, complex '
        'shapes, higher harmonics, static parts) and forces in every '
        'documented input form, damping down to one millionth; every row must '
        'satisfy the complex modal equation, no root of a backbone point may '
        'be missing, order and phase as documented; linear modes inserted '
        'into the harmonic balance residual; constant displacement against '
        'the same equation and against the constant force model')
ASSUMPTIONS = ['float64 arithmetic', 'modal amplitude increasing along the '
               'backbone', 'points whose two roots coincide to rounding are '
               'not decided']


def smooth(rng, m, shape, lo=-1.0, hi=1.0, var=0.5):
    """Slowly varying random rows."""
    a = rng.uniform(lo, hi, shape)
    b = var * rng.uniform(-1, 1, shape) * (hi - lo) / 2
    t = np.linspace(0, 1, m).reshape((m,) + (1,) * len(shape))
    return a + b * t


def backbone(rng, m, N, h, constant=False):
    nc = ref.ncomp(h)
    v = 0.0 if constant else float(rng.choice([0.0, 0.3, 1.0]))
    U = smooth(rng, m, (nc * N,), var=v)
    w = smooth(rng, m, (), 0.5, 5.0, v * .2)
    z = 10.0 ** smooth(rng, m, (), -4, -.7, v * .3)
    if rng.random() < .2:
        z = z * 1e-2
    la = np.linspace(*np.sort(rng.uniform(-5, 3, 2)), m)
    return np.column_stack([U, w, 2 * w * z, la])


def product(bb, N, i1, Fc, Fs):
    phi = bb[:, i1 * N:(i1 + 1) * N] - 1j * bb[:, (i1 + 1) * N:(i1 + 2) * N]
    return phi.conj() @ (Fc - 1j * Fs)


def roots(w, z, f, q):
    """[(row, +1/-1, Omega)] with an exactness margin; raises Skip on ties."""
    out = []
    for k in range(len(w)):
        r = 4 * w[k] ** 4 * z[k] ** 4 + (abs(f[k]) / q[k] - 2 * w[k] ** 2
                                         * z[k]) * (abs(f[k]) / q[k] + 2
                                                    * w[k] ** 2 * z[k])
        s = 4 * w[k] ** 4 * z[k] ** 2 + (f[k].real / q[k]) ** 2 + (
            f[k].imag / q[k]) ** 2
        if abs(r) < 1e-11 * s:
            raise Skip('coinciding roots')
        if r < 0:
            continue
        p2 = w[k] ** 2 * (1 - 2 * z[k] ** 2)
        for sg in (1, -1):
            o = p2 + sg * np.sqrt(r)
            if abs(o) < 1e-9 * (w[k] ** 2 + np.sqrt(r)):
                raise Skip('root at zero frequency')
            if o > 0:
                out.append((k, sg, np.sqrt(o)))
    return out


def sequence(rs):
    """Lower branch upwards in amplitude, then upper branch downwards."""
    lo = [r for r in rs if r[1] < 0]
    hi = [r for r in rs if r[1] > 0]
    return sorted(lo) + sorted(hi, reverse=True)


def force(ctx):
    from tmdsimpy.roms import epmc
    rng = ctx.rng
    N = gen.dofs(rng, 3, huge=.012)
    h = gen.harmonics(rng, kmax=6, nmax=4, one=True)
    m = int(rng.choice([1, 2, 6, 25]))
    bb = backbone(rng, m, N, h)
    nc, i1 = ref.ncomp(h), forms.hindex(h, 1)
    q = 10.0 ** bb[:, -1]
    w, z = bb[:, -3].copy(), None
    kw = {}
    r = rng.random()
    if r < .2:
        kw['w'] = float(rng.uniform(.5, 5))
    elif r < .4:
        kw['w'] = rng.uniform(.5, 5, m)
    if 'w' in kw:
        w = kw['w'] * np.ones(m)
    z = bb[:, -2] / (2 * w)
    r = rng.random()
    if r < .2:
        kw['zeta'] = float(10.0 ** rng.uniform(-4, -.5))
    elif r < .4:
        kw['zeta'] = 10.0 ** rng.uniform(-4, -.5, m)
    if 'zeta' in kw:
        z = kw['zeta'] * np.ones(m)
    mode = ctx.index % 4
    k0 = int(rng.integers(m))
    target = 2 * q[k0] * w[k0] ** 2 * z[k0]     # force at phase resonance
    target *= float(rng.choice([1.0, 1.0, 1 + 1e-6, .9, 3., 30., 1e3,
                               1e5]))
    if mode < 2:
        Fl = rng.normal(size=nc * N)
        if rng.random() < .3:
            Fl[(i1 + 1) * N:(i1 + 2) * N] = 0
        Fc, Fs = Fl[i1 * N:(i1 + 1) * N], Fl[(i1 + 1) * N:(i1 + 2) * N]
        f = product(bb, N, i1, Fc, Fs)
        if abs(f[k0]) < 1e-6:
            raise Skip('orthogonal force')
        Fl *= target / abs(f[k0])
        f = product(bb, N, i1, Fc, Fs)
        kw['Fl'] = Fl
    elif mode == 2:
        th = rng.uniform(-np.pi, np.pi)
        f = target * np.exp(1j * th) * np.ones(m)
        kw.update(phiH_Fl_real=float(f[0].real), phiH_Fl_imag=float(
            f[0].imag))
        if rng.random() < .3:
            f = abs(f) + 0j
            kw.update(phiH_Fl_real=float(abs(f[0])), phiH_Fl_imag=0.0)
    else:
        f = target * (rng.normal(size=m) + 1j * rng.normal(size=m))
        kw.update(phiH_Fl_real=f.real.copy(), phiH_Fl_imag=f.imag.copy())
    want = sequence(roots(w, z, f, q))
    bb = gen.dress(rng, bb)
    kw = {k: gen.dress(rng, v) if isinstance(v, np.ndarray) else v
          for k, v in kw.items()}
    keep = bb.copy(), {k: (v.copy() if isinstance(v, np.ndarray) else v)
                       for k, v in kw.items()}
    out = epmc.constant_force(bb, N, h, **kw)
    ctx.check(len(out) == 3, 'number of results')
    X, qa, th = out
    msg = 'N=%d h=%s points=%d zeta %.2g..%.2g %s' % (
        N, h, m, z.min(), z.max(), sorted(kw))
    ctx.note(N=N, h=h, m=m, inputs=sorted(kw))
    ctx.check(np.array_equal(bb, keep[0]) and all(
        np.array_equal(kw[k], v) for k, v in keep[1].items()),
        'arguments modified')
    ctx.check(X.shape == (len(want), nc * N + 1) and qa.shape == (
        len(want),) and th.shape == (len(want),), '%d response points, the '
        'modal equation has %d (%s)' % (X.shape[0], len(want), msg),
        what='complete')
    for i, (k, sg, om) in enumerate(want):
        ctx.close(qa[i], q[k], 'amplitude of row %d (%s)' % (i, msg),
                  rtol=1e-12)
        o = X[i, -1]
        ctx.check(o > 0, 'frequency')
        ctx.close(o, om, 'frequency of row %d (%s)' % (i, msg),
                  rtol=1e-7)
        A = X[i, :-1].reshape(nc, N)
        B = bb[k, :-3].reshape(nc, N)
        # complex modal coordinate by its definition
        Q = q[k] * np.exp(-1j * th[i])
        res = (w[k] ** 2 - o * o + 2j * z[k] * w[k] * o) * Q - f[k]
        tol = 1e-9 * abs(f[k]) + 3e-13 * q[k] * w[k] ** 2
        ctx.check(abs(res) <= tol, 'modal equation at row %d: %.3g of %.3g '
                  '(%s)' % (i, abs(res), abs(f[k]), msg), what='equation')
        for j, (c, hh) in enumerate(ref.comps(h)):
            if hh == 0:
                ctx.close(A[j], B[j], 'static part of row %d (%s)' % (i, msg),
                          rtol=1e-13)
            elif c == 'c':
                z0 = (B[j] - 1j * B[j + 1]) * q[k] * np.exp(-1j * hh * th[i])
                z1 = A[j] - 1j * A[j + 1]
                ctx.close(np.r_[z1.real, z1.imag], np.r_[z0.real, z0.imag],
                          'motion of harmonic %d at row %d (%s)' % (
                              hh, i, msg), rtol=1e-11)
        ctx.event('row')
    if mode < 2 and len(want):
        # the force doubled and the amplitudes doubled: same frequencies
        b2 = bb.copy()
        b2[:, -1] += np.log10(2.0)
        kw['Fl'] = kw['Fl'] * 2
        Y, _, _ = epmc.constant_force(b2, N, h, **kw)
        if Y.shape == X.shape:
            ctx.close(Y[:, -1], X[:, -1], 'scaled problem (%s)' % msg,
                      rtol=1e-6)
    ctx.cover('force', mode, 'N%d' % N, 'm%d' % m, 'h0' if h[0] == 0 else
              'no0', len(want) > 0)


def refuse(ctx):
    from tmdsimpy.roms import epmc
    rng = ctx.rng
    h = np.array([0, 1])
    bb = backbone(rng, 3, 2, h)
    bad = [{}, {'Fl': np.ones(6), 'phiH_Fl_real': 1.0, 'phiH_Fl_imag': 0.0},
           {'phiH_Fl_real': 1.0}, {'phiH_Fl_imag': 1.0},
           {'Fl': np.ones(6), 'phiH_Fl_real': 1.0}][ctx.index % 5]
    try:
        epmc.constant_force(bb, 2, h, **bad)
    except AssertionError:
        ctx.event('refused')
    else:
        ctx.fail('inconsistent force input %s accepted' % sorted(bad))
    ctx.cover('refuse', ctx.index % 5)


def linear(ctx):
    """A mode driven by a force proportional to its inertia: every row is a
    solution of the full linear system."""
    from tmdsimpy.roms import epmc
    from tmdsimpy.vibration_system import VibrationSystem
    rng = ctx.rng
    N = gen.dofs(rng, 4)
    M, K, C, ab = gen.system(rng, N, 'ab')
    vs = VibrationSystem(M, K, ab=list(ab))
    h = gen.harmonics(rng, kmax=3, nmax=3, one=True)
    nc, i1 = ref.ncomp(h), forms.hindex(h, 1)
    lam, V = eigh(K, M)
    r = int(rng.integers(N))
    w, xi = np.sqrt(lam[r]), ab[0] + ab[1] * lam[r]
    al = rng.uniform(-np.pi, np.pi)
    m = int(rng.integers(2, 25))
    bb = np.zeros((m, nc * N + 3))
    A = bb[:, :-3].reshape(m, nc, N)
    A[:, i1], A[:, i1 + 1] = V[:, r] * np.cos(al), V[:, r] * np.sin(al)
    st = np.zeros(N)
    if h[0] == 0:
        st = rng.normal(size=N)
        A[:, 0] = st
    bb[:, -3], bb[:, -2] = w, xi
    bb[:, -1] = np.linspace(-3, 1, m)
    b = float(rng.uniform(-np.pi, np.pi))
    f = float(10.0 ** rng.uniform(-3, 1))
    F = np.zeros((nc, N))
    F[i1], F[i1 + 1] = M @ V[:, r] * f * np.cos(b), M @ V[:, r] * f * np.sin(b)
    if h[0] == 0:
        F[0] = K @ st
    X, q, th = epmc.constant_force(bb, N, h, Fl=ref.vec(F))
    Nt = gen.samples(rng, h, hi=24)
    for x, a in zip(X, q):
        R = vs.hbm_res(x, ref.vec(F), h, Nt=Nt)[0]
        sc = (a * np.abs(V[:, r]).max() + np.abs(st).max()) * (
            np.abs(K).sum() + x[-1] ** 2 * np.abs(M).sum())
        ctx.close(R, np.zeros(R.size), 'response of a linear mode does not '
                  'solve the system', rtol=0, atol=1e-9 * np.abs(F).max()
                  + 1e-12 * sc, what='root')
    # constant displacement of the same mode
    cp = rng.normal(size=N)
    amp = abs(cp @ V[:, r]) * 10.0 ** rng.uniform(-2.9, .9)
    if abs(cp @ V[:, r]) < 1e-3 or abs(V[:, r] @ M @ V[:, r] - 1) > 1e-6:
        raise Skip('node')
    Om = rng.uniform(0.1, 3, 7) * w
    Fc = M @ V[:, r] * float(rng.normal())
    g, pt = epmc.constant_displacement(bb, h, Fc, Om, cp, amp)
    ctx.check(np.shape(g) == (7,) and pt.shape == (nc * N + 3,),
              'shape of the constant displacement model')
    for o, gg in zip(Om, g):
        D = K - o * o * M + 1j * o * C
        u = np.linalg.solve(D, Fc * gg)
        ctx.close(abs(cp @ u), amp, 'amplitude under the force of the constant '
                  'displacement model at %.3g w0' % (o / w), rtol=1e-8,
                  what='disp')
    ctx.check(np.all(g >= 0), 'negative force magnitude')
    ctx.cover('linear', 'N%d' % N, 'r%d' % r, 'h0' if h[0] == 0 else 'no0')


def displacement(ctx):
    from tmdsimpy.roms import epmc
    rng = ctx.rng
    N = gen.dofs(rng, 3, huge=.012)
    h = gen.harmonics(rng, kmax=6, nmax=4, one=True)
    m = int(rng.choice([2, 3, 8, 30]))
    bb = backbone(rng, m, N, h, constant=rng.random() < .4)
    nc, i1 = ref.ncomp(h), forms.hindex(h, 1)
    cp = rng.normal(size=N)
    q = 10.0 ** bb[:, -1]
    a = np.hypot(bb[:, i1 * N:(i1 + 1) * N] @ cp,
                 bb[:, (i1 + 1) * N:(i1 + 2) * N] @ cp) * q
    if np.any(np.diff(a) <= 1e-9 * a.max()):
        raise Skip('amplitude not increasing')
    kw = {}
    col = np.column_stack([bb[:, :-1], q])
    r = rng.random()
    if r < .3:
        kw['w'] = float(rng.uniform(.5, 5)) if r < .15 else rng.uniform(
            .5, 5, m)
        col[:, -3] = kw['w']
    r = rng.random()
    if r < .3:
        kw['zeta'] = float(10.0 ** rng.uniform(-4, -.5)) if r < .15 else \
            10.0 ** rng.uniform(-4, -.5, m)
        col[:, -2] = 2 * col[:, -3] * kw['zeta']
    r = rng.random()
    node = r < .3
    if node:
        k = int(rng.integers(m))
        amp = float(np.clip(a[k], a[0] * (1 + 1e-12), a[-1] * (1 - 1e-12)))
    else:
        amp = float(rng.uniform(a[0], a[-1]))
    Fc = rng.normal(size=N) * 10.0 ** rng.uniform(-2, 2)
    Om = rng.uniform(.1, 8, int(rng.integers(1, 9)))
    if rng.random() < .3:
        Om[0] = col[0, -3]
    bb, Fc, Om, cp = (gen.dress(rng, a) for a in (bb, Fc, Om, cp))
    keep = bb.copy(), Fc.copy(), Om.copy(), cp.copy()
    f, pt = epmc.constant_displacement(bb, h, Fc, Om, cp, amp, **kw)
    ctx.check(all(np.array_equal(x, y) for x, y in zip(
        keep, (bb, Fc, Om, cp))), 'arguments modified')
    msg = 'N=%d h=%s points=%d %s' % (N, h, m, sorted(kw))
    ctx.note(N=N, h=h, m=m, inputs=sorted(kw))
    want = np.array([np.interp(amp, a, col[:, j])
                     for j in range(col.shape[1])])
    ctx.check(pt.shape == want.shape, 'shape of the interpolated point')
    ctx.close(10.0 ** pt[-1], want[-1], 'modal amplitude (%s)' % msg,
              rtol=1e-10)
    ctx.close(pt[:-1], want[:-1], 'interpolated point (%s)' % msg, rtol=1e-10)
    ctx.check(f.shape == Om.shape, 'shape of the forces')
    w, z, qq = want[-3], want[-2] / (2 * want[-3]), want[-1]
    phi = want[i1 * N:(i1 + 1) * N] - 1j * want[(i1 + 1) * N:(i1 + 2) * N]
    pf = abs(phi.conj() @ Fc)
    if pf < 1e-9 * np.abs(Fc).max():
        raise Skip('orthogonal force')
    ref_f = qq * np.abs((w - Om) * (w + Om) + 2j * z * w * Om) / pf
    ctx.close(f, ref_f, 'force magnitude (%s)' % msg, rtol=1e-9,
              what='disp')
    if node or np.ptp(bb[:, :-3], axis=0).max() == 0:
        u = (pt[i1 * N:(i1 + 1) * N] - 1j * pt[(i1 + 1) * N:(i1 + 2) * N])
        ctx.close(abs(cp @ u) * 10.0 ** pt[-1], amp, 'amplitude of the '
                  'control point (%s)' % msg, rtol=1e-9)
    # beyond the backbone nothing is invented
    g, p2 = epmc.constant_displacement(bb, h, Fc, Om, cp, a[-1] * 1.01 if
                                       rng.random() < .5 else a[0] * .99)
    ctx.check(np.all(np.isnan(g)) and np.all(np.isnan(p2)), 'values outside '
              'of the backbone', what='outside')
    ctx.cover('disp', node, 'N%d' % N, 'm%d' % m, 'h0' if h[0] == 0 else
              'no0')


def inverse(ctx):
    """Constant displacement at the amplitude of a constant force response
    gives back that force."""
    from tmdsimpy.roms import epmc
    rng = ctx.rng
    N = gen.dofs(rng, 3, huge=.012)
    h = gen.harmonics(rng, kmax=4, nmax=3, one=True)
    m = int(rng.integers(3, 12))
    bb = backbone(rng, m, N, h)
    nc, i1 = ref.ncomp(h), forms.hindex(h, 1)
    cp = rng.normal(size=N)
    q = 10.0 ** bb[:, -1]
    a = np.hypot(bb[:, i1 * N:(i1 + 1) * N] @ cp,
                 bb[:, (i1 + 1) * N:(i1 + 2) * N] @ cp) * q
    if np.any(np.diff(a) <= 1e-9 * a.max()):
        raise Skip('amplitude not increasing')
    Fc = rng.normal(size=N)
    Fl = np.zeros(nc * N)
    k = int(rng.integers(m))
    f = abs(product(bb, N, i1, Fc, 0 * Fc))
    w, z = bb[:, -3], bb[:, -2] / (2 * bb[:, -3])
    s = 2 * q[k] * w[k] ** 2 * z[k] / f[k] * rng.uniform(1.0, 20)
    Fl[i1 * N:(i1 + 1) * N] = s * Fc
    X, qa, th = epmc.constant_force(bb, N, h, Fl=Fl)
    for x in X:
        u = np.hypot(x[i1 * N:(i1 + 1) * N] @ cp,
                     x[(i1 + 1) * N:(i1 + 2) * N] @ cp)
        u = float(np.clip(u, a[0] * (1 + 1e-12), a[-1] * (1 - 1e-12)))
        g, pt = epmc.constant_displacement(bb, h, Fc, x[-1:], cp, u)
        kk = int(np.argmin(np.abs(a - u)))
        ctx.close(g[0], s, 'force of the constant displacement model',
                  rtol=1e-6, atol=1e-10 * q[kk] * w[kk] ** 2 / f[kk],
                  what='inverse')
    ctx.cover('inverse', 'N%d' % N, min(len(X), 4))


GROUPS = {
    'force': Group(force, 1800, 40000, {'row': 1.5, 'equation': 1.5,
                                       'complete': 0.5}),
    'refuse': Group(refuse, 20, 100, {'refused': 0.9}),
    'linear': Group(linear, 720, 4000, {'root': 2, 'disp': 3}),
    'displacement': Group(displacement, 1440, 20000, {'disp': 0.3,
                                                     'outside': 0.3}),
    'inverse': Group(inverse, 960, 8000, {'inverse': 0.7}),
}
SHARDS = 4
