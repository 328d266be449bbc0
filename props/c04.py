"""C04 Scalar hysteretic elements in harmonic analysis."""
import numpy as np
from vlib import elems, gen, ref
from vlib.run import Group, Skip

ID = 'C04'
RULE = ('random Jenkins / four-parameter Iwan elements in all implementations '
        'and random cycles (several harmonics, offsets, plateaus, stuck to '
        'full slip); forces are compared to an explicit slider model run to '
        'its steady state, and implementations are compared to each other')
ASSUMPTIONS = ['float64 arithmetic', 'force levels above the absolute cycle '
               'convergence tolerance of 1e-10', 'without a zeroth '
               'harmonic the start only shifts the (dropped) mean force']


def _ref(el, U, w, h, Nt):
    F, (Ul, u, Fh, f) = ref.aft(el.Q, el.T, U, w, h, Nt, el.law)
    return F, Ul, u, f


def _slip(el, f, u):
    lim = el.par['lim']
    if el.kind in ('iwan4', 'viwan4'):
        return 'full' if np.abs(f).max() >= lim * (1 - 1e-9) else 'partial'
    s = np.abs(np.abs(f) - lim) < 1e-9 * lim
    return 'stuck' if not s.any() else ('slip%d' % min(
        4, int((np.diff(s[:, 0].astype(int)) == 1).sum())))


def _local(ctx, rng, h):
    """Local motion with the reversals in awkward places."""
    style = rng.choice(['any', 'plateau', 'edge', 'mono'], p=[.6, .2, .1, .1])
    A = rng.normal(size=ref.ncomp(h))
    cs = ref.comps(h)
    if style == 'any':
        if rng.random() < 0.5:
            A = A / np.array([max(1, k) for _, k in cs]) ** 2
    else:
        k = int(rng.choice([k for k in h if k]))
        for j, (_, kk) in enumerate(cs):
            if kk not in (0, k):
                A[j] = 0
            elif kk and style == 'edge' and cs[j][0] == 's':
                A[j] = 0
    return style, A, cs


def single(ctx, kinds, pool=None):
    rng = ctx.rng
    kind = kinds[ctx.index % len(kinds)] if pool is None else \
        kinds[(ctx.index // pool) % len(kinds)]
    N = gen.dofs(rng, 3)
    lev, fs = gen.units(rng, flo=-3)
    if fs is None and rng.random() < .5:
        lev = 10.0 ** rng.uniform(-2, 2)
    el = elems.make(rng, kind, N, lev=lev, fs=fs)
    el.obj_kind = kind
    for rep in range(3):
        if pool is None:
            h = gen.harmonics(rng, kmax=int(rng.choice([3, 7])), nmax=4,
                              zero=rng.random() < 0.8)
            Nt = gen.samples(rng, h, hi=64)
        else:
            _, h, Nt = elems.pool(ctx.seed, 'C04', ctx.index % pool, zero=True,
                                  hi=40)
            if ctx.index % 2:
                h = h[1:]
        style, a, cs = _local(ctx, rng, h)
        if style == 'plateau':
            # extremum exactly midway between two samples
            k = max(int(k) for j, (_, k) in enumerate(cs) if a[j] and k)
            th = np.pi / Nt * k * rng.choice([1, 3])
            for j, (c, kk) in enumerate(cs):
                if kk == k:
                    a[j] = np.cos(th) if c == 'c' else np.sin(th)
        # a motion of the N DOFs whose local image is a
        q = el.Q[0]
        X = np.outer(a, q) / (q @ q) * lev
        P = rng.normal(size=X.shape)
        P = P - np.outer(P @ q, q) / (q @ q)
        U = ref.vec(X + P * lev)
        w = float(rng.uniform(0.1, 3))
        want, Ul, u, f = _ref(el, U, w, h, Nt)
        sc = max(np.abs(f).max(), 1e-3 * el.par['lim']) \
            * max(1.0, np.abs(el.T).max())
        sl = _slip(el, f, u)
        ctx.note(kind=kind, h=h, Nt=Nt, regime=sl, style=style)
        keep = U.copy()
        kw = {}
        if rng.random() < 0.3:
            kw['tol'] = 1e-7
        ntkw = gen.ntkw(rng, Nt)
        got = el.obj.aft(U, w, h, **kw, **ntkw)
        g1 = el.obj.aft(U, w, h, calc_grad=False, **ntkw)
        ctx.close(got[0], want, 'harmonic force of %s (%s, %s, h=%s, Nt=%d)'
                  % (kind, sl, style, h, Nt), rtol=1e-9, scale=sc)
        ctx.close(g1[0], want, 'harmonic force without gradient', rtol=1e-9,
                  scale=sc)
        ctx.check(np.array_equal(U, keep), 'arguments modified')
        ctx.cover(kind, sl, style)
        ctx.event('slip' if sl != 'stuck' else 'stuck')
    if kind in ('jenkins', 'jjenkins'):
        # prestress friction coefficient: no friction force at all
        el.obj.set_prestress_mu()
        z = el.obj.aft(U, w, h, Nt)[0]
        ctx.close(z, np.zeros_like(z), 'force with prestress friction',
                  atol=1e-12 * sc)
        el.obj.reset_real_mu()
        ctx.close(el.obj.aft(U, w, h, Nt)[0], want,
                  'force after resetting the friction', rtol=1e-9, scale=sc)


def numpy_kinds(ctx):
    single(ctx, elems.HYST)


def traced(ctx):
    single(ctx, ['jjenkins', 'jvjenkins'], pool=12)


def agree(ctx):
    """The four Jenkins and the two Iwan implementations, same parameters."""
    from tmdsimpy.nlforces.jenkins_element import JenkinsForce
    from tmdsimpy.nlforces.vector_jenkins import VectorJenkins
    from tmdsimpy.nlforces.iwan4_element import Iwan4Force
    from tmdsimpy.nlforces.vector_iwan4 import VectorIwan4
    import tmdsimpy.jax.nlforces.jenkins_element as jj
    import tmdsimpy.jax.nlforces.vector_jenkins as jv
    rng = ctx.rng
    N = 1
    Q, T = np.array([[1.0]]), np.array([[1.0]])
    prng, h, Nt = elems.pool(ctx.seed, 'C04a', ctx.index % 6, zero=True, hi=40)
    U = elems.motion(rng, N, h, style=rng.choice(['flat', 'decay', 'single']))
    kt = gen.logu(rng, .2, 5)
    Fs = kt * gen.logu(rng, .05, 2)
    chi, beta = float(rng.uniform(-.8, .5)), float(rng.uniform(0, 2))
    ns = int(rng.integers(3, 20))
    js = [JenkinsForce(Q, T, kt, Fs), VectorJenkins(Q, T, kt, Fs),
          jj.JenkinsForce(Q, T, kt, Fs, u0=None),
          jv.VectorJenkins(Q, T, kt, Fs, u0=None)]
    iw = [K(Q, T, kt, Fs, chi, beta, Nsliders=ns)
          for K in (Iwan4Force, VectorIwan4)]
    for grp in (js, iw):
        outs = [o.aft(U, 1.3, h, Nt) for o in grp]
        for o in outs[1:]:
            ctx.close(o[0], outs[0][0], 'implementations disagree on force',
                      rtol=1e-9, scale=Fs)
    ctx.cover('agree', ctx.index % 6)


def fading(ctx):
    """A user element with fading memory needs several cycles: cycles are
    repeated until the end of a cycle repeats, at most max_repeats times."""
    from tmdsimpy.nlforces.nonlinear_force import HystereticForce
    rng = ctx.rng
    N = gen.dofs(rng, 3)
    Q, T = gen.selector(rng, 1, N)
    k = gen.logu(rng, .2, 5)
    h = gen.harmonics(rng, kmax=5, nmax=3)
    nc = ref.ncomp(h)
    Nt = gen.samples(rng, h, hi=40)
    # memory left after one cycle
    a = (10.0 ** rng.uniform(-6, -.1)) ** (1.0 / Nt)

    class Fading(HystereticForce):
        calls = 0

        def __init__(self):
            super().__init__(Q, T)
            self.init_history()

        def init_history(self):
            self.up = self.fp = 0

        def init_history_harmonic(self, unlth0, h):
            self.up = unlth0 * 0.0
            self.fp = 0.0
            self.d = np.zeros(nc)
            self.cp = np.zeros(nc)

        def instant_force_harmonic(self, unl, unldot, h, cst,
                                   update_prev=False):
            Fading.calls += 1
            f = a * self.fp + k * (unl - self.up)
            self.d = a * self.d + k * (cst - self.cp)
            self.up, self.fp, self.cp = unl * 1.0, f * 1.0, cst * 1.0
            return f, self.d[None, None, :], np.zeros((1, 1, nc))

    el = Fading()
    U = elems.motion(rng, N, h, style='flat')
    w = float(rng.uniform(.1, 3))
    mr = int(rng.choice([1, 2, 3, 5, 20, 200]))
    kw = dict(max_repeats=mr)
    atol = rtol = 1e-10
    r = rng.random()
    if r < .4:
        kw['atol'] = atol = float(rng.choice([-1, 1e-12, 1e-6]))
    if rng.random() < .4:
        kw['rtol'] = rtol = float(rng.choice([-1, 1e-12, 1e-4]))
    Ul = ref.mat(U, N, h) @ Q.T
    u = ref.synth(h, Ul, Nt)[:, 0]
    f = np.zeros(Nt)
    fp = up = end = 0.0
    its, tight = 0, False
    while True:
        for i in range(Nt):
            fp = a * fp + k * (u[i] - up)
            up, f[i] = u[i], fp
        its += 1
        d = abs(fp - end)
        rel = d / abs(fp)
        tight |= abs(d - atol) < 1e-3 * atol or abs(rel - rtol) < 1e-3 * rtol
        end = fp
        if d <= atol or rel <= rtol or its >= mr:
            break
    if tight or abs(fp) < 1e-6:
        raise Skip('stopping undecided by rounding')
    F, J = el.aft(U, w, h, Nt, **kw)[:2]
    msg = 'h=%s Nt=%d memory %.2g %s' % (h, Nt, a ** Nt, kw)
    ctx.check(Fading.calls == its * Nt, '%.4g cycles instead of %d (%s)' % (
        Fading.calls / Nt, its, msg), what='cycles')
    want = ref.vec(ref.project(h, f[:, None]) @ T.T)
    ctx.close(F, want, 'force after %d cycles (%s)' % (its, msg), rtol=1e-9,
              scale=np.abs(f).max() * max(1., np.abs(T).max()))
    ctx.close(J @ U, F, 'derivative after %d cycles (%s)' % (its, msg),
              rtol=1e-9, scale=np.abs(f).max() * max(1., np.abs(T).max()))
    ctx.cover('fading', min(its, 6), mr)


def alone(ctx):
    rng = ctx.rng
    kinds = elems.HYST + ['jjenkins', 'jvjenkins']
    lev, fs = gen.units(rng, flo=-3)
    N = int(rng.integers(1, 4))
    el = elems.make(rng, kinds[ctx.index % len(kinds)], N, lev=lev,
                    fs=fs)
    elems.alone(ctx, el, rng.normal(size=N) * lev * 2, 8, scale=el.par['lim'])


GROUPS = {
    'numpy': Group(numpy_kinds, 940, 6000, {'check': 8, 'slip': 1.2}),
    'traced': Group(traced, 144, 3000, {'check': 8, 'slip': 0.8}),
    'fading': Group(fading, 720, 6000, {'cycles': .9}),
    'agree': Group(agree, 36, 600, {'check': 4}),
    'alone': Group(alone, 50, 300, {'check': 3}),
}
SHARDS = 6
