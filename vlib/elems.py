"""Random nonlinear elements together with independent laws.

Only constructors and the documented methods of the elements are used.
Elem.law(u, v, Uloc) is the local force over one (steady) cycle.
"""
import numpy as np
from . import gen, ref


class Elem:
    def __init__(self, kind, obj, Q, T, law, hyst=False, **kw):
        self.kind, self.obj, self.Q, self.T, self.law = kind, obj, Q, T, law
        self.hyst = hyst
        self.par = kw

    def aft_ref(self, U, w, h, Nt):
        return ref.aft(self.Q, self.T, U, w, h, Nt, self.law)[0]


INST = ['cubic', 'quintic', 'cubdamp', 'poly', 'uni', 'iwanbb']
SMOOTH = ['cubic', 'quintic', 'cubdamp', 'poly']
HYST = ['jenkins', 'vjenkins', 'iwan4', 'viwan4']
JAX = ['jjenkins', 'jvjenkins', 'eldry2', 'eldry3']


def _coef(rng, m, lo, hi, sign=False):
    """scalar or one per local coordinate"""
    c = np.exp(rng.uniform(np.log(lo), np.log(hi), m))
    if sign:
        c = c * rng.choice([-1.0, 1.0], m)
    return float(c[0]) if rng.random() < 0.4 else c


def make(rng, kind, N, m=None, lev=1.0, Q=None, T=None, u0mode=None,
         fs=None):
    """Random element of a kind on N DOFs; lev is the expected size of the
    local displacement (friction limits are placed around it). With a force
    level fs all coefficients are given in the units of lev and fs."""
    unit = (lambda d: 1.0) if fs is None else (lambda d: fs / lev ** d)
    if kind in ('jenkins', 'vjenkins', 'iwan4', 'viwan4', 'jjenkins',
                'jvjenkins'):
        m = 1
    if kind == 'eldry2':
        m = 2 * (m or int(rng.integers(1, 3)))
    elif kind == 'eldry3':
        m = 3 * (m or int(rng.integers(1, 3)))
    elif m is None:
        m = int(rng.integers(1, 4))
    if Q is None:
        Q, T = gen.selector(rng, m, N)
    m = Q.shape[0]

    if kind == 'cubic':
        from tmdsimpy.nlforces.cubic_stiffness import CubicForce
        k = _coef(rng, m, 0.05, 5.0, True) * unit(3)
        return Elem(kind, CubicForce(Q, T, k), Q, T,
                    lambda u, v, U: k * u * u * u, k=k)
    if kind == 'quintic':
        from tmdsimpy.nlforces.quintic_stiffness import QuinticForce
        k = _coef(rng, m, 0.05, 5.0, True) * unit(5)
        return Elem(kind, QuinticForce(Q, T, k), Q, T,
                    lambda u, v, U: k * u * u * u * u * u, k=k)
    if kind == 'cubdamp':
        from tmdsimpy.nlforces.cubic_damping import CubicDamping
        k = _coef(rng, m, 0.05, 5.0) * unit(3)
        return Elem(kind, CubicDamping(Q, T, k), Q, T,
                    lambda u, v, U: k * v * v * v, k=k, vel=True)
    if kind == 'poly':
        from tmdsimpy.nlforces.general_poly_stiffness import GenPolyForce
        nt = int(rng.integers(1, 6))
        qq = rng.integers(0, 4, size=(nt, m))
        if rng.random() < 0.5:
            qq = qq.astype(float)
        E = rng.normal(size=(m, nt)) * [unit(d) for d in qq.sum(1)]

        def law(u, v, U):
            f = np.zeros_like(u)
            for a in range(m):
                for t in range(nt):
                    p = np.full(u.shape[0], E[a, t])
                    for b in range(m):
                        for _ in range(int(qq[t, b])):
                            p = p * u[:, b]
                    f[:, a] += p
            return f

        def bound(u):
            """sum of the magnitudes of all terms, largest row"""
            return float((np.abs(E) @ np.prod(np.asarray(u, float)[None, :]
                                              ** qq, 1)).max())
        return Elem(kind, GenPolyForce(Q, T, E, qq), Q, T, law, bound=bound)
    if kind == 'uni':
        from tmdsimpy.nlforces.unilateral_spring import UnilateralSpring
        k = _coef(rng, m, 0.1, 5.0) * unit(1)
        pre = _coef(rng, m, 0.05, 2.0) * unit(0) if rng.random() < 0.6 else 0
        if fs is not None and rng.random() < 0.15:
            pre = -pre
        d = lev * rng.uniform(-1, 1) if rng.random() < 0.5 else \
            lev * rng.uniform(-1, 1, m)
        if rng.random() < 0.2:
            d = 0
        kw = dict(Npreload=pre, delta=d)
        if np.ndim(pre) == 0 and pre == 0 and rng.random() < 0.5:
            kw.pop('Npreload')

        def law(u, v, U):
            return np.where(u > d, k * (u - d), 0.0) - pre
        return Elem(kind, UnilateralSpring(Q, T, k, **kw), Q, T, law,
                    kinks=np.broadcast_to(np.asarray(d, float), (m,)))
    if kind == 'iwanbb':
        from tmdsimpy.nlforces.iwan_bb_conserve import ConservativeIwanBB
        kt, Fs, chi, beta = _iwan_par(rng, lev, unit(1))
        return Elem(kind, ConservativeIwanBB(Q, T, kt, Fs, chi, beta), Q, T,
                    lambda u, v, U: ref.iwan_backbone(u, kt, Fs, chi, beta),
                    kt=kt, Fs=Fs, chi=chi, beta=beta)
    if kind in ('jenkins', 'vjenkins', 'jjenkins', 'jvjenkins'):
        kt = gen.logu(rng, 0.2, 5) * unit(1)
        Fs = kt * lev * gen.logu(rng, 0.05, 3)
        u0 = 0
        kw = {}
        if kind[0] == 'j' and kind != 'jenkins':
            mode = u0mode or rng.choice(['default', 'scalar', 'none'])
            if mode == 'scalar':
                u0 = kw['u0'] = float(rng.normal() * lev)
            elif mode == 'none':
                u0 = kw['u0'] = None
        else:
            u0 = None
        if kind == 'jenkins':
            from tmdsimpy.nlforces.jenkins_element import JenkinsForce as K
        elif kind == 'vjenkins':
            from tmdsimpy.nlforces.vector_jenkins import VectorJenkins as K
        elif kind == 'jjenkins':
            from tmdsimpy.jax.nlforces.jenkins_element import \
                JenkinsForce as K
        else:
            from tmdsimpy.jax.nlforces.vector_jenkins import \
                VectorJenkins as K

        def law(u, v, U, Fs_=None):
            st = U[0] if u0 is None else u0
            return ref.jenkins_path(np.vstack([u] * 3), kt,
                                    Fs if Fs_ is None else Fs_,
                                    st)[-u.shape[0]:]
        return Elem(kind, K(Q, T, kt, Fs, **kw), Q, T, law, True, kt=kt,
                    Fs=Fs, u0=u0, lim=Fs)
    if kind in ('iwan4', 'viwan4'):
        kt, Fs, chi, beta = _iwan_par(rng, lev, unit(1))
        ns = int(rng.integers(3, 30))
        al = 1.0 if rng.random() < 0.6 else float(rng.uniform(1.02, 1.4))
        if kind == 'iwan4':
            from tmdsimpy.nlforces.iwan4_element import Iwan4Force as K
        else:
            from tmdsimpy.nlforces.vector_iwan4 import VectorIwan4 as K
        model = ref.Iwan4(kt, Fs, chi, beta, ns, al)

        def law(u, v, U):
            f, _ = model.path(np.concatenate([u[:, 0]] * 3), U[0, 0])
            return f[-u.shape[0]:, None]
        return Elem(kind, K(Q, T, kt, Fs, chi, beta, Nsliders=ns,
                            alphasliders=al), Q, T, law, True, model=model,
                    lim=float(model.wgt @ model.phi))
    if kind in ('eldry2', 'eldry3'):
        nt = 1 if kind == 'eldry2' else 2
        kt = gen.logu(rng, 0.2, 5) * unit(1)
        kn = gen.logu(rng, 0.2, 5) * unit(1)
        mu = gen.logu(rng, 0.05, 1.5)
        gap = float(rng.normal() * lev) if rng.random() < 0.6 else 0
        mode = u0mode or rng.choice(['default', 'scalar', 'array', 'none'])
        kw, u0 = {}, 0
        if mode == 'scalar':
            u0 = kw['u0'] = float(rng.normal() * lev)
        elif mode == 'array':
            u0 = kw['u0'] = rng.normal(size=m) * lev
        elif mode == 'none':
            u0 = kw['u0'] = None
        if gap != 0:
            kw['meso_gap'] = gap
        if kind == 'eldry2':
            from tmdsimpy.jax.nlforces.elastic_dry_fric_2d import \
                ElasticDryFriction2D as K
        else:
            from tmdsimpy.jax.nlforces.elastic_dry_fric_3d import \
                ElasticDryFriction3D as K
        qt = (Q.tolist(), T.tolist()) if rng.random() < .08 else (Q, T)
        el = Elem(kind, K(*qt, kt, kn, mu, **kw), Q, T, None, True, kt=kt,
                  kn=kn, mu=mu, gap=gap, u0=u0, nt=nt, mode=str(mode))

        def law(u, v, U):
            p = el.par
            st = U[0] if p['u0'] is None else p['u0']
            return ref.eldry_path(np.vstack([u] * 3), nt, kt, kn, p['mu'],
                                  gap, st)[-u.shape[0]:]
        el.law = law
        return el
    raise KeyError(kind)


def _iwan_par(rng, lev, ku):
    kt = gen.logu(rng, 0.2, 5) * ku
    chi = float(rng.uniform(-0.8, 1.0))
    beta = float(rng.choice([0.0, rng.uniform(0.01, 3)]))
    # macroslip displacement around lev
    Fs = kt * lev * gen.logu(rng, 0.05, 2)
    return kt, Fs, chi, beta


def motion(rng, N, h, lev=1.0, style=None):
    """Harmonic vector of a motion; several qualitatively different ones."""
    A = rng.normal(size=(ref.ncomp(h), N))
    style = style or rng.choice(['flat', 'decay', 'single', 'offset', 'rest'],
                                p=[.4, .3, .15, .1, .05])
    cs = ref.comps(h)
    for j, (_, k) in enumerate(cs):
        if style == 'decay' and k:
            A[j] /= k ** 2
        if style == 'offset' and k == 0:
            A[j] *= 5
    if style == 'single':
        keep = int(rng.choice([k for k in h if k or len(h) == 1]))
        for j, (_, k) in enumerate(cs):
            if k not in (0, keep):
                A[j] = 0
            elif rng.random() < 0.3 and k:
                A[j] = 0
    if style == 'rest':
        for j, (_, k) in enumerate(cs):
            if k:
                A[j] = 0
    return gen.dress(rng, ref.vec(A) * lev)


def pool(seed, tag, pos, nmax=4, kmax=5, zero=None, npow=None, hi=48):
    """Deterministic (h, Nt) configuration for traced code (compile cost)."""
    import zlib
    rng = np.random.default_rng([seed & 0xffffffff, zlib.crc32(tag.encode()),
                                 pos])
    h = gen.harmonics(rng, kmax=kmax, nmax=nmax, zero=zero, wide=0)
    Nt = gen.samples(rng, h, hi=hi, wide=0)
    return rng, h, Nt


# ------------------------------------------------------------ rough contact
def rough_material(prng):
    """Material and discretization (static arguments of the traced code)."""
    E = 10.0 ** prng.uniform(10, 11.5)
    Sy = E * 10.0 ** prng.uniform(-3.3, -2.3)
    Et = float(prng.choice([0.0, E * 10.0 ** prng.uniform(-3, -0.5)]))
    model = str(prng.choice(['TAN', 'MIF']))
    return dict(E=float(E), nu=float(prng.uniform(0.05, 0.45)),
                R=float(10.0 ** prng.uniform(-4, -2)), Et=Et, Sy=float(Sy),
                model=model, nrad=int(prng.integers(5, 20)),
                nasp=int(prng.integers(1, 5)))


def make_rough(rng, mat, N, u0mode=None, Q=None, T=None, lower=False):
    from tmdsimpy.jax.nlforces.roughcontact.rough_contact import \
        RoughContactFriction
    if Q is None:
        Q, T = gen.selector(rng, 3, N)
    n = mat['nasp']
    probe = ref.Rough(mat['E'], mat['nu'], mat['R'], mat['Et'], mat['Sy'],
                      0.1, 0, [0], [1], mat['model'], mat['nrad'])
    lev = probe.dy * 10.0 ** rng.uniform(-0.5, 2)
    mu = gen.logu(rng, 0.02, 2)
    gaps = np.sort(rng.uniform(0, 1.5 * lev, n))
    if rng.random() < 0.5:
        gaps[0] = 0
    wts = rng.uniform(0.1, 2, n)
    meso = float(rng.normal() * 0.3 * lev) if rng.random() < 0.5 else 0
    if rng.random() < .2:
        meso = -float(rng.uniform(.3, 2)) * lev
    kw = dict(gaps=gaps, gap_weights=wts)
    if meso:
        kw['meso_gap'] = meso
    if mat['model'] == 'MIF' or rng.random() < 0.5:
        kw['tangent_model'] = mat['model'].lower() if rng.random() < 0.3 \
            else mat['model']
    if mat['model'] == 'MIF':
        kw['N_radial_quad'] = mat['nrad']
    mode = u0mode or rng.choice(['default', 'scalar', 'two', 'three'])
    u0 = np.zeros(3)
    if mode == 'scalar':
        kw['u0'] = float(rng.normal() * lev)
        u0[:2] = kw['u0']
    elif mode == 'two':
        kw['u0'] = rng.normal(size=2) * lev
        u0[:2] = kw['u0']
    elif mode == 'three':
        kw['u0'] = rng.normal(size=3) * lev
        u0[:] = kw['u0']
    qt = (Q.tolist(), T.tolist()) if rng.random() < .08 else (Q, T)
    obj = RoughContactFriction(*qt, mat['E'], mat['nu'], mat['R'], mat['Et'],
                               mat['Sy'], mu, **kw)
    model = ref.Rough(mat['E'], mat['nu'], mat['R'], mat['Et'], mat['Sy'], mu,
                      meso, gaps, wts, mat['model'], mat['nrad'])
    el = Elem('rough' + mat['model'], obj, Q, T, None, True, model=model,
              u0=u0, mode=str(mode), lev=lev, mu=mu)
    el.law = lambda u, v, U: model.cycle(u, el.par['u0'], 2)
    return el


def rough_motion(rng, el, h, N):
    """Contacting / separating / sliding motion of an N-DOF system, given
    through its local image when the map allows that."""
    lev, meso = el.par['lev'], el.par['model'].meso
    A = rng.normal(size=(ref.ncomp(h), 3)) \
        / np.array([max(1, k) for _, k in ref.comps(h)])[:, None] ** 1.5
    A[:, :2] *= rng.choice([0.01, 0.1, 1.0])
    if h[0] == 0:
        A[0, 2] = abs(A[0, 2]) + rng.choice([0, 1, 3])
        if meso < 0 and rng.random() < .5:
            # contact although the normal displacement is always negative
            A[1:, 2] *= abs(meso) / lev / 20
            A[0, 2] = rng.uniform(.2, .8) * meso / lev
    return gen.dress(rng, ref.vec((A * lev) @ np.linalg.pinv(el.Q).T))


def alone(ctx, el, U, Nt, rtol=1e-9, scale=None):
    """The zeroth harmonic as the only harmonic: static harmonic force, and
    the same as with an additional harmonic of zero amplitude."""
    rng = ctx.rng
    N = el.Q.shape[1]
    h = np.array([0])
    w = float(rng.uniform(.1, 3))
    want, (Ul, u, Fh, f) = ref.aft(el.Q, el.T, U, w, h, Nt, el.law)
    sc = max(np.abs(f).max(), scale or 1e-12) * max(
        1.0, np.abs(el.T).max()) * el.Q.shape[0]
    got = el.obj.aft(U, w, h, Nt)
    ctx.close(got[0], want, 'harmonic force of %s with the zeroth harmonic '
              'alone' % el.kind, rtol=rtol, scale=sc)
    ctx.check(np.shape(got[1]) == (N, N) and np.shape(got[2]) == (N,),
              'shapes of the derivatives with the zeroth harmonic alone')
    more = el.obj.aft(np.r_[U, np.zeros(2 * N)], w, np.array([0, 1]), Nt)
    js = np.abs(np.asarray(more[1])).max() + 1e-300
    ctx.close(got[1], np.asarray(more[1])[:N, :N], 'derivative of %s with the '
              'zeroth harmonic alone' % el.kind, rtol=1e-9, scale=js)
    ctx.cover('alone', el.kind)
