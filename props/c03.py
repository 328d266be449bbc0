"""C03 Harmonic forces of instantaneous elements."""
import numpy as np
from vlib import elems, gen, ref
from vlib.run import Group

ID = 'C03'
RULE = ('random element of each of the six instantaneous types with random '
        'maps and parameters, random harmonic lists and sample counts, '
        'sequences of evaluations on the same object; forces are compared '
        'to explicit projections of independent time-domain laws')
ASSUMPTIONS = ['float64 arithmetic']


def _scale(el, h, U, w, Nt):
    """Bound of the local force along the motion (absolute sums)."""
    N = el.Q.shape[1]
    Ul = ref.mat(U, N, h) @ el.Q.T
    u = ref.synth(h, Ul, Nt, 0)
    v = w * ref.synth(h, Ul, Nt, 1)
    f = el.law(u, v, Ul)
    return u, v, Ul, f


def aft(ctx):
    rng = ctx.rng
    kind = elems.INST[ctx.index % len(elems.INST)]
    N = gen.dofs(rng, 5, huge=.012)
    lev, fs = gen.units(rng)
    el = elems.make(rng, kind, N, lev=lev, fs=fs)
    fs = fs or 1.0
    ctx.note(kind=kind, N=N, m=el.Q.shape[0], lev=lev, fs=fs)
    snap = gen.fingerprint(el.obj)
    for rep in range(3):
        h = gen.harmonics(rng, kmax=int(rng.choice([3, 7])), nmax=4)
        Nt = gen.samples(rng, h)
        U = elems.motion(rng, N, h, lev=lev)
        if rng.random() < 0.06:             # at rest, or one side at rest
            U = U * (0.0 if rng.random() < 0.5 else
                     np.tile(rng.integers(0, 2, N), ref.ncomp(h)))
        w = float(rng.choice([0.0, rng.uniform(0.05, 5),
                              10.0 ** rng.uniform(-4, 3)]))
        keep = U.copy(), h.copy()
        u, v, Ul, f = _scale(el, h, U, w, Nt)
        want = ref.vec(ref.project(h, f) @ el.T.T)
        usc = el.par['bound'](np.abs(Ul).sum(0)) if kind == 'poly' else 0
        sc = (np.abs(f).max() + usc) \
            * max(1.0, np.abs(el.T).max()) * el.Q.shape[0]
        got = el.obj.aft(U, w, h, Nt, 1e-7)
        ctx.check(isinstance(got, tuple), 'harmonic force is not a tuple')
        ctx.close(got[0], want, 'harmonic force of %s, h=%s Nt=%d'
                  % (kind, h, Nt), rtol=1e-10, scale=sc, atol=1e-13 * fs)
        g1 = el.obj.aft(U, w, h, Nt=Nt, calc_grad=False)
        ctx.close(g1[0], got[0], 'force without gradient', rtol=1e-13,
                  scale=sc, atol=1e-14 * fs)
        ctx.close(el.obj.local_force_history(u, v)[0], f,
                  'local force history of %s' % kind, rtol=1e-10, scale=sc,
                  atol=1e-13 * fs)
        ctx.check(np.array_equal(U, keep[0]) and np.array_equal(h, keep[1]),
                  'arguments modified')
        ctx.cover(kind, 'h0' if h[0] == 0 else 'no0', 'w0' if w == 0 else 'w',
                  'm%d' % el.Q.shape[0])
    # default sample count
    got = el.obj.aft(U, w, h)
    ref128 = el.aft_ref(U, w, h, 128)
    u, v, Ul, f = _scale(el, h, U, w, 128)
    usc = el.par['bound'](np.abs(Ul).sum(0)) if kind == 'poly' else 0
    sc = (np.abs(f).max() + usc) \
        * max(1.0, np.abs(el.T).max()) * el.Q.shape[0]
    ctx.close(got[0], ref128, 'default sample count', rtol=1e-10, scale=sc,
              atol=1e-13 * fs)
    ctx.check(not gen.diff(snap, gen.fingerprint(el.obj)),
              'evaluation changed the element')


def static(ctx):
    rng = ctx.rng
    kind = elems.INST[ctx.index % len(elems.INST)]
    N = gen.dofs(rng, 5, huge=.012)
    lev, fs = gen.units(rng)
    el = elems.make(rng, kind, N, lev=lev, fs=fs)
    fs = fs or 1.0
    for _ in range(4):
        X = rng.normal(size=N) * lev
        if rng.random() < 0.1:
            X = np.zeros(N)
        X = gen.dress(rng, X)
        keep = X.copy()
        x = (el.Q @ X)[None, :]
        f = el.law(x, x, x)      # the damping element takes velocities
        F, dF = el.obj.force(X)
        usc = el.par['bound'](np.abs(x[0])) if kind == 'poly' else 0
        ctx.close(F, (f @ el.T.T)[0], 'static force of %s' % kind, rtol=1e-11,
                  scale=(np.abs(f).max() + usc)
                  * max(1.0, np.abs(el.T).max()) * el.Q.shape[0], atol=1e-14 * fs)
        ctx.check(np.shape(dF) == (N, N), 'shape of the static derivative')
        ctx.check(np.array_equal(X, keep), 'arguments modified')
    ctx.check(el.obj.nl_force_type() == 0, 'element type is not instantaneous')
    ctx.cover(kind, 'm%d' % el.Q.shape[0])


GROUPS = {
    'aft': Group(aft, 1440, 6000, {'check': 15}),
    'static': Group(static, 1440, 4320, {'check': 10}),
}
SHARDS = 6
