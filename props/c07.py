"""C07 Derivatives returned by the nonlinear elements."""
import numpy as np
from vlib import deriv, elems, gen, ref
from vlib.run import Group

ID = 'C07'
RULE = ('every element type with random parameters, maps, cycles and static '
        'histories; returned derivatives are compared to difference quotients '
        'of the returned forces in random dense directions, single unknowns '
        'and frequency, components with a kink inside the stencil undecided')
ASSUMPTIONS = ['float64 arithmetic', 'difference quotients resolve relative '
               'errors of 2e-6 of the largest derivative entry']
NP = elems.INST + elems.HYST
TR = elems.JAX
P = 16


GENERIC = ['flat', 'decay', 'offset']
# motions with exact symmetries or at rest put frictional elements on ties of
# stick and slip, where the force has no derivative
ASSUMPTIONS.append('frictional elements are differentiated at generic motions '
                   '(no exact symmetry, not at rest)')


def _typical(el, N, h, w, Nt, lev, U=None):
    """size of the derivative entries (times lev) at a generic motion"""
    if U is None:
        U = elems.motion(np.random.default_rng(7), N, h, lev, 'flat')
    out = el.obj.aft(U, w, h, Nt)
    return lev * float(np.abs(out[1]).max())


def _bound(el, u):
    return el.par['bound'](u) * max(1.0, np.abs(el.T).max()) * el.Q.shape[0]


def _aft(ctx, el, U, w, h, Nt, lev, fscale, tag, vs=0.0):
    rng = ctx.rng
    el_aft = el.obj.aft
    keep = U.copy()
    out = el_aft(U, w, h, Nt, 1e-7)
    ctx.check(len(out) == 3, 'harmonic force returns force and derivatives')
    F, dU, dw = out
    n = U.size
    ctx.check(np.shape(F) == (n,) and np.shape(dU) == (n, n)
              and np.shape(dw) == (n,), 'shapes of force and derivatives')
    g1 = el_aft(U, w, h, Nt, calc_grad=False)[0]
    ctx.close(g1, F, 'force without gradient', rtol=1e-12, scale=fscale)
    msg = '%s h=%s Nt=%d %s' % (el.kind, h, Nt, tag)

    def fU(x):
        return np.asarray(el_aft(x, w, h, Nt, calc_grad=False)[0])
    deriv.jacobian(ctx, fU, dU, U, lev, 'harmonic displacement, ' + msg, rng,
                   ndir=2, fscale=fscale, step=3e-6,
                   vscale=1e-3 * vs, cols=[int(rng.integers(n)), int(rng.integers(n))])
    if w != 0:
        def fw(x):
            return np.asarray(el_aft(U, float(x[0]), h, Nt,
                                     calc_grad=False)[0])
        deriv.directional(ctx, fw, np.asarray(dw)[:, None], np.array([w]),
                          np.array([w]), 1e-5, 'frequency, ' + msg,
                          fscale=fscale, vscale=1e-9 * vs)
    ctx.check(np.array_equal(U, keep), 'arguments modified')


def numpy_aft(ctx):
    rng = ctx.rng
    kind = NP[ctx.index % len(NP)]
    N = gen.dofs(rng, 4)
    lev, fu = gen.units(rng, flo=-6 if kind in elems.INST else -3)
    el = elems.make(rng, kind, N, lev=lev, fs=fu)
    fu = fu or 1.0
    for rep in range(2):
        h = gen.harmonics(rng, kmax=int(rng.choice([3, 7])), nmax=4)
        Nt = gen.samples(rng, h, hi=64)
        U = elems.motion(rng, N, h, lev=lev, style=rng.choice(GENERIC)
                         if kind not in elems.SMOOTH else None)
        w = float(rng.choice([0.0, rng.uniform(0.05, 5),
                              10.0 ** rng.uniform(-4, 3)], p=[.1, .6, .3]))
        if rng.random() < .1:
            w = -w
        _, (Ul, u, Fh, f) = ref.aft(el.Q, el.T, U, w, h, Nt, el.law)
        fs = np.abs(f).max() * max(1.0, np.abs(el.T).max()) \
            * el.Q.shape[0] + 1e-12 * fu
        if kind == 'poly':
            fs += 5 * _bound(el, np.abs(Ul).sum(0))
        ctx.note(kind=kind, h=h, Nt=Nt)
        _aft(ctx, el, U, w, h, Nt, lev, fs, '',
             _typical(el, N, h, w, Nt, lev))
        ctx.cover(kind, 'h0' if h[0] == 0 else 'no0', 'w%d' % (w != 0))


def traced_aft(ctx):
    rng = ctx.rng
    pos = ctx.index % P
    prng, h, Nt = elems.pool(ctx.seed, 'C07', pos, nmax=3, hi=32, kmax=4)
    kind = (TR + ['rough'])[pos % 5]
    lev, fu = gen.units(rng, flo=-3)
    if kind == 'rough':
        mat = elems.rough_material(prng)
        N = int(rng.integers(3, 5))
        el = elems.make_rough(rng, mat, N)
        lev = el.par['lev']
        U = elems.rough_motion(rng, el, h, N)
    else:
        N = int(rng.integers(1, 4))
        modes = ['default', 'scalar'] + (['none'] if h[0] == 0 else [])
        if kind[:5] == 'eldry':
            modes.append('array')
        el = elems.make(rng, kind, N, m=1 if kind[:5] == 'eldry' else None,
                        lev=lev, u0mode=rng.choice(modes), fs=fu)
        U = elems.motion(rng, N, h, lev=lev, style=rng.choice(GENERIC))
    w = float(rng.uniform(0.05, 5))
    _, (Ul, u, Fh, f) = ref.aft(el.Q, el.T, U, w, h, Nt, el.law)
    fs = np.abs(f).max() * max(1.0, np.abs(el.T).max()) * el.Q.shape[0]
    if kind == 'rough':
        if f[:, 2].max() <= 0:
            ctx.event('open')
        # lengths are limited by contact radius scales
        lev = min(lev, np.abs(u[:, 2]).max())
    fs = max(fs, 1e-12 * (fu or 1.0))
    ctx.note(kind=el.kind, h=h, Nt=Nt)
    _aft(ctx, el, U, w, h, Nt, lev, fs, el.par.get('mode', ''))
    if kind == 'rough':
        loc = el.obj.aft(U, w, h, Nt, return_local=True)
        dU = np.asarray(el.obj.aft(U, w, h, Nt)[1])
        nc = ref.ncomp(h)
        ctx.close(np.kron(np.eye(nc), el.T) @ np.asarray(loc[1])
                  @ np.kron(np.eye(nc), el.Q), dU, 'derivative of the local '
                  'harmonic force', rtol=1e-9, scale=np.abs(dU).max() + fs)
        Fw, _, dw = (np.asarray(a) for a in el.obj.aft(U, w, h, Nt))
        ctx.close(np.asarray(loc[2]).reshape(nc, -1) @ el.T.T,
                  dw.reshape(nc, -1), 'frequency derivative of the local '
                  'harmonic force', rtol=1e-9, scale=fs)
        T = el.T.T
        ctx.close(np.asarray(loc[0]).T @ T, Fw.reshape(nc, -1),
                  'local harmonic force', rtol=1e-9, scale=fs)
    ctx.cover(el.kind, 'h0' if h[0] == 0 else 'no0')


def static(ctx):
    rng = ctx.rng
    kinds = elems.INST + ['jenkins', 'vjenkins', 'iwan4', 'viwan4', 'eldry2',
                          'eldry3', 'roughTAN', 'roughMIF']
    kind = kinds[ctx.index % len(kinds)]
    lev, fu = gen.units(rng, flo=-6 if kind in elems.INST else -3)
    if kind[:5] == 'rough':
        prng = np.random.default_rng([ctx.seed, ctx.index % len(kinds)])
        mat = elems.rough_material(prng)
        mat['model'] = kind[5:]
        N = 3
        el = elems.make_rough(rng, mat, N)
        lev = el.par['lev']
    else:
        N = gen.dofs(rng, 4)
        el = elems.make(rng, kind, N, m=1 if kind[:5] == 'eldry' else None,
                        lev=lev, fs=fu)
    if el.hyst:
        el.obj.init_history()
    X = np.zeros(N)
    ncommit = 0
    for step in range(6):
        if kind[:5] == 'rough':
            u = rng.normal(size=3) * lev * np.array([.03, .03, 1])
            u[2] += 0.7 * lev
            X = np.linalg.pinv(el.Q) @ u
        else:
            X = X * 0.5 + rng.normal(size=N) * lev
        F, J = el.obj.force(X)
        ctx.check(np.shape(J) == (N, N) and np.shape(F) == (N,),
                  'shapes of force and derivative')
        fs = max(np.abs(F).max(), 1e-12 * (fu or 1.0))
        if kind == 'poly':
            fs += 5 * _bound(el, np.abs(el.Q @ X))
        deriv.jacobian(ctx, lambda x: np.asarray(el.obj.force(x)[0]), J, X,
                       lev, 'static %s after %d commits' % (el.kind, ncommit),
                       rng, ndir=2, fscale=fs, step=3e-6)
        if el.hyst and rng.random() < 0.7:
            el.obj.force(X, update_hist=True)
            ncommit += 1
    ctx.cover(el.kind, ncommit)


GROUPS = {
    'numpy_aft': Group(numpy_aft, 240, 6000, {'smooth': 6}),
    'traced_aft': Group(traced_aft, 128, 3000, {'smooth': 3}),
    'static': Group(static, 140, 4000, {'smooth': 8}),
}
SHARDS = 8
