"""C08 Jacobians of all residual forms."""
import numpy as np
from vlib import deriv, elems, forms, gen, ref
from vlib.run import Group, Skip

ID = 'C08'
RULE = ('random systems with numpy and traced elements and random states of '
        'all nine harmonic residual forms and the static residual; every '
        'returned derivative (unknowns and continuation parameter) is compared '
        'to difference quotients of the returned residual in dense directions '
        'and single unknowns; components with a kink in the stencil are '
        'undecided')
ASSUMPTIONS = ['float64 arithmetic', 'difference quotients resolve relative '
               'errors of 2e-6 of the largest derivative entry along the '
               'direction',
               'phase-resonance forms: superharmonic force and displacement '
               'do not vanish']


def evaluate(ctx, f, tag, vs=1e-6):
    rng = ctx.rng
    keep = f.x.copy()
    out = f.call(f.x, True)
    ctx.check(isinstance(out, tuple) and len(out) == 3,
              'residual returns value and two derivatives')
    R, dX, dl = out
    n = f.x.size
    m = np.shape(R)[0]
    ctx.check(np.shape(dX) == (m, n - 1) and np.shape(dl) == (m,)
              and m == n - 1, 'shapes %s %s %s for %d unknowns' % (
                  np.shape(R), np.shape(dX), np.shape(dl), n))
    J = np.c_[dX, dl]
    fs = f.size(f.x)

    def fun(x):
        return f.call(x, f.name == 'base')[0]
    ctx.close(fun(f.x), R, 'residual without gradient, ' + tag, rtol=1e-12,
              scale=fs)
    cols = [n - 1, n - 2, int(rng.integers(n)), int(rng.integers(n))]
    if f.name in ('amp_phase', 'amp_phase_dA', 'epmc', 'vprnm_amp_phase'):
        cols.append(n - 3)
    if f.name == 'vprnm_amp_phase':
        cols.append(n - 4)
    deriv.jacobian(ctx, fun, J, f.x, f.xs, '%s %s' % (f.name, tag), rng,
                   ndir=2, step=2e-6, fscale=fs, cols=cols,
                   vscale=vs * max(1.0, fs if np.isfinite(fs) else 1.0)
                   * 1e-3)
    ctx.check(np.array_equal(keep, f.x), 'arguments modified')


def usable(S, f):
    """superharmonic force and displacement well away from zero"""
    k = f.kw
    n = ref.ncomp(k['h']) * S.N
    U = f.x[:n]
    w = f.x[-2]
    fh, xh = forms.vprnm_ref(S, U, w, k['h'], k['Nt'], k['rhi'], k['phi'],
                             True)
    sz = S.size(U, w, k['h'], k['Nt'])
    return np.linalg.norm(fh) > 1e-4 * sz and np.linalg.norm(xh) > 1e-4 * \
        np.abs(U).max()


def numpy_forms(ctx):
    rng = ctx.rng
    name = forms.FORMS[ctx.index % len(forms.FORMS)]
    vp = name[:5] == 'vprnm'
    for attempt in range(8):
        lev = 10.0 ** rng.uniform(-1, 0.5)
        N = int(rng.integers(2, 5)) if name == 'base' else None
        kinds = elems.SMOOTH if rng.random() < 0.5 else None
        S = forms.Sys(rng, N=N, lev=lev, kinds=kinds,
                      nel=int(rng.integers(1, 4)) if vp else None)
        f = forms.make(rng, S, name, style=str(rng.choice(
            ['flat', 'decay', 'offset'])))
        if not vp or usable(S, f):
            break
    else:
        raise Skip('no superharmonic force')
    ctx.note(form=name, h=f.kw['h'], Nt=f.kw['Nt'],
             kinds=[e.kind for e in S.els])
    evaluate(ctx, f, 'h=%s order %s elements %s' % (
        f.kw['h'], f.kw.get('order'), [e.kind for e in S.els]))
    ctx.cover(name, 'h0' if f.kw['h'][0] == 0 else 'no0',
              'o%s' % f.kw.get('order'),
              '+'.join(sorted(set(e.kind for e in S.els))))


P = 12


def traced_forms(ctx):
    """Traced elements inside the residual forms."""
    rng = ctx.rng
    pos = ctx.index % P
    name = forms.FORMS[(ctx.index // P + pos) % len(forms.FORMS)]
    vp = name[:5] == 'vprnm'
    prng, h, Nt = elems.pool(ctx.seed, 'C08', pos, nmax=3, hi=32, kmax=3,
                             zero=True)
    h = np.unique(np.r_[h, 1, 2])
    Nt = max(Nt, 2 * int(max(h)) + 2)
    kind = elems.JAX[pos % 4]
    for attempt in range(8):
        S = forms.Sys(rng, N=2, nel=0, lev=1.0)
        el = elems.make(rng, kind, 2, m=1, lev=1.0, u0mode=str(
            prng.choice(['default', 'scalar'])))
        S.els.append(el)
        S.obj.add_nl_force(el.obj)
        if rng.random() < 0.5:
            e2 = elems.make(rng, str(rng.choice(elems.SMOOTH)), 2, lev=1.0)
            S.els.append(e2)
            S.obj.add_nl_force(e2.obj)
        f = forms.make(rng, S, name, style=str(rng.choice(
            ['flat', 'decay', 'offset'])), h=h, Nt=Nt)
        if not vp or usable(S, f):
            break
    else:
        raise Skip('no superharmonic force')
    evaluate(ctx, f, 'h=%s traced %s' % (h, kind))
    ctx.cover(name, kind)


def static(ctx):
    """Static residual, also after committed load history."""
    rng = ctx.rng
    lev = 10.0 ** rng.uniform(-1, 0.5)
    S = forms.Sys(rng, kinds=['cubic', 'quintic', 'poly', 'uni', 'iwanbb',
                              'jenkins'], lev=lev)
    if ctx.index % 3 == 0:
        el = elems.make(rng, str(rng.choice(['eldry2', 'eldry3'])), S.N, m=1,
                        lev=lev, u0mode=str(rng.choice(['default', 'scalar'])))
        S.els.append(el)
        S.obj.add_nl_force(el.obj)
    S.obj.init_force_history()
    F = rng.normal(size=S.N)
    for step in range(int(rng.integers(1, 5))):
        U = rng.normal(size=S.N) * S.lev
        R, J = S.obj.static_res(U, F)
        fs = np.abs(R).max() + np.abs(F).max() + np.abs(S.K).sum() \
            * np.abs(U).max()
        for el in S.els:
            if el.kind == 'poly':
                fs += 10 * max(1.0, np.abs(el.Q @ U).sum()) ** 6
        deriv.jacobian(ctx, lambda x: S.obj.static_res(x, F)[0], J, U, S.lev,
                       'static residual step %d elements %s' % (
                           step, [e.kind for e in S.els]), rng, ndir=2,
                       step=2e-6, fscale=fs, vscale=1e-6)
        S.obj.update_force_history(U)
    ctx.cover('static', '+'.join(sorted(set(e.kind for e in S.els))))


def amplitude(ctx):
    """Amplitude continuation over its whole (logarithmic) range: for linear
    and cubic systems the derivatives are homogeneous in the amplitude."""
    rng = ctx.rng
    zero = rng.random() < .4
    S = forms.Sys(rng, nel=0, damping=None if rng.random() < .5 else 'ab')
    N = S.N
    lin = S.eom
    cub = []
    if not zero and rng.random() < .6:
        cub.append(elems.make(rng, 'cubic', N, lev=1.0))
        S.obj.add_nl_force(cub[0].obj)
    h = gen.harmonics(rng, kmax=4, nmax=3, one=True)
    h = np.unique(np.r_[0, h]) if zero else h[h > 0]
    Nt = gen.samples(rng, h)
    n = ref.ncomp(h) * N
    Fl = rng.normal(size=n)
    dyn = np.ones(n)
    if zero:
        dyn[:N] = 0
    U = rng.normal(size=n)
    w, xi = rng.uniform(.3, 2), rng.normal() * .1
    a = float(rng.uniform(-14, 4))
    A = 10.0 ** a
    R, J, d = S.obj.epmc_res(np.r_[U, w, xi, a], Fl, h, Nt=Nt)
    L = lin(U, w, h, Nt, xi)
    C3 = sum((e.aft_ref(U, w, h, Nt) for e in cub), np.zeros(n))
    Fs = np.where(dyn > 0, 0.0, Fl)
    sc = S.size(U, w, h, Nt, xi)
    for e in cub:
        sc = sc + A ** 2 * (np.abs(e.aft_ref(U, w, h, Nt)).max() + 1e3)
    m = 'h=%s a=%.2f cubic %d' % (h, a, len(cub))
    if zero:
        ctx.close(R[:N], (L - Fs)[:N], 'static residual, ' + m, rtol=1e-10,
                  scale=sc + np.abs(Fl).max())
        ctx.close(d[:N], np.zeros(N), 'amplitude derivative of the static '
                  'residual, ' + m, rtol=0, atol=0)
    q = dyn > 0
    ctx.close(R[:-2][q] / A, (L + A ** 2 * C3)[q], 'residual per amplitude, '
              + m, rtol=1e-10, scale=sc)
    ctx.close(d[:-2][q] / A, np.log(10) * (L + 3 * A ** 2 * C3)[q],
              'amplitude derivative per amplitude, ' + m, rtol=1e-9,
              scale=3 * np.log(10) * sc)
    ctx.close(d[-2:], np.zeros(2), 'amplitude derivative of normalization and '
              'phase, ' + m, rtol=0, atol=0)
    # frequency and damping columns
    for col, e in ((-2, 1e-3), (-1, 1e-3)):
        p = {-2: (w + e, xi, w - e, xi), -1: (w, xi + e, w, xi - e)}[col]
        D = (lin(U, p[0], h, Nt, p[1]) - lin(U, p[2], h, Nt, p[3])) / (2 * e)
        ctx.close(J[:-2, col][q] / A, D[q], 'derivative %d per amplitude, '
                  % col + m, rtol=1e-8, scale=sc * (1 + max(h)) ** 2)
    if not cub:
        k = int(rng.integers(n))
        one = np.zeros(n)
        one[k] = 1
        D = lin(one, w, h, Nt, xi)
        ctx.close(J[:-2, k] / np.where(q, A, 1), D * (q == q[k]),
                  'unknown %d per amplitude, ' % k + m, rtol=1e-10,
                  scale=S.size(one, w, h, Nt, xi) + sc)
    ctx.cover('amplitude', 'zero%d' % zero, len(cub), int(a // 4))


GROUPS = {
    'amplitude': Group(amplitude, 240, 2400, {'check': 4}),
    'numpy_forms': Group(numpy_forms, 450, 9000,
                         {'smooth': 3, 'check': 2}),
    'traced_forms': Group(traced_forms, 60, 1200, {'smooth': 2}),
    'static': Group(static, 510, 2000, {'smooth': 2}),
}
SHARDS = 6
