"""C09 Harmonic-balance residual forms."""
import numpy as np
from vlib import elems, forms, gen, ref
from vlib.run import Group, Skip

ID = 'C09'
RULE = ('random systems (1-4 DOF, 0-3 elements of ten types, proportional, '
        'full and nonsymmetric damping) and random states of six residual '
        'forms with random forces, control locations, orders and base masks; '
        'residuals are compared to projected time-domain forces')
ASSUMPTIONS = ['float64 arithmetic', 'amplitude-control forms have harmonic 1 '
               'as first nonzero harmonic']
NAMES = ['hbm', 'hbm_dFl', 'base', 'amp', 'amp_phase', 'amp_phase_dA']


def form_case(ctx, names, N=None, kinds=None):
    rng = ctx.rng
    name = names[ctx.index % len(names)]
    lev = 10.0 ** rng.uniform(-1, 0.5)
    if N is None and name == 'base':
        N = int(rng.integers(2, 5))
    S = forms.Sys(rng, N=N, lev=lev, kinds=kinds)
    f = forms.make(rng, S, name)
    return name, S, f


def residual(ctx):
    name, S, f = form_case(ctx, NAMES)
    h = f.kw['h']
    keep = [np.array(a) for a in f.kw['args'] if a is not None] + [f.x.copy()]
    out = f.call(f.x, True)
    ctx.check(isinstance(out, tuple) and len(out) == 3,
              'residual returns value and two derivatives')
    ctx.note(form=name, h=h, Nt=f.kw['Nt'], kinds=[e.kind for e in S.els])
    msg = '%s residual h=%s, order %s, elements %s' % (
        name, h, f.kw.get('order'), [e.kind for e in S.els])
    ctx.close(out[0], f.ref(f.x), msg, rtol=1e-9, scale=f.size(f.x))
    if name != 'base':
        g = f.call(f.x, False)
        ctx.check(isinstance(g, tuple) and len(g) == 1,
                  'without gradient a 1-tuple is returned')
        ctx.close(g[0], out[0], msg + ' without gradient', rtol=1e-12,
                  scale=f.size(f.x))
    # the same state again after damping, loads or elements changed
    if S.obj is not None and ctx.rng.random() < .5:
        rng = ctx.rng
        for what in rng.permutation(['damping', 'element', 'proportional'])[
                :int(rng.integers(1, 4))]:
            if what == 'damping':
                S.C, S.ab = gen.spd(rng, S.N, .01, .2), None
                S.obj.set_new_C(C=S.C.copy())
            elif what == 'proportional':
                S.ab = [float(q) for q in rng.uniform(.01, .1, 2)]
                S.C = S.ab[0] * S.M + S.ab[1] * S.K
                S.obj.set_new_C(ab=list(S.ab))
            else:
                e = elems.make(rng, str(rng.choice(elems.SMOOTH)), S.N,
                               lev=S.lev)
                S.els.append(e)
                S.obj.add_nl_force(e.obj)
            ctx.close(f.call(f.x, True)[0], f.ref(f.x), msg + ' after change '
                      'of %s' % what, rtol=1e-9, scale=f.size(f.x),
                      what='changed')
    now = [np.array(a) for a in f.kw['args'] if a is not None] + [f.x]
    ctx.check(all(np.array_equal(a, b) for a, b in zip(keep, now)),
              'arguments modified')
    ctx.cover(name, 'h0' if h[0] == 0 else 'no0', 'n%d' % S.N,
              'o%s' % f.kw.get('order'),
              '+'.join(sorted(set(e.kind for e in S.els))))


def total(ctx):
    """Total harmonic force of the system."""
    rng = ctx.rng
    S = forms.Sys(rng, lev=10.0 ** rng.uniform(-1, .5))
    h = gen.harmonics(rng)
    Nt = gen.samples(rng, h, hi=48)
    U = elems.motion(rng, S.N, h, S.lev)
    w = float(rng.uniform(.2, 3))
    sc = S.size(U, w, h, Nt)
    want = S.fnl(U, w, h, Nt)
    out = S.obj.total_aft(U, w, h, Nt=Nt)
    ctx.close(out[0], want, 'total harmonic force', rtol=1e-9, scale=sc)
    n = U.size
    ctx.check(np.shape(out[1]) == (n, n) and np.shape(out[2]) == (n,),
              'shapes of the total derivatives')
    g = S.obj.total_aft(U, w, h, Nt=Nt, calc_grad=False)
    ctx.close(g[0], want, 'total harmonic force without gradient', rtol=1e-9,
              scale=sc)
    ctx.cover(len(S.els))


def static(ctx):
    """Static residual: stiffness + static forces - load."""
    rng = ctx.rng
    S = forms.Sys(rng, kinds=['cubic', 'quintic', 'poly', 'uni', 'iwanbb'],
                  lev=10.0 ** rng.uniform(-1, .5))
    U = rng.normal(size=S.N) * S.lev
    F = rng.normal(size=S.N)
    if rng.random() < .1:
        U = rng.integers(-1, 2, S.N)
    if rng.random() < .1:
        F = rng.integers(-2, 3, S.N)
    want = S.K @ U - F
    sc = np.abs(S.K).sum() * np.abs(U).max() + np.abs(F).max()
    for el in S.els:
        x = (el.Q @ U)[None, :]
        f = el.law(x, x, x)[0]
        want = want + el.T @ f
        sc += np.abs(f).max() * max(1, np.abs(el.T).max()) * el.Q.shape[0]
        if el.kind == 'poly':
            sc += el.par['bound'](np.abs(x[0])) * max(
                1, np.abs(el.T).max()) * el.Q.shape[0]
    keep = U.copy(), F.copy()
    U, F = gen.dress(rng, U), gen.dress(rng, F)
    R, dR = S.obj.static_res(U, F)
    ctx.close(R, want, 'static residual', rtol=1e-10, scale=sc)
    ctx.check(np.shape(dR) == (S.N, S.N), 'shape of the static derivative')
    ctx.check(np.array_equal(U, keep[0]) and np.array_equal(F, keep[1]),
              'arguments modified')
    ctx.cover('static', len(S.els))


def solved(ctx):
    """Live use: solutions accepted by the solver fulfil the time-domain
    balance to the solver tolerance."""
    from tmdsimpy.solvers import NonlinearSolver
    rng = ctx.rng
    S = forms.Sys(rng, N=int(rng.integers(1, 4)), kinds=['cubic', 'uni',
                                                         'iwanbb', 'jenkins'],
                  lev=0.3)
    h = gen.harmonics(rng, kmax=4, nmax=3, one=True)
    Nt = max(32, 2 * int(h[-1]) + 2)
    n = ref.ncomp(h) * S.N
    Fl = rng.normal(size=n) * 0.02
    w = float(rng.choice([0.15, 4.0])) * (1 + 0.1 * rng.random())
    sol = NonlinearSolver()
    E = ref.stiff(S.M, S.C, S.K, w, h)
    X0 = np.linalg.solve(E, Fl)
    seen = []

    def fun(U):
        r = S.obj.hbm_res(np.r_[U, w], Fl, h, Nt=Nt)
        seen.append(U.copy())
        return r[0], r[1]
    X, R, dR, res = sol.nsolve(fun, X0, verbose=False)
    if not res['success'] or np.abs(R).max() > 1e-8:
        raise Skip('solver did not converge')
    r = S.eom(X, w, h, Nt) - Fl
    ctx.check(np.abs(r).max() < 1e-6 * max(1.0, S.size(X, w, h, Nt)),
              'converged point does not balance the equation of motion')
    ctx.event('live_eval', len(seen))
    ctx.cover('solved', 'h0' if h[0] == 0 else 'no0')


GROUPS = {
    'residual': Group(residual, 1400, 12000, {'check': 4, 'changed': .5}),
    'total': Group(total, 720, 2160, {'check': 3}),
    'static': Group(static, 720, 2160, {'check': 3}),
    'solved': Group(solved, 240, 720, {'check': 0.5}),
}
SHARDS = 6
