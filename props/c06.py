"""C06 Rough contact friction, cycles and statics."""
import numpy as np
from vlib import elems, gen, ref
from vlib.run import Group

ID = 'C06'
RULE = ('random materials, asperity distributions, both tangential models, '
        'all start options; random multi-harmonic cycles and static load '
        'histories with commits; compared to a scalar asperity-by-asperity '
        'reference model')
ASSUMPTIONS = ['float64 arithmetic', 'harmonic analysis repeats the cycle '
               'twice (default)', 'reference formulas are those of the cited '
               'publication']
P = 12


def _setup(ctx, tag, n):
    pos = ctx.index % n
    prng, h, Nt = elems.pool(ctx.seed, tag, pos, nmax=3, hi=24, kmax=4)
    mat = elems.rough_material(prng)
    mat['model'] = ['TAN', 'MIF'][pos % 2]
    return prng, h, Nt, mat


def _force_scale(m, u, f):
    """size of the friction trial forces and of the forces"""
    d = max(float(np.abs(u[:, 2]).max()), 1e-30)
    k = 8 * m.Gs * np.sqrt(m.R * 2 * d) * m.wts.sum()
    return np.abs(f).max() + 1e-3 * k * np.abs(u[:, :2]).max() + 1e-12


def cycle(ctx):
    rng = ctx.rng
    prng, h, Nt, mat = _setup(ctx, 'C06', P)
    N = int(rng.integers(3, 5))
    el = elems.make_rough(rng, mat, N)
    m = el.par['model']
    for rep in range(3):
        U = elems.rough_motion(rng, el, h, N)
        w = float(rng.uniform(0.1, 3))
        want, (Ul, u, Fh, f) = ref.aft(el.Q, el.T, U, w, h, Nt, el.law)
        sc = _force_scale(m, u, f)
        scT = sc * max(1.0, np.abs(el.T).max())
        keep = U.copy()
        kw = {} if rng.random() < 0.5 else {'tol': 1e-7}
        got = el.obj.aft(U, w, h, Nt, calc_grad=rep == 0, **kw)
        sep = (f[:, 2] == 0).mean()
        reg = '%s/%s' % ('plastic' if (u[:, 2].max() - m.meso - m.gaps[0])
                         > 1.9 * m.dy else 'elastic',
                         'open' if sep == 1 else 'sep' if sep else 'contact')
        ctx.note(model=mat['model'], h=h, Nt=Nt, regime=reg, nasp=m.gaps.size)
        ctx.close(got[0], want, 'harmonic force of %s (%s, start %s, h=%s)'
                  % (el.kind, reg, el.par['mode'], h), rtol=1e-7, scale=scT)
        ctx.check(np.array_equal(U, keep), 'arguments modified')
        if rep == 0:
            loc = el.obj.aft(U, w, h, Nt, calc_grad=False, return_local=True)
            ctx.close(np.asarray(loc[0]).T, Fh, 'local harmonic force',
                      rtol=1e-7, scale=sc)
            cst = ref.basis(h, ref.phases(Nt))
            ft = el.obj.local_force_history(
                u, w * ref.synth(h, Ul, Nt, 1), h, cst, el.par['u0'])[0]
            ctx.close(ft, f, 'local force history', rtol=1e-7, scale=sc)
        if rep == 2 and ctx.index % P < 2:      # another number of cycles
            cyc = 3 - 2 * (ctx.index % P)
            more = ref.aft(el.Q, el.T, U, w, h, Nt, lambda a, b, c: m.cycle(
                a, el.par['u0'], cyc))[0]
            got = el.obj.aft(U, w, h, Nt, max_repeats=cyc, calc_grad=False)
            ctx.close(got[0], more, 'harmonic force after %d cycles' % cyc,
                      rtol=1e-7, scale=scT)
            ctx.event('cycles')
        if sep < 1:
            ctx.event('contact')
        ctx.cover(el.kind, reg, el.par['mode'], 'n%d' % m.gaps.size)
        if rep == 1:
            X = rng.normal(size=N) * el.par['lev']
            el.obj.set_aft_initialize(X)
            el.par['u0'] = el.Q @ X
            el.par['mode'] = 'set'
    el.obj.set_prestress_mu()
    m.mu = 0.0
    want0 = ref.aft(el.Q, el.T, U, w, h, Nt, el.law)[0]
    ctx.close(el.obj.aft(U, w, h, Nt, calc_grad=False)[0], want0,
              'frictionless force', rtol=1e-7, scale=scT)
    el.obj.reset_real_mu()
    ctx.close(el.obj.aft(U, w, h, Nt, calc_grad=False)[0], want,
              'force after friction reset', rtol=1e-7, scale=scT)


def static(ctx):
    rng = ctx.rng
    prng, h, Nt, mat = _setup(ctx, 'C06s', 6)
    N = int(rng.integers(3, 5))
    el = elems.make_rough(rng, mat, N)
    m, lev = el.par['model'], el.par['lev']
    if rng.random() < 0.7:
        el.obj.init_history()
    st = m.init_state()
    mu = el.par['mu']
    Qi = np.linalg.pinv(el.Q)
    u = np.zeros(3)
    nc = 0
    us = [np.zeros(3)]
    for step in range(16):
        op = rng.choice(['eval', 'commit', 'init', 'pre', 'real'],
                        p=[.35, .5, .05, .05, .05])
        if op == 'init':
            el.obj.init_history()
            st = m.init_state()
            continue
        if op == 'pre':
            el.obj.set_prestress_mu()
            m.mu = 0.0
            continue
        if op == 'real':
            el.obj.reset_real_mu()
            m.mu = mu
            continue
        d = rng.normal(size=3) * lev * np.array([.05, .05, 1.])
        u = d if rng.random() < 0.3 else u + 0.5 * d
        if rng.random() < 0.4:
            u[2] = abs(u[2]) + rng.random() * lev
        X = Qi @ u
        X = X + (np.eye(N) - Qi @ el.Q) @ rng.normal(size=N) * lev
        keep = X.copy()
        ul = el.Q @ X
        us.append(ul)
        F, new, info = m.static(ul, st)
        if op == 'commit':
            got = el.obj.force(X, update_hist=True)
        elif rng.random() < 0.3:
            got = el.obj.force(X, return_aux=True)
        else:
            got = el.obj.force(X)
        sc = _force_scale(m, np.array(us), F)
        ctx.close(got[0], el.T @ F, 'static force of %s after %d commits'
                  % (el.kind, nc), rtol=1e-7,
                  scale=sc * max(1.0, np.abs(el.T).max()))
        ctx.check(np.array_equal(X, keep), 'arguments modified')
        if F[2] > 0:
            ctx.event('contact')
        if op == 'commit':
            st = new
            nc += 1
            ctx.event('commit')
            if rng.random() < .5:
                committed(ctx, el, m, st, X, ul, F)
    ctx.cover(el.kind, 'commits%d' % min(nc, 8), 'plastic'
              if st['um'] - m.meso - m.gaps[0] > 1.9 * m.dy else 'elastic')


def committed(ctx, el, m, st, X, ul, F0):
    """At the committed displacement itself the response is unloading: one
    sided difference quotients of the reference, downwards in the normal
    direction."""
    g = el.obj.force(X)
    F = m.static(ul, st)[0]
    if np.abs(F - F0).max() > 1e-9 * np.abs(F0).max():
        return      # unloading is further away than this step
    d = max(ul[2] - m.meso - m.gaps.min(), 0)
    if F[2] <= 0 or np.min(np.abs(ul[2] - m.meso - m.gaps)) < 1e-2 * d:
        return
    if max(np.linalg.cond(el.Q), np.linalg.cond(el.T)) > 1e4:
        return
    mu = m.mu
    m.mu = mu * (1 - 1e-3)
    less = m.static(ul, st)[0]
    m.mu = mu
    if mu == 0 or np.abs(F - less).max() > 1e-9 * np.abs(F[:2]).max():
        return      # some part is at the friction limit
    K = np.zeros((3, 3))
    for j in range(3):
        q = []
        for e in ((-1e-5 * d, -3e-6 * d) if j == 2 else
                  (-1e-5 * d, 1e-5 * d, 3e-6 * d)):
            v = ul.copy()
            v[j] += e
            q.append((m.static(v, st)[0] - F) / e)
        if np.ptp(q, 0).max() > 1e-3 * np.abs(q).max():
            return      # not differentiable in this direction
        K[:, j] = q[-1]
    got = np.linalg.pinv(el.T) @ np.asarray(g[1]) @ np.linalg.pinv(el.Q)
    if m.model == 'MIF':
        got[:2, 2] = K[:2, 2]   # kink of the interpolated tractions
    ctx.close(got, K, 'stiffness of %s at the committed displacement'
              % el.kind, rtol=5e-3, scale=np.abs(K).max())
    ctx.event('committed')


def alone(ctx):
    rng = ctx.rng
    _, _, _, mat = _setup(ctx, 'C06z', 2)
    h = np.array([0])
    N = int(rng.integers(3, 5))
    el = elems.make_rough(rng, mat, N)
    U = elems.rough_motion(rng, el, h, N)
    _, (_, u, _, f) = ref.aft(el.Q, el.T, U, 1.0, h, 8, el.law)
    elems.alone(ctx, el, U, 8, rtol=1e-7,
                scale=_force_scale(el.par['model'], u, f))


GROUPS = {
    'cycle': Group(cycle, 96, 3000, {'check': 8, 'contact': 1.5}),
    'static': Group(static, 90, 3000, {'check': 14, 'commit': 3,
                                       'contact': 3}),
    'alone': Group(alone, 8, 100, {'check': 3}),
}
SHARDS = 6
