"""C05 Elastic dry friction, cycles and statics."""
import numpy as np
from vlib import elems, gen, ref
from vlib.run import Group

ID = 'C05'
RULE = ('random 2D/3D elements (1-2 contact points, all start options, gaps, '
        'friction coefficients), random multi-harmonic cycles and random '
        'static load histories with commits; compared to an explicit '
        'step-by-step contact model')
ASSUMPTIONS = ['float64 arithmetic', 'scalar contact parameters',
               'start None is used with lists that contain harmonic 0']
P = 12


def _regime(el, u, f):
    n = el.par['nt'] + 1
    tags = set()
    for j in range(u.shape[1]):
        if j % n == n - 1:
            continue
        fn = f[:, (j // n) * n + n - 1]
        open_ = fn <= 0
        slip = (np.abs(f[:, j]) >= el.par['mu'] * fn * (1 - 1e-12)) & ~open_
        if open_.all():
            tags.add('open')
        else:
            if open_.any():
                tags.add('sep')
            if slip.any():
                tags.add('slip')
            if (~slip & ~open_).any():
                tags.add('stick')
    return '+'.join(sorted(tags))


def cycle(ctx):
    rng = ctx.rng
    pos = ctx.index % P
    prng, h, Nt = elems.pool(ctx.seed, 'C05', pos, nmax=3, hi=40)
    kind = ['eldry2', 'eldry3'][pos % 2]
    npt = 1 + (pos // 2) % 2
    N = int(rng.integers(1, 5))
    lev, fs = gen.units(rng, flo=-3)
    modes = ['default', 'scalar', 'array']
    if h[0] == 0:
        modes.append('none')
    el = elems.make(rng, kind, N, m=npt, lev=lev, fs=fs,
                    u0mode=rng.choice(modes))
    for rep in range(3):
        U = elems.motion(rng, N, h, lev=lev)
        w = float(rng.uniform(0.1, 3))
        want, (Ul, u, Fh, f) = ref.aft(el.Q, el.T, U, w, h, Nt, el.law)
        reg = _regime(el, u, f)
        fmax = max(np.abs(f).max(), el.par['kt'] * np.abs(u).max(),
                   el.par['kn'] * np.abs(u).max())
        sc = fmax * max(1.0, np.abs(el.T).max())
        ctx.note(kind=kind, h=h, Nt=Nt, regime=reg, start=el.par['mode'])
        keep = U.copy()
        got = el.obj.aft(U, w, h, Nt, 1e-7)
        g1 = el.obj.aft(U, w, h, Nt=Nt, calc_grad=False)
        msg = 'harmonic force of %s (%s, start %s, h=%s, Nt=%d)' \
            % (kind, reg, el.par['mode'], h, Nt)
        ctx.close(got[0], want, msg, rtol=1e-9, scale=sc)
        ctx.close(g1[0], want, msg + ' without gradient', rtol=1e-9, scale=sc)
        ctx.check(np.array_equal(U, keep), 'arguments modified')
        ctx.cover(kind, reg, el.par['mode'], 'p%d' % npt)
        if rep == 0:
            cst = ref.basis(h, ref.phases(Nt))
            ft = el.obj.local_force_history(u, w * ref.synth(h, Ul, Nt, 1), h,
                                            cst, Ul[0])[0]
            ctx.close(ft, f, 'local force history of %s, start %s'
                      % (kind, el.par['mode']), rtol=1e-9, scale=fmax)
        if rep == 1:       # prestressed start position
            X = rng.normal(size=N) * lev
            Xk = X.copy()
            el.obj.set_aft_initialize(X)
            ctx.check(np.array_equal(X, Xk), 'start displacement modified')
            el.par['u0'] = el.Q @ X
            el.par['mode'] = 'set'
    # frictionless prestress state and back
    mu = el.par['mu']
    el.obj.set_prestress_mu()
    el.par['mu'] = 0.0
    want0 = ref.aft(el.Q, el.T, U, w, h, Nt, el.law)[0]
    ctx.close(el.obj.aft(U, w, h, Nt)[0], want0, 'frictionless force',
              rtol=1e-9, scale=sc)
    el.obj.reset_real_mu()
    el.par['mu'] = mu
    ctx.close(el.obj.aft(U, w, h, Nt)[0], want, 'force after friction reset',
              rtol=1e-9, scale=sc)


def static(ctx):
    rng = ctx.rng
    pos = ctx.index % 4
    kind = ['eldry2', 'eldry3'][pos % 2]
    npt = 1 + pos // 2
    N = int(rng.integers(1, 5))
    lev, fs = gen.units(rng, flo=-3)
    el = elems.make(rng, kind, N, m=npt, lev=lev, fs=fs)
    p = el.par
    if rng.random() < 0.7:
        el.obj.init_history()
    m = el.Q.shape[0]
    n = p['nt'] + 1
    up, fp = np.zeros(m), np.zeros(m)
    mu = p['mu']
    X = np.zeros(N)
    ncommit = 0
    for step in range(14):
        op = rng.choice(['eval', 'commit', 'init', 'pre', 'real'],
                        p=[.4, .42, .06, .06, .06])
        if op == 'init':
            el.obj.init_history()
            up, fp = np.zeros(m), np.zeros(m)
            continue
        if op == 'pre':
            el.obj.set_prestress_mu()
            mu = 0.0
            continue
        if op == 'real':
            el.obj.reset_real_mu()
            mu = p['mu']
            continue
        X = rng.normal(size=N) * lev if rng.random() < 0.4 else \
            X + rng.normal(size=N) * lev * 0.3
        keep = X.copy()
        u = el.Q @ X
        f = ref.eldry_path(u[None, :], p['nt'], p['kt'], p['kn'], mu,
                           p['gap'], up, fp)[0]
        F, dF = el.obj.force(X, update_hist=True) if op == 'commit' \
            else el.obj.force(X)
        sc = max(np.abs(f).max(), p['kt'] * (np.abs(u).max()
                                             + np.abs(up).max()),
                 p['kn'] * np.abs(u).max()) * max(1.0, np.abs(el.T).max()) * m
        ctx.close(F, el.T @ f, 'static force of %s after %d commits'
                  % (kind, ncommit), rtol=1e-10, scale=sc)
        ctx.check(np.array_equal(X, keep), 'arguments modified')
        ctx.check(np.shape(dF) == (N, N), 'shape of the derivative')
        if op == 'commit':
            ncommit += 1
            ctx.event('commit')
            for j in range(m):
                if j % n != n - 1:
                    up[j], fp[j] = u[j], f[j]
    ctx.cover(kind, 'p%d' % npt, 'commits%d' % min(ncommit, 6))


def alone(ctx):
    rng = ctx.rng
    lev, fs = gen.units(rng, flo=-3)
    N = int(rng.integers(1, 5))
    el = elems.make(rng, ['eldry2', 'eldry3'][ctx.index % 2], N, m=1 +
                    ctx.index // 2 % 2, lev=lev, fs=fs, u0mode=rng.choice(
                        ['default', 'scalar', 'array', 'none']))
    elems.alone(ctx, el, rng.normal(size=N) * lev * 2, 8,
                scale=el.par['kt'] * lev)


GROUPS = {
    'cycle': Group(cycle, 144, 4000, {'check': 9}),
    'static': Group(static, 300, 4000, {'check': 15, 'commit': 2}),
    'alone': Group(alone, 12, 200, {'check': 3}),
}
SHARDS = 6
