"""C15 Friction stays admissible and does not create energy."""
import numpy as np
from vlib import elems, gen, ref
from vlib.run import Group, Skip

ID = 'C15'
RULE = ('random cycles and static load paths of all element types; recorded '
        'local forces are checked against limit and sign conditions, and the '
        'work over steady cycles against dissipation inequalities (no '
        'reference force model is used)')
ASSUMPTIONS = ['float64 arithmetic',
               'dissipation of sampled paths by the trapezoidal rule, exact '
               'for elastic-plastic elements',
               'rough contact: component-wise friction limit']
P = 12


def system(el, N):
    from tmdsimpy.vibration_system import VibrationSystem
    s = VibrationSystem(np.eye(N), np.eye(N))
    s.add_nl_force(el.obj)
    return s


def local(el, U, w, h, Nt, N):
    """Local displacement and force over the analyzed cycle."""
    from tmdsimpy.postprocess.harmonic import local_harmonic_forces
    out = local_harmonic_forces(system(el, N), U, w, h, Nt)[0]
    return np.asarray(out[1]), np.asarray(out[3])


def trapezoid(u, f):
    """work over the closed cycle, per column"""
    du = np.roll(u, -1, axis=0) - u
    return (0.5 * (np.roll(f, -1, axis=0) + f) * du).sum(0)


def harmonic_work(el, U, F, w, h, N):
    """Work per cycle of the returned harmonic force (T = Q')."""
    A, B = ref.mat(U, N, h), ref.mat(F, N, h)
    W = 0.0
    for j, (c, k) in enumerate(ref.comps(h)):
        if c == 'c' and k:
            W += np.pi * k * float(A[j + 1] @ B[j] - A[j] @ B[j + 1])
    return W


def scalar(ctx):
    """Jenkins and Iwan elements over cycles."""
    rng = ctx.rng
    kind = elems.HYST[ctx.index % 4]
    N = int(rng.integers(1, 4))
    lev = 10.0 ** rng.uniform(-1, 0.5)
    Q, _ = gen.selector(rng, 1, N)
    el = elems.make(rng, kind, N, m=1, Q=Q, T=Q.T.copy(), lev=lev)
    lim, kt = el.par['lim'], el.par.get('kt') or el.par['model'].kt
    for rep in range(3):
        h = gen.harmonics(rng, kmax=5, nmax=4)
        Nt = gen.samples(rng, h, hi=96)
        U = elems.motion(rng, N, h, lev)
        if rep == 1 and rng.random() < .5 and Nt >= 12:
            # extrema midway between two samples
            k = int(min(q for q in h if q))
            k = k if 12 * k <= Nt else 1
            h = np.unique(np.r_[h, k])
            A = np.zeros((ref.ncomp(h), N))
            j = [ref.comps(h).index((c, k)) for c in 'cs']
            th = np.pi / Nt * k * rng.choice([1, 3])
            A[j] = np.outer([np.cos(th), np.sin(th)], Q[0]) * lev * 10.0 ** \
                rng.uniform(0, 1)
            U = ref.vec(A)
        if rep == 2:        # certainly stuck (all sliders)
            small = lim * 1e-3 if kind in ('jenkins', 'vjenkins') else \
                el.par['model'].phi.min() * kt * 1e-3
            A = ref.mat(U, N, h)
            A[1 * (h[0] == 0):] *= min(1.0, small / kt / (
                np.abs(A).sum() * np.abs(Q).max() * 4))
            U = ref.vec(A)
        w = float(rng.uniform(.2, 3))
        u, f = local(el, U, w, h, Nt, N)
        ctx.check(u.shape == (Nt, 1) and f.shape == (Nt, 1), 'shape of the '
                  'local history')
        big = np.abs(f).max()
        ctx.check(big <= lim * (1 + 1e-9), '%s force %.6g exceeds the slip '
                  'force %.6g' % (kind, big, lim))
        # the second term: rounding of a small motion about a large mean
        scale = big * (np.ptp(u) + 1e-300) + 1e-4 * Nt * np.ptp(
            f) * np.abs(u).max()
        W = float(trapezoid(u, f)[0])
        ctx.check(W >= -1e-10 * scale, '%s creates energy: %.3g of %.3g'
                  % (kind, W, scale), what='energy')
        F = el.obj.aft(U, w, h, Nt)[0]
        Wh = harmonic_work(el, U, F, w, h, N)
        path = np.abs(np.diff(np.r_[u[:, 0], u[0, 0]])).sum()
        ctx.check(Wh >= -20.0 / Nt * big * path - 1e-10, 'harmonic force of '
                  '%s creates energy: %.3g' % (kind, Wh), what='energy')
        if rep == 2:
            ctx.check(abs(W) <= 1e-9 * scale + 1e-14 * big * np.abs(u).max(),
                      '%s without slip dissipates %.3g of %.3g' % (
                          kind, W, scale))
            ctx.event('stuck')
        elif np.ptp(u) > 2.2 * (lim / kt if kind in ('jenkins', 'vjenkins')
                                else el.par['model'].pm):
            ctx.check(W > 0, '%s slips without dissipation' % kind)
            ctx.event('slip')
        ctx.cover(kind, 'W%d' % (W > 1e-9 * scale), 'rep%d' % rep)


def loop(ctx):
    """Closed-form dissipation of a slipping Jenkins cycle."""
    rng = ctx.rng
    kind = ['jenkins', 'vjenkins', 'jjenkins', 'jvjenkins'][ctx.index % 4]
    el = elems.make(rng, kind, 1, Q=np.eye(1), T=np.eye(1), lev=1.0)
    kt, Fs = el.par['kt'], el.par['Fs']
    A = Fs / kt * rng.uniform(0.3, 6)
    h = np.array([0, 1])
    Nt = 256
    th = rng.uniform(0, 2 * np.pi)
    mean = 0.0 if el.par['u0'] is not None and kind[0] == 'j' \
        and kind != 'jenkins' else float(rng.normal())
    U = np.array([mean, A * np.cos(th), A * np.sin(th)])
    F = np.asarray(el.obj.aft(U, 1.0, h, Nt)[0])
    W = np.pi * (U[2] * F[1] - U[1] * F[2])
    want = 4 * Fs * max(A - Fs / kt, 0.0)
    if el.par['u0'] not in (None, 0) and A < Fs / kt:
        want = None
    if want is not None:
        ctx.check(abs(W - want) <= 0.01 * Fs * A, '%s dissipates %.6g per '
                  'cycle, expected %.6g' % (kind, W, want))
    else:
        ctx.check(W >= -1e-2 * Fs * A, 'energy created')
    ctx.cover('loop', kind, 'slip%d' % (A > Fs / kt))


def contact(ctx):
    """Elastic dry friction and rough contact: Coulomb limit, no tension."""
    rng = ctx.rng
    pos = ctx.index % P
    prng, h, Nt = elems.pool(ctx.seed, 'C15', pos, nmax=3, hi=40, kmax=4,
                             zero=True)
    kind = ['eldry2', 'eldry3', 'roughTAN', 'roughMIF'][pos % 4]
    N = 3
    if kind[:5] == 'rough':
        mat = elems.rough_material(prng)
        mat['model'] = kind[5:]
        Q, _ = gen.selector(rng, 3, N)
        Q = Q + 0.1 * np.eye(3)
        el = elems.make_rough(rng, mat, N, Q=Q, T=Q.T.copy())
        nt = 2
    else:
        nt = 1 if kind == 'eldry2' else 2
        # one or two contact points in one element
        nc = 1 + (pos // 4) % 2
        N = nc * (nt + 1) if nc > 1 else N
        Q, _ = gen.selector(rng, nc * (nt + 1), N)
        el = elems.make(rng, kind, N, m=1, Q=Q, T=Q.T.copy(), lev=1.0,
                        u0mode=str(rng.choice(['default', 'scalar', 'none'])))
    mu = el.par['mu']
    m = el.Q.shape[0]
    nrm = np.arange(nt, m, nt + 1)
    tan = np.setdiff1d(np.arange(m), nrm)
    for rep in range(3):
        U = elems.rough_motion(rng, el, h, N) if kind[:5] == 'rough' else \
            elems.motion(rng, N, h, 1.0)
        if rep == 1 and kind[:5] != 'rough':
            # constant normal load: dissipation inequality holds
            A = ref.mat(U, N, h) @ np.eye(N)
            Qn = el.Q[nrm]
            Pn = np.linalg.pinv(Qn)
            for j, (_, k) in enumerate(ref.comps(h)):
                A[j] -= Pn @ (Qn @ A[j])
                if not k:
                    A[j] += Pn @ (np.abs(rng.normal(size=len(nrm))) + 0.2
                                  + el.par['gap'])
            U = ref.vec(A)
        w = float(rng.uniform(.2, 3))
        u, f = local(el, U, w, h, Nt, N)
        fn, ft = f[:, nrm], f[:, tan]
        sz = max(np.abs(f).max(), 1e-300)
        ctx.check(fn.min() >= 0, '%s pulls: normal force %.6g' % (
            kind, fn.min()))
        # every tangential force against its own normal force
        fnt = np.repeat(fn, nt, axis=1)
        over = (np.abs(ft) - mu * fnt).max()
        ctx.check(over <= 1e-9 * sz, '%s friction exceeds its limit by %.3g '
                  '(size %.3g)' % (kind, over, sz))
        opn = fnt == 0
        if opn.any():
            ctx.check(not np.any(ft[opn]), '%s: friction while separated'
                      % kind)
            ctx.event('separated')
        if (~opn).any():
            ctx.event('closed')
        if len(nrm) > 1:
            ctx.event('several')
        if rep == 1 and kind[:5] != 'rough':
            W = trapezoid(u[:, tan], ft)
            scale = np.abs(ft).max() * np.abs(u).max() + 1e-300
            ctx.check(W.min() >= -1e-9 * scale, '%s creates energy under '
                      'constant normal load' % kind, what='energy')
            ctx.event('constant')
        ctx.cover(kind, 'open%d' % opn.any(), 'rep%d' % rep)
    # frictionless state has no friction force
    el.obj.set_prestress_mu()
    u, f = local(el, U, w, h, Nt, N)
    ctx.check(not np.any(f[:, tan]), 'friction with zero coefficient')
    el.obj.reset_real_mu()


def static(ctx):
    """Committed static load paths."""
    rng = ctx.rng
    kind = ['jenkins', 'iwan4', 'eldry2', 'eldry3', 'rough'][ctx.index % 5]
    pos = ctx.index % 10
    prng = np.random.default_rng([ctx.seed & 0xffffffff, 15, pos])
    d1 = {'eldry2': 2, 'eldry3': 3, 'rough': 3}.get(kind, 1)
    nc = 1 + (pos // 5) % 2 if kind[:5] == 'eldry' else 1
    m = d1 * nc
    N = max(3, m)
    if kind == 'rough':
        mat = elems.rough_material(prng)
        mat['model'] = ['TAN', 'MIF'][(pos // 5) % 2]
        el = elems.make_rough(rng, mat, N, Q=np.eye(3), T=np.eye(3))
        lev = np.array([.05, .05, 1]) * el.par['lev']
    else:
        Q = np.linalg.qr(rng.normal(size=(N, N)))[0][:m]
        el = elems.make(rng, kind, N, m=1, Q=Q, T=Q.T.copy(), lev=1.0)
        lev = np.ones(m)
    el.obj.init_history()
    corner = [rng.normal(size=m) * lev for _ in range(int(rng.integers(2, 5)))]
    if kind == 'rough':
        for c in corner:
            c[2] += rng.uniform(-.2, 1.5) * lev[2]
    nt = max(d1 - 1, 1)
    nrm = np.arange(nt, m, nt + 1)
    tan = np.setdiff1d(np.arange(m), nrm)
    hist_u, hist_f = [], []
    for lap in range(3):
        for c, d in zip(corner, corner[1:] + corner[:1]):
            for s in np.linspace(0, 1, 6)[1:]:
                ul = c + s * (d - c)
                X = el.Q.T @ ul
                if rng.random() < 0.3:
                    el.obj.force(X + rng.normal(size=N) * lev[0])
                F = np.asarray(el.obj.force(X, update_hist=True)[0])
                f = el.Q @ F
                if lap == 2:
                    hist_u.append(ul)
                    hist_f.append(f)
                if m == 1:
                    ctx.check(abs(f[0]) <= el.par['lim'] * (1 + 1e-9),
                              '%s force exceeds the slip force' % kind)
                else:
                    sz = np.abs(f).max()
                    ctx.check(f[nrm].min() >= -1e-9 * sz, 'contact pulls')
                    lim = el.par['mu'] * np.repeat(np.maximum(f[nrm], 0), nt)
                    ctx.check(np.all(np.abs(f[tan]) <= lim + 1e-9 * sz),
                              '%s friction exceeds its limit' % kind)
                    ctx.event('closed', int(f[nrm].max() > 0))
                    ctx.event('mixed', int((f[nrm] > 0).any() and not (
                        f[nrm] > 1e-9 * sz).all()))
    u, f = np.array(hist_u), np.array(hist_f)
    if m == 1:
        W = float(trapezoid(u, f)[0])
        sc = np.abs(f).max() * np.ptp(u)
        ctx.check(W >= -1e-9 * sc, '%s creates energy on a closed static path'
                  % kind, what='energy')
    ctx.cover(kind, len(corner))


def conservative(ctx):
    """Springs return all the work, dampers only take."""
    rng = ctx.rng
    kind = ['cubic', 'quintic', 'cubdamp', 'uni', 'iwanbb'][ctx.index % 5]
    N = int(rng.integers(1, 4))
    m = int(rng.integers(1, 4))
    Q, _ = gen.selector(rng, m, N)
    lev = 10.0 ** rng.uniform(-1, 0.5)
    el = elems.make(rng, kind, N, Q=Q, T=Q.T.copy(), lev=lev)
    h = gen.harmonics(rng, kmax=4, nmax=4)
    # no aliasing of polynomial work
    Nt = 6 * int(max(h)) + 2 if kind in ('cubic', 'quintic', 'cubdamp') \
        else 4096
    Nt += Nt % 2
    U = elems.motion(rng, N, h, lev)
    w = float(rng.uniform(.2, 3))
    F = el.obj.aft(U, w, h, Nt)[0]
    W = harmonic_work(el, U, F, w, h, N)
    sc = float(np.abs(U).sum() * np.abs(F).max()) * max(h) + 1e-300
    if kind == 'cubdamp':
        ctx.check(W >= -1e-10 * sc, 'damper creates energy', what='energy')
        if np.any(U[N * (h[0] == 0):]) and np.abs(F).max() > 0:
            ctx.check(W > 0, 'damper does not dissipate', what='energy')
    else:
        tol = 1e-9 if kind in ('cubic', 'quintic') else 2e-3
        ctx.check(abs(W) <= tol * sc, '%s dissipates %.3g of %.3g' % (
            kind, W, sc), what='energy')
    # same motion traversed backwards (sine components reversed)
    B = ref.mat(U, N, h).copy()
    for j, (c, k) in enumerate(ref.comps(h)):
        if c == 's':
            B[j] *= -1
    F2 = ref.mat(np.asarray(el.obj.aft(ref.vec(B), w, h, Nt)[0]), N, h)
    G = ref.mat(np.asarray(F), N, h).copy()
    for j, (c, k) in enumerate(ref.comps(h)):
        if (c == 's') != (kind == 'cubdamp'):
            G[j] *= -1
    ctx.close(F2, G, '%s: reversed motion' % kind, rtol=1e-9,
              scale=np.abs(G).max() + 1e-12)
    ctx.cover(kind, 'm%d' % m)


GROUPS = {
    'scalar': Group(scalar, 860, 4000, {'energy': 4, 'stuck': 0.8,
                                        'slip': 0.2}),
    'loop': Group(loop, 60, 1000, {'check': 0.9}),
    'contact': Group(contact, 210, 2000, {'check': 6, 'separated': 0.2,
                                         'closed': 1, 'constant': 0.3}),
    'static': Group(static, 80, 1600, {'check': 30, 'energy': 0.3,
                                       'closed': 3}),
    'conservative': Group(conservative, 720, 2160, {'energy': 0.9}),
}
SHARDS = 6
