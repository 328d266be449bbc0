"""C13 Additivity over elements and purity of evaluations."""
import copy
import numpy as np
from vlib import elems, forms, gen, ref
from vlib.run import Group

ID = 'C13'
RULE = ('random systems with up to five elements of all types: system forces '
        'and derivatives against the sum of the element ones, all insertion '
        'orders of a random sample, split elements; random interleavings of '
        'residual and force evaluations with different lists, sample counts '
        'and amplitudes, each compared with its first value and with the '
        'value of an untouched copy of the system')
ASSUMPTIONS = ['float64 arithmetic', 'static evaluations of elements with '
               'memory are the subject of C14']
NP = elems.INST + elems.HYST


def build(rng, S, els):
    from tmdsimpy.vibration_system import VibrationSystem
    s = VibrationSystem(S.M, S.K, S.C) if S.ab is None else \
        VibrationSystem(S.M, S.K, ab=list(S.ab))
    for e in els:
        s.add_nl_force(e.obj)
    return s


def _sum(ctx, S, h, Nt, tag, tr=False):
    rng = ctx.rng
    lev = S.lev
    U = elems.motion(rng, S.N, h, lev)
    if rng.random() < 0.1:       # everything or some coordinates at rest
        U = U * (0.0 if rng.random() < 0.5 else
                 np.tile(rng.integers(0, 2, S.N), ref.ncomp(h)))
    w = float(rng.uniform(0.2, 3))
    n = U.size
    F, dU, dw = np.zeros(n), np.zeros((n, n)), np.zeros(n)
    s1, s2, s3 = 1e-300, 1e-300, 1e-300
    for e in S.els:
        a, b, c = e.obj.aft(U, w, h, Nt, 1e-7)
        F, dU, dw = F + a, dU + b, dw + c
        s1 += np.abs(a).max()
        s2 += np.abs(b).max()
        s3 += np.abs(c).max()
    keep = U.copy()
    perm = [S.els[i] for i in rng.permutation(len(S.els))]
    for s, what in ((S.obj, 'order of construction'),
                    (build(rng, S, perm), 'other order')):
        out = s.total_aft(U, w, h, **gen.ntkw(ctx.rng, Nt))
        msg = ' of %s (%s, %s)' % ([e.kind for e in S.els], what, tag)
        ctx.close(out[0], F, 'harmonic force' + msg, rtol=1e-11, scale=s1)
        ctx.close(out[1], dU, 'displacement derivative' + msg, rtol=1e-11,
                  scale=s2)
        ctx.close(out[2], dw, 'frequency derivative' + msg, rtol=1e-11,
                  scale=s3)
        g = s.total_aft(U, w, h, Nt=Nt, calc_grad=False)
        ctx.close(g[0], F, 'harmonic force without gradient' + msg,
                  rtol=1e-11, scale=s1)
    ctx.check(np.array_equal(U, keep), 'arguments modified')
    ctx.cover(tag, len(S.els), '+'.join(sorted(set(e.kind
                                                   for e in S.els))))


def additive(ctx):
    rng = ctx.rng
    S = forms.Sys(rng, nel=int(rng.integers(0, 6)), kinds=NP,
                  lev=10.0 ** rng.uniform(-1, .5))
    h = gen.harmonics(rng, kmax=5, nmax=4)
    _sum(ctx, S, h, gen.samples(rng, h, hi=40), 'numpy')


def additive_traced(ctx):
    rng = ctx.rng
    pos = ctx.index % 6
    prng, h, Nt = elems.pool(ctx.seed, 'C13', pos, nmax=3, hi=24, kmax=3,
                             zero=True)
    kinds = [str(k) for k in prng.choice(elems.JAX, 2, replace=False)]
    S = forms.Sys(rng, N=2, nel=0, lev=1.0)
    for k in kinds + [str(rng.choice(NP))]:
        e = elems.make(rng, k, 2, m=1, lev=1.0, u0mode=str(
            prng.choice(['default', 'scalar'])) if k in elems.JAX else None)
        S.els.append(e)
        S.obj.add_nl_force(e.obj)
    _sum(ctx, S, h, Nt, 'traced')


def split(ctx):
    """An element equals its parallel parts; an inactive one adds nothing."""
    from tmdsimpy.nlforces.cubic_stiffness import CubicForce
    from tmdsimpy.nlforces.quintic_stiffness import QuinticForce
    from tmdsimpy.nlforces.cubic_damping import CubicDamping
    from tmdsimpy.nlforces.unilateral_spring import UnilateralSpring
    from tmdsimpy.nlforces.jenkins_element import JenkinsForce
    rng = ctx.rng
    S = forms.Sys(rng, nel=0, lev=10.0 ** rng.uniform(-1, .5))
    N = S.N
    m = int(rng.integers(2, 4))
    Q, T = gen.selector(rng, m, N)
    kind = ctx.index % 5
    k = rng.uniform(0.1, 2, m)
    lim = S.lev * rng.uniform(0.1, 1)
    if kind < 3:
        C = [CubicForce, QuinticForce, CubicDamping][kind]
        whole = [C(Q, T, k)]
        a = rng.uniform(0.2, 0.8, m)
        parts = [C(Q, T, k * a), C(Q, T, k * (1 - a))]
        # one element per local coordinate
        cols = [C(Q[[j]], T[:, [j]], k[[j]]) for j in range(m)]
    elif kind == 3:
        d = rng.normal(size=m) * S.lev
        p = rng.uniform(0, 1, m)
        whole = [UnilateralSpring(Q, T, k, Npreload=p, delta=d)]
        parts = [UnilateralSpring(Q, T, k * .5, Npreload=p * .5, delta=d)] * 2
        cols = [UnilateralSpring(Q[[j]], T[:, [j]], k[[j]],
                                 Npreload=p[[j]], delta=d[[j]])
                for j in range(m)]
    else:
        Q, T = Q[[0]], T[:, [0]]
        whole = [JenkinsForce(Q, T, k[0], lim)]
        parts = [JenkinsForce(Q, T, k[0] * .25, lim * .25),
                 JenkinsForce(Q, T, k[0] * .75, lim * .75)]
        cols = parts[::-1]
    h = gen.harmonics(rng, kmax=5, nmax=4)
    Nt = gen.samples(rng, h, hi=40)
    U = elems.motion(rng, N, h, S.lev)
    w = float(rng.uniform(0.2, 3))
    from tmdsimpy.vibration_system import VibrationSystem
    res, stat, bare = [], [], []
    x = rng.normal(size=N) * S.lev
    for els in (whole, parts, cols):
        s = VibrationSystem(S.M, S.K, S.C)
        for e in els:
            s.add_nl_force(e)
        res.append(s.total_aft(U, w, h, Nt=Nt))
        bare.append(s.total_aft(U, w, h, Nt=Nt, calc_grad=False)[0])
        if kind != 2:
            s.init_force_history()
            stat.append(s.static_res(x, np.zeros(N)))
    # parts that cancel (a preload against the force at rest)
    rest = np.abs(Q).sum() * np.abs(ref.mat(U, N, h)).sum()
    rest = np.abs(T).max() * np.abs(k).max() * (rest + np.abs(d).max()) + \
        np.abs(T).max() * np.abs(p).max() if kind == 3 else 0.0
    for other in res[1:]:
        for i in range(3):
            ctx.close(other[i], res[0][i], 'parallel parts of element type %d'
                      % kind, rtol=1e-10,
                      scale=np.abs(res[0][i]).max() + 1e-9 * max(
                          1, S.lev ** 5) + (i == 0) * 1e-3 * rest)
    for other in bare:
        ctx.close(other, res[0][0], 'parallel parts of element type %d '
                  'without gradient' % kind, rtol=1e-10,
                  scale=np.abs(res[0][0]).max() + 1e-9 * max(1, S.lev ** 5)
                  + 1e-3 * rest)
    for other in stat[1:]:
        for i in range(2):
            ctx.close(other[i], stat[0][i], 'static parallel parts of element '
                      'type %d' % kind, rtol=1e-10,
                      scale=np.abs(stat[0][i]).max() + 1e-9)
    ctx.cover('split', kind)


def static_sum(ctx):
    rng = ctx.rng
    S = forms.Sys(rng, nel=int(rng.integers(0, 6)), lev=10.0 ** rng.uniform(
        -1, .5), kinds=['cubic', 'quintic', 'poly', 'uni', 'iwanbb',
                        'jenkins', 'iwan4'])
    N = S.N
    S.obj.init_force_history()
    x = rng.normal(size=N) * S.lev
    if rng.random() < .1:
        x = rng.integers(-2, 3, N)
    F0 = rng.normal(size=N)
    if rng.random() < .2:                # close to rest
        s = 10.0 ** rng.uniform(-16, -3) * (rng.random() < .8)
        x, F0 = x * s, F0 * s
    F, J = S.K @ x - F0, S.K.copy()
    s1 = np.abs(S.K).max() * np.abs(x).max() * N + np.abs(F0).max() + 1e-300
    s2 = np.abs(S.K).max()
    for e in S.els:
        a, b = e.obj.force(x)
        F, J = F + a, J + b
        s1 += np.abs(a).max()
        s2 += np.abs(b).max()
    perm = [S.els[i] for i in rng.permutation(len(S.els))]
    for s in (S.obj, build(rng, S, perm)):
        R, dR = s.static_res(x, F0)
        ctx.close(R, F, 'static residual', rtol=1e-12, scale=s1)
        ctx.close(dR, J, 'static derivative', rtol=1e-12, scale=s2)
    ctx.cover('static', len(S.els))


def purity(ctx):
    """Random interleavings of evaluations on one system."""
    rng = ctx.rng
    S = forms.Sys(rng, N=int(rng.integers(1, 4)), kinds=NP,
                  nel=int(rng.integers(1, 4)), lev=0.7)
    fresh = copy.deepcopy(S.obj)
    inst = all(not e.hyst for e in S.els)
    snap = {k: np.array(getattr(S.obj, k)) for k in 'MKC'}
    ab = None if S.obj.ab is None else list(S.obj.ab)
    calls = []
    names = [n for n in forms.FORMS if not (n == 'base' and S.N == 1)]
    for k in range(int(rng.integers(3, 6))):
        nm = str(rng.choice(names))
        f = forms.make(rng, S, nm)
        calls.append((nm, f.call, f.x, f))
    h = gen.harmonics(rng, kmax=4, nmax=3)
    Nt = gen.samples(rng, h, hi=32)
    U = elems.motion(rng, S.N, h, S.lev)
    calls.append(('total', lambda x, g: S.obj.total_aft(
        x, 1.3, h, Nt=Nt, calc_grad=g), U, None))
    if inst:
        F0 = rng.normal(size=S.N)
        calls.append(('static', lambda x, g: S.obj.static_res(x, F0),
                      rng.normal(size=S.N), None))
    nfirst = {}
    order = rng.integers(0, len(calls), size=22)
    for step, i in enumerate(order):
        nm, call, x, f = calls[i]
        keep = x.copy()
        args = [] if f is None else [np.array(a) for a in f.kw['args']
                                     if a is not None]
        g = bool(rng.random() < 0.6) or nm == 'base'
        with np.errstate(all='ignore'):
            out = call(x, g)
        out = [np.asarray(o, float) for o in out]
        ctx.check(np.array_equal(keep, x), 'unknowns modified by ' + nm)
        if f is not None:
            now = [np.array(a) for a in f.kw['args'] if a is not None]
            ctx.check(all(np.array_equal(a, b) for a, b in zip(args, now)),
                      'arguments of %s modified' % nm)
        old = nfirst.setdefault(i, [None] * 3)
        for j, o in enumerate(out):
            if old[j] is None:
                old[j] = o.copy()
            else:
                ctx.check(o.shape == old[j].shape and np.allclose(
                    o, old[j], rtol=1e-12, atol=1e-12 * (
                        1e-300 + np.nanmax(np.abs(old[j]), initial=0)),
                    equal_nan=True), 'evaluation %d: result %d of %s changed '
                    'between calls (elements %s)' % (
                        step, j, nm, [e.kind for e in S.els]))
                ctx.event('repeat')
        for k in 'MKC':
            ctx.check(np.array_equal(getattr(S.obj, k), snap[k]),
                      'matrix %s modified by %s' % (k, nm), what='matrix')
    ctx.check(ab == (None if S.obj.ab is None else list(S.obj.ab)),
              'damping coefficients modified')
    # values from an untouched copy
    obj = S.obj
    for i in nfirst:
        nm, call, x, f = calls[i]
        twin = copy.deepcopy(fresh)
        S.obj = twin
        if nm in ('total', 'static'):
            out = twin.total_aft(x, 1.3, h, Nt=Nt) if nm == 'total' else \
                twin.static_res(x, F0)
            for j, o in enumerate(out):
                if nfirst[i][j] is not None:
                    ctx.close(nfirst[i][j], o, '%s differs from the first '
                              'evaluation of a new system' % nm, rtol=1e-11,
                              scale=np.abs(o).max() + 1e-12)
                    ctx.event('twin')
    S.obj = obj
    ctx.cover('+'.join(sorted(set(e.kind for e in S.els))),
              '+'.join(sorted(set(calls[i][0] for i in order))))


def copies(ctx):
    """Two systems sharing arrays or elements do not influence each other."""
    from tmdsimpy.vibration_system import VibrationSystem
    rng = ctx.rng
    S = forms.Sys(rng, N=int(rng.integers(1, 4)), kinds=NP,
                  nel=int(rng.integers(1, 4)), lev=0.7)
    a = VibrationSystem(S.M, S.K, S.C)
    b = VibrationSystem(S.M, S.K, S.C)
    a.add_nl_force(S.els[0].obj)
    h = gen.harmonics(rng, kmax=4, nmax=3)
    Nt = gen.samples(rng, h, hi=32)
    U = elems.motion(rng, S.N, h, S.lev)
    z = b.total_aft(U, 1.1, h, Nt=Nt)
    ctx.check(all(not np.any(q) for q in z), 'system without elements has '
              'forces')
    one = a.total_aft(U, 1.1, h, Nt=Nt)[0]
    b.add_nl_force(S.els[-1].obj)
    ctx.close(a.total_aft(U, 1.1, h, Nt=Nt)[0], one, 'element added to '
              'another system changes this one', rtol=1e-12,
              scale=np.abs(one).max() + 1e-12)
    b.set_new_C(C=2 * S.C + np.eye(S.N))
    ctx.check(np.array_equal(a.C, S.C), 'damping of another system changed')
    ctx.cover('copies', S.els[0].kind)


GROUPS = {
    'additive': Group(additive, 750, 4000, {'check': 8}),
    'additive_traced': Group(additive_traced, 24, 400, {'check': 8}),
    'split': Group(split, 600, 2000, {'check': 5}),
    'static_sum': Group(static_sum, 480, 1500, {'check': 3}),
    'purity': Group(purity, 240, 1500, {'repeat': 10, 'twin': 0.3}),
    'copies': Group(copies, 240, 720, {'check': 2}),
}
SHARDS = 6
