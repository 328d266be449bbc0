"""C28 Results do not depend on the description of the same mechanics."""
import numpy as np
from vlib import elems, forms, gen, ref
from vlib.run import Group, Skip

ID = 'C28'
RULE = ('pairs of evaluations of the package on two descriptions of one '
        'mechanical problem: other coordinates or DOF numbering, uncoupled '
        'systems assembled in one, other force or time units, shifted time '
        'origin, a multiple of the fundamental period, unused harmonics '
        'added, mirrored motion; residuals and derivatives must transform '
        'accordingly (no reference model is used)')
ASSUMPTIONS = ['float64 arithmetic',
               'time shifts are whole samples; shifts and period multiples '
               'for memoryless, Jenkins and Iwan elements (whose steady state '
               'does not depend on the start when it starts at the mean)']
P = 8
KINDS = elems.INST + ['jenkins', 'vjenkins', 'iwan4', 'viwan4']


def build(M, C, K, els):
    from tmdsimpy.vibration_system import VibrationSystem
    s = VibrationSystem(M, K, C)
    for e in els:
        s.add_nl_force(e.obj)
    return s


def recipe(rng, N, kinds, nel, lev, jax=None, prng=None):
    """Element descriptions which can be built for other coordinates."""
    out = []
    for _ in range(nel):
        k = str(rng.choice(kinds))
        m = 1 if k in elems.HYST else int(rng.integers(1, 3))
        Q, T = gen.selector(rng, m, N)
        out.append((k, int(rng.integers(2 ** 31)), Q, T, None))
    if jax:
        if jax[:5] == 'rough':
            mat = elems.rough_material(prng)
            mat['model'] = jax[5:]
            out.append((jax, int(rng.integers(2 ** 31)), np.eye(3, N),
                        np.eye(N, 3), mat))
        else:
            m = {'eldry2': 2, 'eldry3': 3}.get(jax, 1)
            Q, T = gen.selector(rng, m, N)
            out.append((jax, int(rng.integers(2 ** 31)), Q, T, None))
    return out


def realize(rec, lev, Qmap=None, Tmap=None, scaleT=1.0):
    els = []
    for k, seed, Q, T, mat in rec:
        q = Q if Qmap is None else Q @ Qmap
        t = T if Tmap is None else Tmap @ T
        r = np.random.default_rng(seed)
        if mat is not None:
            els.append(elems.make_rough(r, mat, q.shape[1], Q=q,
                                        T=t * scaleT))
        else:
            els.append(elems.make(r, k, q.shape[1], m=1, lev=lev, Q=q,
                                  T=t * scaleT))
    return els


def size(M, C, K, U, w, h, extra=0.0):
    """Magnitude of everything that enters the equations."""
    hm = float(max(h))
    s = np.abs(U).max() * M.shape[0] * (
        np.abs(K).max() + hm * w * np.abs(C).max()
        + (hm * w) ** 2 * np.abs(M).max())
    return s + extra


def sizes(els, U, w, h, Nt):
    s = 0.0
    for el in els:
        if el.law is None:
            continue
        _, (Ul, u, Fh, f) = ref.aft(el.Q, el.T, U, w, h, Nt, el.law)
        s += np.abs(f).max() * max(1, np.abs(el.T).max()) * el.Q.shape[0]
        if el.kind == 'poly':
            s += el.par['bound'](np.abs(Ul).sum(0)) * max(
                1, np.abs(el.T).max()) * el.Q.shape[0]
    return s


def big(n, Pm):
    return np.kron(np.eye(n), Pm)


JAXES = [None, 'eldry2', 'roughTAN', None, 'jvjenkins', 'eldry3', 'roughMIF',
         'jjenkins']
NAMES = ['hbm', 'hbm_dFl', 'amp', 'amp_phase', 'amp_phase_dA', 'epmc',
         'vprnm', 'vprnm_amp_phase']


def evaluate(vs, name, U, p, Fl, h, Nt):
    """Residual form `name` with the parameters p."""
    kw = dict(Nt=Nt)
    w, rec, amp, o = p['w'], p['recov'], p['amp'], p['order']
    s, cs = p['s'], p['cs']
    if name == 'hbm':
        return vs.hbm_res(np.r_[U, w], Fl, h, **kw)
    if name == 'hbm_dFl':
        return vs.hbm_res_dFl(np.r_[U, s], w, Fl, h, **kw)
    if name == 'amp':
        return vs.hbm_amp_control_res(np.r_[U, s, w], Fl, h, rec, amp, o,
                                      **kw)
    if name == 'amp_phase':
        return vs.hbm_amp_phase_control_res(np.r_[U, cs, w], Fl, h, rec, amp,
                                            o, **kw)
    if name == 'amp_phase_dA':
        return vs.hbm_amp_phase_control_dA_res(np.r_[U, cs, amp], Fl, h, rec,
                                               w, o, **kw)
    if name == 'epmc':
        return vs.epmc_res(np.r_[U, w, p['xi'], p['la']], Fl, h, **kw)
    if p.get('phi') is not None:
        kw['superharmonic_filter'] = p['phi']
    if name == 'vprnm':
        return vs.vprnm_res(np.r_[U, w, s], h, p['rhi'], Fl, **kw)
    return vs.vprnm_amp_phase_res(np.r_[U, cs, w, amp], Fl, h, p['rhi'], rec,
                                  o, **kw)


def params(rng, N, h):
    up = [k for k in h if k > 1]
    return dict(w=float(rng.uniform(.3, 2)), recov=rng.normal(size=N),
                amp=float(rng.uniform(.2, 2)), order=int(rng.integers(0, 3)),
                s=float(rng.normal()), cs=rng.normal(size=2),
                xi=float(rng.normal() * .1), la=float(rng.uniform(-1, .5)),
                rhi=int(rng.choice(up)) if up else None,
                phi=rng.normal(size=N) if rng.random() < .5 else None)


def undefined(vs, U, p, h, Nt, N, M):
    """The phase-resonance row is a quotient: without superharmonic force or
    motion (up to rounding) it is not defined."""
    V = ref.mat(U, N, h)
    V[[j for j, (_, k) in enumerate(ref.comps(h)) if k >= p['rhi']]] = 0
    F = np.asarray(vs.total_aft(ref.vec(V), p['w'], h, Nt=Nt)[0])
    tot = np.abs(F).max()
    j = forms.hindex(h, p['rhi'])
    F, X = F.reshape(-1, N)[j:j + 2], ref.mat(U, N, h)[j:j + 2]
    if p['phi'] is not None:
        F, X = F @ p['phi'], X @ M.T @ p['phi']
    return not (np.linalg.norm(F) > 1e-5 * tot
                and np.linalg.norm(X) > 1e-5 * np.abs(U).max())


def compare(ctx, a, b, n, L, Rm, sc, msg, rtol=1e-8, jac=True):
    """Residual and derivatives of description b are those of a, mapped by L
    (rows) and Rm (unknowns) on the first n entries."""
    k = len(a[0]) - n
    Lf = np.block([[L, np.zeros((L.shape[0], k))],
                   [np.zeros((k, n)), np.eye(k)]])
    ctx.close(b[0], Lf @ np.asarray(a[0]), msg + ' residual', rtol=rtol,
              scale=sc, what='pair')
    if not jac:
        return
    Rf = np.block([[Rm, np.zeros((n, k))],
                   [np.zeros((k, Rm.shape[1])), np.eye(k)]])
    want = Lf @ np.asarray(a[1]) @ Rf
    ctx.close(b[1], want, msg + ' derivative', rtol=rtol,
              scale=max(np.abs(want).max(), np.abs(a[1]).max(), sc),
              what='pair')
    want = Lf @ np.asarray(a[2])
    ctx.close(b[2], want, msg + ' parameter derivative', rtol=rtol,
              scale=max(np.abs(want).max(), np.abs(a[2]).max(), sc),
              what='pair')


def moving(rng, els, N, h, lev):
    """With memory: no ties (repeated samples at the slip limit), where the
    derivative is one-sided."""
    style = str(rng.choice(['flat', 'decay', 'offset'])) if any(
        e.hyst for e in els) else None
    return elems.motion(rng, N, h, lev, style)


def coordinates(ctx):
    """x = P y: residuals of the transformed system are P^T times those of
    the original one."""
    rng = ctx.rng
    pos = ctx.index % P
    prng, h, Nt = elems.pool(ctx.seed, 'C28', pos, nmax=3, hi=32, kmax=4)
    h = np.array(sorted({int(k) for k in h} | {1, int(prng.integers(2, 4))}))
    Nt = max(Nt, 2 * int(max(h)) + 2)
    N = 3 if JAXES[pos] else int(rng.integers(2, 4))
    M, K, C, _ = gen.system(rng, N)
    lev = .4
    rec = recipe(rng, N, KINDS, int(rng.integers(0, 3)), lev, JAXES[pos],
                 prng)
    name = NAMES[(ctx.index // P + pos) % len(NAMES)]
    p = params(rng, N, h)
    kind = str(rng.choice(['permute', 'rotate', 'general']))
    if kind == 'permute':
        Pm = np.eye(N)[rng.permutation(N)]
    else:
        Pm = np.linalg.qr(rng.normal(size=(N, N)))[0]
        if kind == 'general' and (name[:5] != 'vprnm' or p['phi'] is not None):
            Pm = Pm * np.exp(rng.uniform(-.7, .7, N))
    els = realize(rec, lev)
    U = moving(rng, els, N, h, lev)
    if (JAXES[pos] or '')[:5] == 'rough':
        U = elems.rough_motion(rng, els[-1], h, N)
    Fl = rng.normal(size=U.size)
    a_sys = build(M, C, K, els)
    b_sys = build(Pm.T @ M @ Pm, Pm.T @ C @ Pm, Pm.T @ K @ Pm,
                  realize(rec, lev, Pm, Pm.T))
    nc = ref.ncomp(h)
    if name == 'epmc':
        p['la'] = float(rng.uniform(-.5, .3))
        if (JAXES[pos] or '')[:5] == 'rough':
            p['la'] = 0.0
    if name[:5] == 'vprnm' and undefined(a_sys, U, p, h, Nt, N, M):
        name = 'hbm'
    B, Bi = big(nc, Pm), big(nc, np.linalg.inv(Pm))
    q = dict(p)
    q['recov'] = Pm.T @ p['recov']
    if p['phi'] is not None:
        q['phi'] = np.linalg.solve(Pm, p['phi'])
    a = evaluate(a_sys, name, U, p, Fl, h, Nt)
    b = evaluate(b_sys, name, Bi @ U, q, B.T @ Fl, h, Nt)
    sc = size(M, C, K, U, p['w'] + abs(p['xi']), h, sizes(
        els, U * (10.0 ** max(0, p['la']) if name == 'epmc' else 1), p['w'],
        h, Nt)) * 3 + np.abs(np.asarray(a[0])).max() + np.abs(Fl).max() * (
        1 + abs(p['s']) + np.abs(p['cs']).max())
    sc *= 1 + np.abs(Pm).max()
    compare(ctx, a, b, U.size, B.T, B, sc, '%s %s %s %s' % (
        name, kind, [r[0] for r in rec], h), rtol=2e-7)
    ctx.cover(name, kind, JAXES[pos])


def assembled(ctx):
    """Uncoupled systems in one model: residuals of each are unchanged."""
    rng = ctx.rng
    pos = ctx.index % P
    prng, h, Nt = elems.pool(ctx.seed, 'C28b', pos, nmax=3, hi=32, kmax=4)
    lev = .4
    parts = []
    for j in range(2):
        N = 3 if j == 0 and JAXES[pos] else int(rng.integers(1, 3))
        M, K, C, _ = gen.system(rng, N)
        rec = recipe(rng, N, KINDS, int(rng.integers(0, 3)), lev,
                     JAXES[pos] if j == 0 else None, prng)
        parts.append((N, M, K, C, rec))
    n1, n2 = parts[0][0], parts[1][0]
    N = n1 + n2
    order = rng.permutation(N)
    sel = [np.sort(order[:n1]), np.sort(order[n1:])]
    M, K, C = np.zeros((N, N)), np.zeros((N, N)), np.zeros((N, N))
    nc = ref.ncomp(h)
    w = float(rng.uniform(.3, 2))
    A, F = np.zeros((nc, N)), rng.normal(size=(nc, N))
    both, single = [], []
    for j, (n, m, k, c, rec) in enumerate(parts):
        ix = np.ix_(sel[j], sel[j])
        M[ix], K[ix], C[ix] = m, k, c
        E = np.eye(N)[sel[j]]
        both += [(r[0], r[1], r[2] @ E, E.T @ r[3], r[4]) for r in rec]
        single.append(realize(rec, lev))
        U = moving(rng, single[j], n, h, lev)
        if j == 0 and (JAXES[pos] or '')[:5] == 'rough':
            U = elems.rough_motion(rng, single[0][-1], h, n)
        A[:, sel[j]] = ref.mat(U, n, h)
    els = realize(both, lev)
    perm = rng.permutation(len(els))
    vs = build(M, C, K, [els[i] for i in perm])
    r = vs.hbm_res(np.r_[ref.vec(A), w], ref.vec(F), h, Nt=Nt)
    R = np.asarray(r[0]).reshape(nc, N)
    J = np.asarray(r[1]).reshape(nc, N, nc, N)
    for j, (n, m, k, c, rec) in enumerate(parts):
        one = build(m, c, k, single[j])
        U = ref.vec(A[:, sel[j]])
        o = one.hbm_res(np.r_[U, w], ref.vec(F[:, sel[j]]), h, Nt=Nt)
        sc = size(m, c, k, U, w, h, sizes(single[j], U, w, h, Nt)) \
            + np.abs(F).max() + np.abs(np.asarray(o[0])).max()
        ctx.close(R[:, sel[j]].ravel(), o[0], 'part %d of an assembled '
                  'system' % j, rtol=1e-9, scale=sc, what='pair')
        ctx.close(J[:, sel[j]][:, :, :, sel[j]].reshape(nc * n, nc * n), o[1],
                  'derivative of part %d' % j, rtol=1e-8,
                  scale=max(sc, np.abs(np.asarray(o[1])).max()), what='pair')
        ctx.check(not np.any(J[:, sel[j]][:, :, :, sel[1 - j]]),
                  'uncoupled parts influence each other', what='pair')
        ctx.close(np.asarray(r[2]).reshape(nc, N)[:, sel[j]].ravel(), o[2],
                  'frequency derivative of part %d' % j, rtol=1e-8,
                  scale=max(sc, np.abs(np.asarray(o[2])).max()), what='pair')
    ctx.cover('assembled', n1, n2, JAXES[pos], len(els))


def plain(rng, kinds, lev=.4, nmax=4, one=None, N=None):
    N = N or int(rng.integers(1, 4))
    M, K, C, _ = gen.system(rng, N)
    rec = recipe(rng, N, kinds, int(rng.integers(1, 4)), lev)
    h = gen.harmonics(rng, kmax=5, nmax=nmax, one=one)
    return N, M, K, C, rec, h


def units(ctx):
    """Other units of force and time."""
    rng = ctx.rng
    lev = .4
    N, M, K, C, rec, h = plain(rng, [k for k in KINDS if k != 'cubdamp'],
                               one=True)
    if max(h) < 2:
        h = np.append(h, 3)
    Nt = gen.samples(rng, h, hi=48)
    els = realize(rec, lev)
    U = elems.motion(rng, N, h, lev)
    Fl = rng.normal(size=U.size)
    p = params(rng, N, h)
    a_sys = build(M, C, K, els)
    g, s = float(np.exp(rng.uniform(-3, 3))), float(np.exp(rng.uniform(-2, 2)))
    b_sys = build(M * g / s ** 2, C * g / s, K * g,
                  realize(rec, lev, scaleT=g))
    name = [k for k in NAMES if k != 'epmc'][ctx.index % 7]
    if name[:5] == 'vprnm' and undefined(a_sys, U, p, h, Nt, N, M):
        name = 'hbm'
    q = dict(p, w=p['w'] * s, amp=p['amp'] * s ** p['order'])
    a = evaluate(a_sys, name, U, p, Fl, h, Nt)
    b = evaluate(b_sys, name, U, q, Fl * g, h, Nt)
    n = U.size
    R = np.array(a[0])
    R[:n] *= g
    if name == 'amp':
        R[n] *= s ** (2 * p['order'])
    elif 'amp_phase' in name:
        R[n:n + 2] *= s ** p['order']
    sc = size(M, C, K, U, p['w'], h, sizes(els, U, p['w'], h, Nt)) \
        + np.abs(Fl).max() * (1 + abs(p['s']) + np.abs(p['cs']).max()) \
        + np.abs(np.asarray(a[0])).max()
    ctl = (p['w'] * s) ** p['order'] * np.abs(U).max() * N * 3 * (
        1 + np.abs(p['recov']).max()) + q['amp']
    row = np.r_[np.full(n, g * sc), np.abs(R[n:]) + ctl + ctl ** 2 + 1]
    ctx.close(b[0] / row, R / row, '%s in other units %s' % (
        name, [r[0] for r in rec]), rtol=1e-9, scale=1.0, what='pair')
    ctx.cover('units', name)


def rotate(h, N, d):
    """Matrix which shifts the time origin by phase d of the fundamental."""
    nc = ref.ncomp(h)
    D = np.eye(nc)
    for j, (c, k) in enumerate(ref.comps(h)):
        if k and c == 'c':
            D[j:j + 2, j:j + 2] = [[np.cos(k * d), np.sin(k * d)],
                                   [-np.sin(k * d), np.cos(k * d)]]
    return np.kron(D, np.eye(N))


def shifted(ctx):
    """Another time origin."""
    rng = ctx.rng
    lev = .4
    N, M, K, C, rec, h = plain(rng, KINDS)
    Nt = gen.samples(rng, h, hi=64)
    els = realize(rec, lev)
    U = elems.motion(rng, N, h, lev)
    Fl = rng.normal(size=U.size)
    w = float(rng.uniform(.3, 2))
    D = rotate(h, N, 2 * np.pi * int(rng.integers(1, Nt)) / Nt)
    vs = build(M, C, K, els)
    a = vs.hbm_res(np.r_[U, w], Fl, h, Nt=Nt)
    b = vs.hbm_res(np.r_[D @ U, w], D @ Fl, h, Nt=Nt)
    sc = size(M, C, K, U, w, h, sizes(els, U, w, h, Nt)) + np.abs(Fl).max()
    hyst = any(e.hyst for e in els)
    compare(ctx, a, b, U.size, D, D.T, sc, 'shifted origin %s' % (
        [r[0] for r in rec]), rtol=1e-6 if hyst else 1e-9, jac=not any(
            e.kind in ('iwanbb', 'uni') or e.hyst for e in els))
    ctx.cover('shift', 'hyst%d' % hyst, '+'.join(sorted({r[0] for r in rec})))


def multiple(ctx):
    """The same motion with a multiple of its period as fundamental, and
    with unused harmonics in the list."""
    rng = ctx.rng
    lev = .4
    N, M, K, C, rec, h = plain(rng, KINDS, nmax=3)
    Nt = gen.samples(rng, h, hi=40)
    els = realize(rec, lev)
    U = elems.motion(rng, N, h, lev)
    Fl = rng.normal(size=U.size)
    w = float(rng.uniform(.3, 2))
    vs = build(M, C, K, els)
    a = vs.hbm_res(np.r_[U, w], Fl, h, Nt=Nt)
    n = int(rng.integers(2, 4))
    sc = size(M, C, K, U, w, h, sizes(els, U, w, h, Nt)) + np.abs(Fl).max()
    hyst = any(e.hyst for e in els)
    rtol = 1e-6 if hyst else 1e-9
    b = vs.hbm_res(np.r_[U, w / n], Fl, np.asarray(h) * n, Nt=Nt * n)
    jac = not any(e.kind in ('iwanbb', 'uni') or e.hyst for e in els)
    ctx.close(b[0], a[0], 'multiple of the period', rtol=rtol, scale=sc,
              what='pair')
    if jac:
        ctx.close(b[1], a[1], 'derivative at a multiple of the period',
                  rtol=rtol, scale=max(sc, np.abs(a[1]).max()), what='pair')
        ctx.close(b[2], n * np.asarray(a[2]), 'frequency derivative at a '
                  'multiple of the period', rtol=rtol,
                  scale=n * max(sc, np.abs(a[2]).max()), what='pair')
    # unused harmonics
    room = Nt // 2 - 1
    new = sorted(set(int(k) for k in h) | {int(k) for k in rng.integers(
        0, room, 3)} - {0} | ({0} if h[0] == 0 else set()))
    h2 = np.array(new)
    idx = []
    for c in ref.comps(h):
        j = ref.comps(h2).index(c)
        idx += list(range(j * N, j * N + N))
    V = np.zeros(ref.ncomp(h2) * N)
    G = np.zeros(V.size)
    V[idx], G[idx] = U, Fl
    b = vs.hbm_res(np.r_[V, w], G, h2, Nt=Nt)
    sc = max(sc, size(M, C, K, V, w, h2))
    ctx.close(np.asarray(b[0])[idx], a[0], 'unused harmonics change the '
              'others %s -> %s' % (h, h2), rtol=rtol, scale=sc, what='pair')
    if jac:
        ctx.close(np.asarray(b[1])[np.ix_(idx, idx)], a[1], 'unused harmonics '
                  'change the derivative', rtol=rtol,
                  scale=max(sc, np.abs(b[1]).max()), what='pair')
    ctx.cover('multiple', n, len(h2) - len(h), 'hyst%d' % hyst)


ODD = ['cubic', 'quintic', 'cubdamp', 'iwanbb', 'jenkins', 'vjenkins',
       'iwan4', 'viwan4']


def mirrored(ctx):
    """Elements without preferred direction: mirrored load, mirrored motion;
    memoryless conservative ones: time may run backwards."""
    rng = ctx.rng
    lev = .4
    N, M, K, C, rec, h = plain(rng, ODD)
    Nt = gen.samples(rng, h, hi=64)
    els = realize(rec, lev)
    U = elems.motion(rng, N, h, lev)
    Fl = rng.normal(size=U.size)
    w = float(rng.uniform(.3, 2))
    vs = build(M, C, K, els)
    sc = size(M, C, K, U, w, h, sizes(els, U, w, h, Nt)) + np.abs(Fl).max()
    a = vs.hbm_res(np.r_[U, w], Fl, h, Nt=Nt)
    b = vs.hbm_res(np.r_[-U, w], -Fl, h, Nt=Nt)
    ctx.close(b[0], -np.asarray(a[0]), 'mirrored motion %s' % (
        [r[0] for r in rec]), rtol=1e-9, scale=sc, what='pair')
    ctx.close(b[1], a[1], 'derivative of the mirrored motion', rtol=1e-9,
              scale=max(sc, np.abs(a[1]).max()), what='pair')
    ctx.close(b[2], -np.asarray(a[2]), 'frequency derivative of the mirrored '
              'motion', rtol=1e-9, scale=max(sc, np.abs(a[2]).max()),
              what='pair')
    rec = recipe(rng, N, ['cubic', 'quintic', 'poly', 'uni', 'iwanbb'],
                 int(rng.integers(1, 3)), lev)
    els = realize(rec, lev)
    sg = np.concatenate([np.full(N, -1.0 if c == 's' else 1.0)
                         for c, k in ref.comps(h)])
    a = build(M, C, K, els).hbm_res(np.r_[U, w], Fl, h, Nt=Nt)
    b = build(M, -C, K, els).hbm_res(np.r_[sg * U, w], sg * Fl, h, Nt=Nt)
    sc += sizes(els, U, w, h, Nt)
    ctx.close(b[0], sg * np.asarray(a[0]), 'reversed time %s' % (
        [r[0] for r in rec]), rtol=1e-9, scale=sc, what='pair')
    ctx.cover('mirror', 'h0' if h[0] == 0 else 'no0',
              '+'.join(sorted({r[0] for r in rec})))


def others(ctx):
    """Coordinates of linear responses and static residuals."""
    from tmdsimpy.solvers import NonlinearSolver
    from tmdsimpy.vibration_system import VibrationSystem
    rng = ctx.rng
    lev = .4
    N = int(rng.integers(2, 5))
    M, K, C, ab = gen.system(rng, N, 'ab')
    lam = np.sort(np.linalg.eigvals(np.linalg.solve(M, K)).real)
    if np.diff(lam).min() < .02:
        raise Skip('close modes')
    rec = recipe(rng, N, ['cubic', 'quintic', 'poly'], int(rng.integers(0, 3)),
                 lev)
    kind = str(rng.choice(['permute', 'rotate', 'general']))
    Pm = np.eye(N)[rng.permutation(N)]
    if kind != 'permute':
        Pm = np.linalg.qr(rng.normal(size=(N, N)))[0]
    if kind == 'general':
        Pm = Pm * np.exp(rng.uniform(-.7, .7, N))

    def make(M, K, els):
        s = VibrationSystem(M, K, ab=list(ab))
        for e in els:
            s.add_nl_force(e.obj)
        return s

    def sym(X):
        return .5 * (X + X.T)
    A = make(M, K, realize(rec, lev))
    B = make(sym(Pm.T @ M @ Pm), sym(Pm.T @ K @ Pm),
             realize(rec, lev, Pm, Pm.T))
    # linear response
    w = rng.uniform(.2, 2, 4)
    Fc, Fs = rng.normal(size=N), rng.normal(size=N)
    loads = int(rng.integers(4))
    if loads == 1:                      # loads on some coordinates only
        Fc = Fc * (rng.random(N) < .5)
        Fs = Fs * (rng.random(N) < .5)
    elif loads == 2:                    # each part on one coordinate
        Fc = Fc * np.eye(N)[rng.integers(N)]
        Fs = Fs * np.eye(N)[rng.integers(N)]
    neigs = int(rng.integers(1, N + 1))
    sol = NonlinearSolver()
    Xa = A.linear_frf(w, Fc, sol, neigs=neigs, Flsin=Fs)
    Xb = B.linear_frf(w, Pm.T @ Fc, sol, neigs=neigs, Flsin=Pm.T @ Fs)
    D = np.block([[Pm, np.zeros((N, N)), np.zeros((N, 1))],
                  [np.zeros((N, N)), Pm, np.zeros((N, 1))],
                  [np.zeros((1, 2 * N)), np.ones((1, 1))]])
    ctx.close(Xb @ D.T, Xa, 'frequency response in other coordinates',
              rtol=1e-7, what='pair')
    # static residual
    x, F = rng.normal(size=N) * lev, rng.normal(size=N)
    y = np.linalg.solve(Pm, x)
    Ra, Ja = A.static_res(x, F)
    Rb, Jb = B.static_res(y, Pm.T @ F)
    sc = np.abs(Ja).max() * np.abs(x).max() * N * 4 + np.abs(F).max() + sum(
        np.abs(e.T).max() * e.par['bound'](np.abs(e.Q @ x))
        for e in realize(rec, lev) if e.kind == 'poly')
    ctx.close(Rb, Pm.T @ Ra, 'static residual in other coordinates',
              rtol=1e-8, scale=sc, what='pair')
    ctx.close(Jb, Pm.T @ Ja @ Pm, 'static derivative in other coordinates',
              rtol=1e-8, scale=(sc / np.abs(x).max() + np.abs(Ja).max()) * 4,
              what='pair')
    ctx.cover('others', kind, N, neigs)


GROUPS = {
    'coordinates': Group(coordinates, 96, 1600, {'pair': 2.5}),
    'assembled': Group(assembled, 48, 800, {'pair': 5}),
    'units': Group(units, 500, 1500, {'pair': .9}),
    'shifted': Group(shifted, 480, 1440, {'pair': .9}),
    'multiple': Group(multiple, 480, 1440, {'pair': 1.5}),
    'mirrored': Group(mirrored, 480, 1440, {'pair': 3}),
    'others': Group(others, 360, 1080, {'pair': 2}),
}
SHARDS = 8
