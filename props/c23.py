"""C23 Predicted harmonic solutions."""
import numpy as np
from scipy.linalg import eigh
from vlib import elems, forms, gen, ref
from vlib.run import Group, Skip

ID = 'C23'
RULE = ('random systems, forces, harmonic lists, control points and numbers of '
        'modes; predictions for every supported equation compared with a '
        'direct solve (or the truncated modal sum) of the linear equations '
        'and inserted into the residual they are predictions for, which must '
        'vanish for linear systems; superharmonic predictions against the '
        'independent nonlinear force of the predicted motion')
ASSUMPTIONS = ['float64 arithmetic', 'proportional damping and harmonic 1 in '
               'the list, as documented']
EQ = ['HBM', 'HBM_AMP', 'HBM_AMP_PHASE', 'VPRNM_AMP_PHASE']


def response(M, K, ab, w, fc, fs, m):
    """Cosine/sine response with the first m modes."""
    lam, V = eigh(K, M)
    lam, V = lam[:m], V[:, :m]
    d = lam - w * w + 1j * w * (ab[0] + ab[1] * lam)
    X = V @ ((V.T @ (fc - 1j * fs)) / d)
    return X.real, -X.imag


def setup(ctx, eq):
    from tmdsimpy.vibration_system import VibrationSystem
    from tmdsimpy.solvers import NonlinearSolver
    from tmdsimpy.jax.solvers import NonlinearSolverOMP
    rng = ctx.rng
    N = gen.dofs(rng, 5, huge=.012)
    M, K, C, ab = gen.system(rng, N, 'ab')
    vs = VibrationSystem(M, K, ab=list(ab))
    h = gen.harmonics(rng, kmax=6, nmax=4, one=True)
    if eq[0] == 'V' and max(h) < 2:
        h = np.append(h, int(rng.integers(2, 6)))
    nc = ref.ncomp(h)
    w = float(rng.uniform(0.2, 3))
    i1 = forms.hindex(h, 1)
    Fl = rng.normal(size=nc * N) * 10.0 ** (
        rng.uniform(-2, 2) if rng.random() < .7 else rng.uniform(-12, 9))
    s = (i1 + 1) * N
    if eq not in ('HBM', 'HBM_AMP') or rng.random() < .3:
        Fl[s:s + N] = 0
    full = Fl.copy()
    if rng.random() < .4:
        Fl = Fl[:s + N].copy()
    Fl, h = gen.dress(rng, Fl), gen.dress(rng, h)
    m = N if rng.random() < .6 or N < 2 else int(rng.integers(1, N))
    kw = {}
    if not (m == 3 and rng.random() < .5):
        kw['neigs'] = m
    Xs = None
    if rng.random() < .5:
        Xs = rng.normal(size=N)
    solver = NonlinearSolver() if rng.random() < .5 else NonlinearSolverOMP(
        config={'verbose': False})
    name = eq if rng.random() < .7 else eq.lower()
    return (N, M, K, ab, vs, h, nc, w, i1, Fl, full, m, kw, Xs, solver, name)


def linear(ctx):
    from tmdsimpy.utils.harmonic import predict_harmonic_solution
    rng = ctx.rng
    eq = EQ[ctx.index % 3]
    (N, M, K, ab, vs, h, nc, w, i1, Fl, full, m, kw, Xs, solver,
     name) = setup(ctx, eq)
    n, h0 = nc * N, int(h[0] == 0)
    rec = rng.normal(size=N)
    if rng.random() < .5:
        rec = np.zeros(N)
        rec[rng.integers(N)] = 1.0
    rec = gen.dress(rng, rec)
    order = int(rng.integers(0, 3))
    amp = float(10.0 ** (rng.uniform(-3, 2) if rng.random() < .7 else
                         rng.uniform(-15, 6)))
    fmag = float(rng.normal())
    if eq == 'HBM':
        kw['fmag'] = fmag
    else:
        kw.update(control_amp=amp, control_recov=rec, control_order=order)
        if rng.random() < .5:
            kw['fmag'] = fmag          # documented to have no effect
    if Xs is not None or rng.random() < .3:
        kw['Xstat'] = Xs
    if eq != 'HBM':
        uc, us = response(M, K, ab, w, full[i1 * N:(i1 + 1) * N], full[
            (i1 + 1) * N:(i1 + 2) * N], m)
        if np.hypot(rec @ uc, rec @ us) < 1e-6 * max(
                np.abs(uc).max(), np.abs(us).max()) or not np.any(uc):
            raise Skip('force does not move the control point')
    keep = [None if a is None else a.copy() for a in (Fl, rec, Xs, h, M, K)]
    x = predict_harmonic_solution(vs, w, Fl, h, solver, name, **kw)
    for a, b in zip(keep, (Fl, rec, Xs, h, M, K)):
        ctx.check(a is None or np.array_equal(a, b), 'arguments modified')
    ctx.check(vs.M is not None and np.array_equal(vs.M, M)
              and np.array_equal(vs.K, K), 'system modified')
    extra = {'HBM': 1, 'HBM_AMP': 2, 'HBM_AMP_PHASE': 3}[eq]
    msg = '%s h=%s N=%d modes=%d order=%d' % (eq, h, N, m, order)
    ctx.note(eq=eq, h=h, N=N, modes=m, order=order)
    ctx.check(x.shape == (n + extra,), 'length %s of the prediction, %d '
              'expected (%s)' % (x.shape, n + extra, msg))
    ctx.check(abs(x[-1] - w) <= 1e-14 * w, 'frequency of the prediction (%s)' % msg)
    # other harmonics are empty, the static part is the given one
    A = x[:n].reshape(nc, N)
    rest = np.delete(A, [i1, i1 + 1] + ([0] if h0 else []), axis=0)
    ctx.check(not np.any(rest), 'motion predicted in other harmonics (%s)'
              % msg)
    if h0:
        ctx.close(A[0], np.zeros(N) if Xs is None else Xs,
                  'static displacement (%s)' % msg, rtol=1e-14)
    fc, fs = full[i1 * N:(i1 + 1) * N], full[(i1 + 1) * N:(i1 + 2) * N]
    if eq == 'HBM':
        gc, gs = fmag * fc, fmag * fs
    elif eq == 'HBM_AMP':
        ctx.check(x[-2] > 0, 'force scaling %r' % x[-2])
        gc, gs = x[-2] * fc, x[-2] * fs
    else:
        gc, gs = x[n] * fc, x[n + 1] * fc
    uc, us = response(M, K, ab, w, gc, gs, m)
    sc = max(np.abs(uc).max(), np.abs(us).max())
    ctx.close(A[i1], uc, 'cosine response (%s)' % msg, rtol=1e-9, scale=sc)
    ctx.close(A[i1 + 1], us, 'sine response (%s)' % msg, rtol=1e-9, scale=sc)
    if eq != 'HBM':
        a = np.hypot(rec @ A[i1], rec @ A[i1 + 1]) * w ** order
        tol = 1e-12 * sc * np.abs(rec).sum() * w ** order
        ctx.close(a, amp, 'controlled amplitude (%s)' % msg, rtol=1e-9,
                  atol=tol)
    if eq == 'HBM_AMP_PHASE':
        ctx.close(rec @ A[i1 + 1], 0, 'phase of the response (%s)' % msg,
                  atol=1e-11 * sc * np.abs(rec).sum(), rtol=0)
        ctx.check(rec @ A[i1] > 0, 'sign of the response (%s)' % msg)
    # and the equation it was made for
    if m == N:
        Fq = np.zeros(n)
        Fq[i1 * N:(i1 + 2) * N] = full[i1 * N:(i1 + 2) * N]
        if h0 and Xs is not None:
            Fq[:N] = K @ Xs
        Nt = gen.samples(rng, h, hi=32)
        if eq == 'HBM':
            Fq[i1 * N:(i1 + 2) * N] *= fmag
            R = vs.hbm_res(x, Fq, h, Nt=Nt)[0]
        elif eq == 'HBM_AMP':
            R = vs.hbm_amp_control_res(x, Fq, h, rec, amp, order, Nt=Nt)[0]
        else:
            R = vs.hbm_amp_phase_control_res(x, Fq, h, rec, amp, order,
                                             Nt=Nt)[0]
        e = sc * (np.abs(K).sum() + w * w * np.abs(M).sum())
        ctx.close(R[:n], np.zeros(n), 'prediction is no solution of the '
                  'linear equations (%s)' % msg, rtol=0, atol=1e-9 * (
                      e + np.abs(Fq).max()), what='root')
        if eq != 'HBM':
            s1 = sc * np.abs(rec).sum() * w ** order
            k = 2 if eq == 'HBM_AMP' else 1
            ctx.close(R[n:], np.zeros(R.size - n), 'constraints at the '
                      'prediction (%s)' % msg, rtol=0,
                      atol=1e-9 * (amp ** k + s1 ** k))
    ctx.cover(eq, 'h0' if h0 else 'no0', 'N%d' % N, m == N)


def refuse(ctx):
    """Sine forces are refused where they are not supported."""
    from tmdsimpy.utils.harmonic import predict_harmonic_solution
    rng = ctx.rng
    eq = EQ[2 + ctx.index % 2]
    (N, M, K, ab, vs, h, nc, w, i1, Fl, full, m, kw, Xs, solver,
     name) = setup(ctx, eq)
    Fl = np.array(Fl)
    Fl[(i1 + 1) * N + int(rng.integers(N))] = float(rng.choice([1.0, -1e-3]))
    if rng.random() < .5 and N > 1:
        Fl[(i1 + 1) * N] = -Fl[(i1 + 1) * N:(i1 + 2) * N][1:].sum()
    if not np.any(Fl[(i1 + 1) * N:(i1 + 2) * N]):
        Fl[(i1 + 1) * N] = 1.0
    try:
        predict_harmonic_solution(
            vs, w, Fl, h, solver, name, control_amp=1.0, control_recov=np.ones(
                N), control_order=0, rhi=2, vib_sys_nl=vs, neigs=m)
    except AssertionError:
        ctx.event('refused')
    else:
        ctx.fail('sine force accepted by %s' % eq)
    ctx.cover('refuse', eq)


def superharmonic(ctx):
    from tmdsimpy.utils.harmonic import predict_harmonic_solution
    from tmdsimpy.vibration_system import VibrationSystem
    rng = ctx.rng
    eq = EQ[3]
    (N, M, K, ab, vs, h, nc, w, i1, Fl, full, m, kw, Xs, solver,
     name) = setup(ctx, eq)
    Fl = np.array(Fl)
    n, h0 = nc * N, int(h[0] == 0)
    rhi = int(rng.choice([k for k in h if k > 1]))
    rec = rng.normal(size=N)
    order = int(rng.integers(0, 3))
    amp = float(10.0 ** rng.uniform(-1, .5))
    # nonlinear system: other linear part, which must not matter
    M2, K2, C2, _ = gen.system(rng, N, None)
    vn = VibrationSystem(M2, K2, C2)
    els = []
    for _ in range(int(rng.integers(0, 3))):
        el = elems.make(rng, str(rng.choice(elems.INST + [
            'jenkins', 'vjenkins', 'iwan4'])), N, lev=1.0)
        els.append(el)
        vn.add_nl_force(el.obj)
    kw.update(control_amp=amp, control_recov=rec, control_order=order,
              rhi=rhi, vib_sys_nl=vn)
    if rng.random() < .5:
        kw['vprnm_calc_grad'] = bool(rng.random() < .5)
    if Xs is not None:
        kw['Xstat'] = Xs
    x = predict_harmonic_solution(vs, w, Fl, h, solver, name, **kw)
    msg = 'superharmonic %d h=%s N=%d modes=%d %s' % (
        rhi, h, N, m, [e.kind for e in els])
    ctx.note(h=h, N=N, rhi=rhi, modes=m, kinds=[e.kind for e in els])
    ctx.check(x.shape == (n + 4,), 'length %s of the prediction' % (x.shape,))
    ctx.check(x[-1] == amp and x[-2] == w, 'frequency and amplitude of the '
              'prediction (%s)' % msg)
    A = x[:n].reshape(nc, N)
    ir = forms.hindex(h, rhi)
    rest = np.delete(A, [i1, i1 + 1, ir, ir + 1] + ([0] if h0 else []),
                     axis=0)
    ctx.check(not np.any(rest), 'motion predicted in other harmonics (%s)'
              % msg)
    if h0:
        ctx.close(A[0], np.zeros(N) if Xs is None else Xs,
                  'static displacement (%s)' % msg, rtol=1e-14)
    fc = full[i1 * N:(i1 + 1) * N]
    uc, us = response(M, K, ab, w, x[n] * fc, x[n + 1] * fc, m)
    sc = max(np.abs(uc).max(), np.abs(us).max())
    ctx.close(np.r_[A[i1], A[i1 + 1]], np.r_[uc, us], 'first harmonic (%s)'
              % msg, rtol=1e-9, scale=sc)
    s1 = sc * np.abs(rec).sum() * w ** order
    ctx.close(rec @ A[i1] * w ** order, amp, 'controlled amplitude (%s)'
              % msg, rtol=1e-9, atol=1e-12 * s1)
    ctx.close(rec @ A[i1 + 1] * w ** order, 0, 'phase (%s)' % msg, rtol=0,
              atol=1e-9 * s1)
    U = np.zeros((nc, N))
    U[i1:i1 + 2] = A[i1:i1 + 2]
    if h0:
        U[0] = A[0]
    F = np.zeros(n)
    fs = 0.0
    for e in els:
        F = F + e.aft_ref(ref.vec(U), w, h, 128)
        _, (Ul, u, Fh, f) = ref.aft(e.Q, e.T, ref.vec(U), w, h, 128, e.law)
        fs += np.abs(f).max() * max(1., np.abs(e.T).max()) * N
        if e.kind == 'poly':
            fs += e.par['bound'](np.abs(Ul).sum(0)) * max(
                1., np.abs(e.T).max()) * N
    G = -F.reshape(nc, N)[ir:ir + 2]
    vc, vv = response(M, K, ab, rhi * w, G[0], G[1], m)
    lam = eigh(K, M, eigvals_only=True)[:m]
    d = np.abs(lam - (rhi * w) ** 2 + 1j * rhi * w * (
        ab[0] + ab[1] * lam)).min()
    ctx.close(np.r_[A[ir], A[ir + 1]], np.r_[vc, vv], 'superharmonic response '
              '(%s)' % msg, rtol=1e-8, atol=1e-11 * fs * N * np.abs(
                  np.linalg.inv(M)).max() / d, scale=np.abs(
                      np.r_[vc, vv]).max(), what='super')
    ctx.cover('super', rhi, 'h0' if h0 else 'no0', len(els), m == N)


GROUPS = {
    'linear': Group(linear, 2880, 60000, {'check': 8, 'root': 0.4}),
    'refuse': Group(refuse, 40, 2000, {'refused': 0.9}),
    'superharmonic': Group(superharmonic, 720, 6000, {'super': 0.9}),
}
SHARDS = 6
