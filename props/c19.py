"""C19 Continuation."""
import contextlib
import io
import warnings
import numpy as np
from vlib import gen
from vlib.run import Group, Skip

ID = 'C19'
RULE = ('random branches (linear, folded, closed, mixed scale, harmonic '
        'balance) followed with random step, scaling, corrector and retry '
        'options by a solver that fails, and miscounts evaluations, on '
        'schedule; every solver call, callback and residual is recorded and '
        'the run is replayed by a shadow state machine: step size, retries, '
        'direction, arc-length equation, termination, accepted points')
ASSUMPTIONS = ['float64 arithmetic', 'the solver proxy reports success only '
               'for small residuals, so that accepted points are roots']


class Branch:
    """fun(Xlam) -> R, dRdX, dRdlam with a log."""

    def __init__(self, rng, kind, n):
        self.kind, self.n = kind, n
        self.sc = 10.0 ** rng.uniform(-2, 2, n) if kind == 'scaled' \
            else np.ones(n)
        self.ls = 10.0 ** rng.uniform(-1, 1) if kind == 'scaled' else 1.0
        self.A = gen.spd(rng, n, 0.5, 3.0)
        self.g = rng.uniform(0.5, 2, n) * np.where(rng.random(n) < .5, -1, 1)
        self.q = rng.uniform(0.2, 1.5)
        self.p = rng.normal(size=n)
        self.calls = []
        self.explode = None

    def start(self):
        """(lam0, lam1, X guess)"""
        k = self.kind
        if k == 'circle':
            x = np.zeros(self.n)
            x[0] = np.sqrt(1 - .04)
            for i in range(1, self.n):
                x[i] = self.g[i] * x[0]
            return 0.2, 2.0, x * self.sc
        if k == 'fold':
            x = np.zeros(self.n)
            x[0] = -1.8
            x[1:] = self.g[1:] * x[0]
            return -2.0, 2.0, x * self.sc
        x = np.linalg.solve(self.A, self.g * 0.6 + self.p * .3)
        return 0.5 * self.ls, 4.0 * self.ls, x * self.sc

    def raw(self, z):
        x, lam = z[:-1] / self.sc, z[-1] / self.ls
        k, n = self.kind, self.n
        if k == 'circle':
            R = np.hstack([x[0] ** 2 + lam ** 2 - 1.0,
                           x[1:] - self.g[1:] * x[0]
                           - 0.1 * lam * self.p[1:]])
            J = np.eye(n)
            J[0, 0] = 2 * x[0]
            J[1:, 0] = -self.g[1:]
            dl = np.hstack([2 * lam, -0.1 * self.p[1:]])
        elif k == 'fold':
            R = np.hstack([x[0] ** 3 - 1.5 * x[0] - lam,
                           x[1:] - self.g[1:] * x[0]])
            J = np.eye(n)
            J[0, 0] = 3 * x[0] ** 2 - 1.5
            J[1:, 0] = -self.g[1:]
            dl = np.zeros(n)
            dl[0] = -1.0
        else:
            c = 0.0 if k == 'linear' else self.q
            R = self.A @ x + c * x ** 3 - self.g * lam - self.p * .3
            J = self.A + np.diag(3 * c * x ** 2)
            dl = -self.g * 1.0
        return R, J / self.sc, dl / self.ls

    def __call__(self, z, calc_grad=True):
        z = np.array(z, float)
        self.calls.append((z, bool(calc_grad)))
        if self.explode is not None and len(self.calls) > self.explode:
            raise FloatingPointError('injected')
        R, J, dl = self.raw(z)
        return (R, J, dl) if calc_grad else (R,)


def proxy(base, rng, plan, B, log, probe):
    """Subclass instance of a real solver with recorded, faulty nsolve."""
    cls = type(base)

    class Proxy(cls):
        def nsolve(self, fun, X0, **kw):
            i = len(log)
            keep = np.array(X0, float)
            X, R, J, sol = cls.nsolve(self, fun, X0, **kw)
            sol = dict(sol)
            X = np.asarray(X, float)
            # a reliable success claim
            z = np.asarray(fun(X)[0])
            real = bool(sol['success']) and np.all(np.isfinite(X)) and \
                np.abs(z).max() < 1e-6
            fault = plan.get(i)
            ok = real
            if fault == 'fail':
                ok = False
                X = [keep + 1, X, X * np.nan, np.zeros_like(X)][i % 4]
                X = np.array(X)
            elif isinstance(fault, int) and ok:
                sol['nfev'] = fault
            sol['success'] = ok
            if isinstance(sol.get('nfev'), (int, np.integer)) is False:
                sol['nfev'] = int(sol['nfev'])
            log.append(dict(X0=keep, X=np.array(X), ok=ok, nfev=sol['nfev'],
                            kw=dict(kw), fault=fault))
            if probe is not None:
                probe(i, fun, keep)
            return X, R, J, sol

    if cls.__name__ == 'NonlinearSolverOMP':
        return Proxy(config=base.config)
    return Proxy()


def settings(rng, kind, lam0, lam1):
    ds0 = float(rng.uniform(0.02, 0.3))
    cfg = {'verbose': int(rng.choice([-1, -1, -1, 0, 3])),
           'corrector': str(rng.choice(['Ortho', 'Pseudo', 'ortho',
                                        'PSEUDO'])),
           'MaxSteps': int(rng.choice([1, 2, 5, 15, 30]))}
    if rng.random() < .6:
        cfg['FracLam'] = float(rng.choice([0.0, 0.1, 0.5, 0.9, 1.0]))
    if rng.random() < .4:
        cfg['ds0'] = float(rng.uniform(0.02, 0.2))
    if rng.random() < .6:
        cfg['dsmax'] = float(rng.uniform(0.3, 1.0))
    if rng.random() < .6:
        cfg['dsmin'] = float(10.0 ** rng.uniform(-3, -1.7))
    if rng.random() < .5:
        cfg['TargetNfev'] = int(rng.integers(2, 30))
    if rng.random() < .4:
        cfg['MaxIncrease'] = float(rng.uniform(1.0, 2.0))
    if rng.random() < .4:
        cfg['DynamicCtoP'] = True
    if rng.random() < .5:
        L = [float(v) for v in rng.choice([0.0, 0.3, 0.5, 0.8, 1.0],
                                          int(rng.integers(1, 4)),
                                          replace=False)]
        if rng.random() < .4:
            L = [cfg.get('FracLam', 0.5)] + L
        cfg['FracLamList'] = L
    if rng.random() < .4:
        cfg['backtrackStop'] = float(rng.uniform(0.05, 0.5))
    if kind == 'circle' and rng.random() < .7:
        cfg.update(MaxSteps=60, backtrackStop=float(rng.uniform(.05, .4)),
                   FracLam=.5, dsmax=.5)
        cfg.pop('FracLamList', None)
    if rng.random() < .4:
        cfg['xtol'] = float(10.0 ** rng.uniform(-10, -8))
    return ds0, cfg


def metric(b, XC0):
    return (1 - b) / np.linalg.norm(XC0) ** 2


def shadow(ctx, B, o, CtoP, lam0, lam1, out, cb, log, msg):
    """Replay of a complete run."""
    direct = np.sign(lam1 - lam0)
    n = B.n
    L = o['FracLamList']
    pts = [np.asarray(p) for p in out]
    ctx.check(out.ndim == 2 and out.shape[1] == n + 1 and len(pts) >= 1,
              'shape of the result')
    ctx.check(np.all(np.isfinite(out)), 'unsolved rows in the result (%s)'
              % msg)
    ctx.check(len(pts) <= max(o['MaxSteps'], 1), 'more points than MaxSteps')
    ctx.check(pts[0][-1] == lam0, 'first point is not at the start parameter')
    for k, p in enumerate(pts):
        ctx.check(np.abs(B.raw(p)[0]).max() < 1e-4, 'point %d does not solve '
                  'the equations: %.3g (%s)' % (k, np.abs(B.raw(p)[0]).max(),
                                                msg), what='root')
    if min(np.linalg.norm(p[:-1] / CtoP[:-1]) for p in pts) < 1e-5:
        raise Skip('relative step size at zero')
    # callbacks
    ctx.check(len(cb) == len(pts) + 1, '%d callbacks for %d points (%s)'
              % (len(cb), len(pts), msg))
    for k, p in enumerate(pts):
        ctx.check(np.array_equal(cb[k][0], p), 'callback %d differs from the '
                  'result (%s)' % (k, msg), what='callback')
    ctx.check(np.all(np.isnan(cb[0][1])), 'prediction reported for the first '
              'point')
    ctx.check(np.all(np.isnan(cb[-1][0])), 'solution reported in the last '
              'callback')
    ctx.check(log[0]['ok'], 'started without initial solution')
    ctx.close(pts[0][:-1] / CtoP[:-1], log[0]['X'], 'first point', rtol=1e-12)
    for c in log:
        ctx.check(c['kw'].get('xtol', None) == o['xtol'], 'tolerance not '
                  'passed to the solver')
    # replay
    ds = o['ds0']
    pos = 1
    k = 0                 # index of the last accepted point
    prev = np.hstack((pts[0][:-1], lam0 - direct))
    C = CtoP.copy()
    sol_ok = True
    while True:
        P0 = pts[k]
        stop = None
        if k + 1 >= o['MaxSteps']:
            stop = 'maxsteps'
        elif direct * P0[-1] >= direct * lam1:
            stop = 'end'
        elif direct * P0[-1] <= direct * (lam0 - direct * o['backtrackStop']):
            stop = 'backtrack'
        if stop:
            break
        if o['DynamicCtoP']:
            C = np.maximum(np.abs(P0), CtoP)
        XC0 = P0 / C
        acc = None
        for fi, b in enumerate(L):
            c = metric(b, XC0[:-1])
            while True:
                ctx.check(pos < len(log), 'attempt missing after point %d '
                          '(step %.3g, FracLam %g; %s)' % (k, ds, b, msg),
                          what='attempt')
                call = log[pos]
                pos += 1
                d = (call['X0'] - XC0) / ds
                nrm = c * (d[:-1] @ d[:-1]) + b * d[-1] ** 2
                ctx.close(nrm, 1.0, 'predictor length, in steps of %.6g, '
                          'after point %d with FracLam %g (%s)'
                          % (ds, k, b, msg), rtol=1e-6, what='predictor')
                ctx.check(min(o['dsmin'], o['ds0']) * (1 - 1e-12) <= ds <= max(
                    o['dsmax'], o['ds0']), 'step size out of bounds')
                R, J, dl = B.raw(P0)
                t = d * C
                res = J @ t[:-1] + dl * t[-1]
                sc = (np.abs(J) @ np.abs(t[:-1]) + np.abs(dl * t[-1])).max()
                ctx.close(res, np.zeros(n), 'prediction is not tangent after '
                          'point %d (%s)' % (k, msg), rtol=1e-6,
                          scale=sc + 1e-6 * (np.abs(J).max() + np.abs(
                              dl).max()) * (np.abs(t).max() + 1e-6),
                          atol=1e-14 * (np.abs(J).max() + np.abs(dl).max())
                          * np.abs(P0).max() / ds)
                if k == 0:
                    ctx.check(d[-1] * direct > 0, 'first prediction against '
                              'the requested direction (%s)' % msg)
                else:
                    e = (P0 - prev) / C
                    s = c * (d[:-1] @ e[:-1]) + b * d[-1] * e[-1]
                    se = np.sqrt(c * (e[:-1] @ e[:-1]) + b * e[-1] ** 2)
                    ctx.check(s > -1e-6 * se, 'prediction after point %d '
                              'turns back (%s)' % (k, msg), what='turn')
                if call['ok']:
                    acc = (call, d, b, c)
                    break
                ctx.event('failure')
                if not ds > o['dsmin']:
                    break
                ds = max(ds / 2, o['dsmin'])
            if acc:
                if fi:
                    ctx.event('fallback')
                break
        if acc is None:
            sol_ok = False
            ctx.event('gave_up')
            stop = 'failed'
            dlast = d
            break
        call, d, b, c = acc
        ctx.check(k + 1 < len(pts), 'converged step after point %d not in '
                  'the result (%s)' % (k, msg))
        P1 = pts[k + 1]
        ctx.close(P1 / C, call['X'], 'accepted point %d (%s)' % (k + 1, msg),
                  rtol=1e-10)
        ctx.close(cb[k + 1][1] / C, d, 'reported prediction of point %d (%s)'
                  % (k + 1, msg), rtol=1e-6,
                  atol=1e-14 * np.abs(XC0).max() / ds, what='callback')
        q = (P1 - P0) / C
        if o['corrector'].upper() == 'PSEUDO':
            got = np.sqrt(c * (q[:-1] @ q[:-1]) + b * q[-1] ** 2)
        else:
            got = c * (q[:-1] @ d[:-1]) + b * q[-1] * d[-1]
        ctx.close(got, ds, 'arc length between points %d and %d (%s)'
                  % (k, k + 1, msg), rtol=1e-4, what='arc')
        ds = ds * min(o['TargetNfev'] / call['nfev'], o['MaxIncrease'])
        ds = min(max(ds, o['dsmin']), o['dsmax'])
        prev = P0
        k += 1
    ctx.check(k + 1 == len(pts), 'continued beyond its end (%s) at point %d '
              'of %d (%s)' % (stop, k, len(pts), msg))
    ctx.check(pos == len(log), 'solver called after the end (%s; %s)'
              % (stop, msg))
    ctx.event('stop_' + stop)
    # slope at the last point
    t = cb[-1][1]
    ctx.check(t.shape == (n + 1,) and np.all(np.isfinite(t)), 'final '
              'prediction missing')
    R, J, dl = B.raw(pts[-1])
    sc = (np.abs(J) @ np.abs(t[:-1]) + np.abs(dl * t[-1])).max()
    ctx.close(J @ t[:-1] + dl * t[-1], np.zeros(n), 'final prediction is not '
              'tangent (%s)' % msg, rtol=1e-6, scale=sc + 1e-6 * (
                  np.abs(J).max() + np.abs(dl).max()) * (
                      np.abs(t).max() + 1e-6))
    if k == 0:
        ctx.check(t[-1] * direct > 0, 'final prediction direction')
    elif sol_ok:
        e, d = (pts[-1] - prev) / C, t / C
        b = o['lastb'] = L[0] if not log[pos - 1].get('b') else 0
        # same orientation as the last step, in any of the metrics
        ok = []
        for b in L:
            cc = metric(b, (pts[-1] / C)[:-1])
            ok.append(cc * (d[:-1] @ e[:-1]) + b * d[-1] * e[-1] > -1e-9)
        ctx.check(any(ok), 'final prediction turns back (%s)' % msg)
    return stop


KINDS = ['linear', 'cubic', 'fold', 'circle', 'scaled', 'cubic', 'fold']


def branch(ctx):
    from tmdsimpy.continuation import Continuation
    from tmdsimpy.solvers import NonlinearSolver
    from tmdsimpy.jax.solvers import NonlinearSolverOMP
    rng = ctx.rng
    kind = KINDS[ctx.index % len(KINDS)]
    n = int(rng.choice([1, 2, 3, 5]))
    n = max(n, 2) if kind == 'circle' else n
    B = Branch(rng, kind, n)
    lam0, lam1, X = B.start()
    if kind in ('linear', 'cubic', 'scaled') and rng.random() < .4:
        lam0, lam1 = lam1, lam0
    if kind == 'circle' and rng.random() < .4:
        lam0, lam1 = -lam0, -lam1
    if rng.random() < .3:
        lam1 = lam0 + (lam1 - lam0) * rng.uniform(0.05, 0.4)
    ds0, cfg = settings(rng, kind, lam0, lam1)
    CtoP = None
    if kind == 'scaled' or rng.random() < .4:
        CtoP = np.hstack([B.sc, B.ls]) * rng.uniform(0.3, 3, n + 1)
        if rng.random() < .3:
            CtoP = CtoP * np.where(rng.random(n + 1) < .5, -1, 1)
    RPtoC = None
    r = rng.random()
    if r < .2:
        RPtoC = float(rng.uniform(.3, 3))
    elif r < .4:
        RPtoC = 10.0 ** rng.uniform(-1.5, 1.5, n + 1)
    faults = ctx.index % 3 > 0
    plan = {}
    if faults:
        i = 1
        while i < 300:
            r = rng.random()
            if r < 0.12:
                m = int(rng.choice([1, 1, 2, 3, 5, 6, 7, 9, 30]))
                for j in range(m):
                    plan[i + j] = 'fail'
                i += m
            elif r < .35:
                plan[i] = int(rng.integers(1, 60))
                i += 1
            else:
                i += 1
        if rng.random() < .06:
            plan[0] = 'fail'
    if rng.random() < .5:
        base = NonlinearSolver()
        sname = 'scipy'
    else:
        base = NonlinearSolverOMP(config={
            'verbose': False, 'max_steps': int(rng.choice([8, 20, 40])),
            'reform_freq': int(rng.choice([1, 1, 3])),
            'line_search_iters': int(rng.choice([0, 0, 3])),
            'rtol': 1e-9, 'stopping_tol': ['rtol'] if rng.random() < .5
            else ['xtol', 'rtol']})
        sname = 'omp'
    if 'xtol' not in cfg:
        cfg['xtol'] = 1e-9
    log, cb = [], []

    def callback(p, d):
        cb.append((np.array(p), np.array(d)))
        p += 1.0 if keepout else 0.0      # receivers may not rely on it

    keepout = False
    given = dict(cfg)
    cfg['callback'] = callback

    def probe(i, fun, XC):
        """The equations handed to the solver."""
        if i == 0 or prng.random() > 0.15:
            return
        z = XC + 1e-2 * prng.normal(size=XC.size)
        C = cont.CtoP
        a = fun(z)
        ctx.check(len(a) == 2 and a[0].shape == (n + 1,) and a[1].shape
                  == (n + 1, n + 1), 'shape of the augmented equations')
        R, J, dl = B.raw(z * C)
        if np.abs(R).max() > 1e-9:
            r = (a[0][:-1] @ R) / (R @ R)
            ctx.check(r > 0, 'residual scaled by %r' % r)
            ctx.close(a[0][:-1], r * R, 'augmented residual', rtol=1e-9)
            ctx.close(a[1][:-1], r * np.hstack((J, dl[:, None])) * C,
                      'augmented Jacobian', rtol=1e-9)
        v = prng.normal(size=n + 1)
        h = 1e-6
        fd = (fun(z + h * v)[0][-1] - fun(z - h * v)[0][-1]) / (2 * h)
        ctx.close(fd, a[1][-1] @ v, 'gradient of the arc length equation',
                  rtol=1e-6, scale=np.abs(a[1][-1]).max() * (
                      1 + np.abs(v).max()) + 1e-6, what='arcgrad')
        g = fun(z, calc_grad=False)
        ctx.check(len(g) == 1 and np.array_equal(g[0], a[0]),
                  'augmented residual without gradient')

    prng = np.random.default_rng(ctx.index)
    s = proxy(base, rng, plan, B, log, probe)
    runs = 1 + int(rng.random() < .35)
    kc = None if CtoP is None else CtoP.copy()
    kr = RPtoC.copy() if isinstance(RPtoC, np.ndarray) else RPtoC
    lst = list(cfg.get('FracLamList', []))
    cont = Continuation(s, ds0=ds0, CtoP=CtoP, RPtoC=RPtoC, config=cfg)
    o = {'FracLam': 0.5, 'ds0': ds0, 'dsmax': 5 * ds0, 'dsmin': ds0 / 5,
         'MaxSteps': 500, 'TargetNfev': 20, 'DynamicCtoP': False,
         'verbose': 100, 'xtol': None, 'corrector': 'Ortho',
         'FracLamList': [], 'backtrackStop': np.inf, 'MaxIncrease': 1.2}
    o.update(given)
    L = list(o['FracLamList'])
    o['FracLamList'] = L if L and L[0] == o['FracLam'] else [
        o['FracLam']] + L
    msg = '%s %s n=%d %s' % (kind, sname, n, given)
    z0 = np.hstack([X * (1 + 1e-3 * rng.normal(size=n)), rng.choice(
        [77.0, lam0, lam0 * (1 + 1e-6), lam1])])     # ignored entry
    for _ in range(8):
        R, J, dl = B.raw(np.hstack([z0[:-1], lam0]))
        z0[:-1] -= np.linalg.solve(J, R)
    z0[:-1] *= 1 + 1e-3 * rng.normal(size=n)
    kz = z0.copy()
    first = None
    for run in range(runs):
        log.clear()
        cb.clear()
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf), warnings.catch_warnings(), \
                np.errstate(all='ignore'):
            warnings.simplefilter('ignore')
            try:
                out = cont.continuation(B, z0, lam0, lam1)
            except AssertionError:
                ctx.check(len(log) == 1 and not log[0]['ok'], 'refused '
                          'although the initial solution converged (%s)' % msg)
                ctx.check(not cb, 'callback without solution')
                ctx.event('refused')
                ctx.cover('refused')
                if plan.get(0) != 'fail':
                    raise Skip('no initial solution')
                return
            except np.linalg.LinAlgError:
                raise Skip('singular predictor')
        ctx.check(log[0]['ok'], 'unconverged initial point accepted')
        if given['verbose'] < 0:
            ctx.check(buf.getvalue() == '', 'output of a silent run %d: %r'
                      % (run, buf.getvalue()[:60]))
        C = np.ones(n + 1) if CtoP is None else np.abs(CtoP)
        if run and o['DynamicCtoP']:
            break
        with np.errstate(all='ignore'):
            stop = shadow(ctx, B, o, C, lam0, lam1, out, cb, log, msg)
        ctx.cover(kind, stop, o['corrector'].upper(), o['DynamicCtoP'],
                  faults)
        ctx.check(np.array_equal(z0, kz), 'starting point modified')
        ctx.check(cfg.get('FracLamList', []) == lst and {
            k: v for k, v in cfg.items() if k != 'callback'} == given,
            'caller configuration modified')
        ctx.check(CtoP is None or np.array_equal(CtoP, kc), 'scaling modified')
        ctx.check(not isinstance(RPtoC, np.ndarray) or np.array_equal(
            RPtoC, kr), 'residual scaling modified')
        if run == 0:
            first = out.copy()
        elif not o['DynamicCtoP'] and RPtoC is None:
            ctx.check(np.array_equal(first, out), 'second run differs (%s)'
                      % msg)
    ctx.event('points', len(out))
    ctx.note(kind=kind, n=n, cfg=given, points=len(out), calls=len(log))


def raising(ctx):
    """A residual that raises: the exception is visible, the records so far
    are complete, and the object can run again."""
    from tmdsimpy.continuation import Continuation
    from tmdsimpy.solvers import NonlinearSolver
    rng = ctx.rng
    B = Branch(rng, 'cubic', int(rng.integers(1, 4)))
    lam0, lam1, X = B.start()
    cb = []
    cfg = {'verbose': -1, 'MaxSteps': 12, 'xtol': 1e-10,
           'callback': lambda p, d: cb.append((np.array(p), np.array(d)))}
    cont = Continuation(NonlinearSolver(), ds0=0.1, config=cfg)
    z0 = np.hstack([X, lam0])
    with contextlib.redirect_stdout(io.StringIO()):
        ref = cont.continuation(B, z0, lam0, lam1)
        full = list(cb)
        total = len(B.calls)
        B.calls.clear()
        cb.clear()
        B.explode = int(rng.integers(1, total - 1))
        try:
            cont.continuation(B, z0, lam0, lam1)
            ctx.fail('exception of the residual was swallowed')
        except FloatingPointError:
            ctx.event('raised')
        ctx.check(len(cb) < len(full) and all(
            np.array_equal(a[0], b[0], equal_nan=True)
            and np.array_equal(a[1], b[1], equal_nan=True)
            for a, b in zip(cb, full)), 'records before the exception')
        B.explode = None
        cb.clear()
        again = cont.continuation(B, z0, lam0, lam1)
    ctx.check(np.array_equal(ref, again), 'run after an exception differs')
    ctx.cover('raising', len(full))


def hbm(ctx):
    """Frequency response of a nonlinear system: every point is a harmonic
    balance solution, in order along the branch."""
    from tmdsimpy.continuation import Continuation
    from tmdsimpy.solvers import NonlinearSolver
    from tmdsimpy.vibration_system import VibrationSystem
    from tmdsimpy.nlforces.cubic_stiffness import CubicForce
    rng = ctx.rng
    n = int(rng.integers(1, 3))
    M, K = np.eye(n), gen.spd(rng, n, 0.8, 3.0)
    vs = VibrationSystem(M, K, ab=[0.08, 0.0])
    Q = np.zeros((1, n))
    Q[0, 0] = 1
    vs.add_nl_force(CubicForce(Q, Q.T * 1.0, kalpha=np.array([
        rng.uniform(.1, .6)])))
    h = np.array([0, 1, 3]) if rng.random() < .5 else np.array([1, 3])
    Nhc = int(2 * (h != 0).sum() + (h == 0).sum())
    Fl = np.zeros(Nhc * n)
    i1 = n * int(h[0] == 0)
    Fl[i1] = 0.25
    w0 = np.sqrt(np.linalg.eigvalsh(K)[0])
    lam0, lam1 = 0.6 * w0, 1.9 * w0
    if rng.random() < .4:
        lam0, lam1 = lam1, lam0

    class F:
        n = Nhc * M.shape[0]

        @staticmethod
        def raw(z):
            return vs.hbm_res(z, Fl, h, Nt=64)

    def fun(z, calc_grad=True):
        out = vs.hbm_res(z, Fl, h, Nt=64)
        return out if calc_grad else out[:1]
    log, cb = [], []
    plan = {int(i): 'fail' for i in rng.integers(1, 40, int(
        rng.choice([0, 2, 5])))}
    s = proxy(NonlinearSolver(), rng, plan, F, log, None)
    cfg = {'verbose': -1, 'MaxSteps': 25, 'xtol': 1e-9, 'dsmax': .4,
           'dsmin': .005, 'corrector': str(rng.choice(['Ortho', 'Pseudo'])),
           'DynamicCtoP': bool(rng.random() < .4),
           'FracLamList': [0.5, 1.0, 0.0],
           'callback': lambda p, d: cb.append((np.array(p), np.array(d)))}
    cont = Continuation(s, ds0=0.1, config=cfg)
    o = {'FracLam': .5, 'ds0': .1, 'TargetNfev': 20, 'backtrackStop': np.inf,
         'MaxIncrease': 1.2}
    o.update(cfg)
    X = np.zeros(Nhc * n)
    D = np.linalg.solve(np.block([[K - lam0 ** 2 * M, lam0 * .08 * M],
                                  [-lam0 * .08 * M, K - lam0 ** 2 * M]]),
                        Fl[i1:i1 + 2 * n])
    X[i1:i1 + 2 * n] = D
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            out = cont.continuation(fun, np.hstack([X, 0]), lam0, lam1)
        except AssertionError:
            raise Skip('no start')
    stop = shadow(ctx, F, o, np.ones(F.n + 1), lam0, lam1, out, cb, log,
                  'hbm n=%d' % n)
    ctx.cover('hbm', stop, cfg['corrector'], cfg['DynamicCtoP'])


GROUPS = {
    'branch': Group(branch, 600, 60000, {
        'root': 4, 'predictor': 4, 'arc': 3, 'failure': 0.5, 'gave_up': 0.04,
        'fallback': 0.004, 'stop_end': 0.1, 'stop_maxsteps': 0.05,
        'stop_backtrack': 0.005, 'arcgrad': 0.5}),
    'raising': Group(raising, 240, 2000, {'raised': 0.5}),
    'hbm': Group(hbm, 70, 2000, {'root': 5, 'arc': 4}),
}
SHARDS = 8
