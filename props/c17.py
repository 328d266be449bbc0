"""C17 Nonlinear solvers."""
import contextlib
import io
import warnings
import numpy as np
from vlib import gen
from vlib.run import Group, Skip

ID = 'C17'
RULE = ('random problems (convergent, singular, divergent, rootless, not-a-'
        'number, noisy, raising) and random solver options, several calls per '
        'solver object; every residual call is recorded and the trace is '
        'checked: Newton and quasi-Newton steps recomputed from the recorded '
        'values, line search steps within the interval, stop exactly at the '
        'first iterate meeting a configured tolerance, success and counts '
        'consistent with the trace')
ASSUMPTIONS = ['float64 arithmetic', 'iterates are decided where the linear '
               'algebra is well conditioned (condition below 1e7)',
               'the base solver wraps scipy hybr; its convergence claim is '
               'decided on problems with a unique root']


class Problem:
    """R(x), J(x) with a call log."""

    def __init__(self, rng, kind, n):
        self.kind, self.n = kind, n
        A = gen.spd(rng, n, 0.5, 3.0)
        if kind in ('nonsym', 'rational'):
            G = rng.normal(size=(n, n)) * 0.5
            A = A + G - G.T
        self.A = A
        self.b = rng.normal(size=n) * 2
        self.c = rng.uniform(0.1, 3)
        self.x0 = rng.normal(size=n) * 2
        self.noise = 1e-7 * rng.normal(size=(64, n))
        self.nan_at = int(rng.integers(1, 6))
        self.bad = kind == 'nan' and rng.random() < 0.5
        self.log = []

    def scale(self, x):
        """Size of the terms that cancel in the residual."""
        return (np.abs(self.A) @ np.abs(x) + self.c * np.abs(x) ** 3
                + np.abs(self.b)).max() + 1

    def R(self, x):
        k = self.kind
        if k in ('mono', 'nonsym', 'noisy', 'nan', 'raise', 'extra'):
            return self.A @ x + self.c * x ** 3 - self.b
        if k == 'linear':
            return self.A @ x - self.b
        if k == 'atan':
            return np.arctan(3 * self.c * (self.A @ x - self.b))
        if k == 'rootless':
            return x ** 2 + 0.5 + 0.1 * (self.A @ x) ** 2
        if k == 'double':
            return self.A @ ((x - 1) ** 2 * np.sign(x - 1) * 1.0 + (
                x - 1) ** 2)
        if k == 'rational':
            return self.A @ x + 2 * np.sin(2 * x) - self.b
        raise KeyError(k)

    def J(self, x):
        k = self.kind
        if k in ('mono', 'nonsym', 'noisy', 'nan', 'raise', 'extra'):
            return self.A + np.diag(3 * self.c * x ** 2)
        if k == 'linear':
            return self.A.copy()
        if k == 'atan':
            z = 3 * self.c * (self.A @ x - self.b)
            return (3 * self.c / (1 + z ** 2))[:, None] * self.A
        if k == 'rootless':
            return np.diag(2 * x) + 0.2 * (self.A @ x)[:, None] * self.A
        if k == 'double':
            return self.A @ np.diag(2 * (x - 1) * np.sign(x - 1) + 2 * (
                x - 1))
        return self.A + np.diag(4 * np.cos(2 * x))

    def __call__(self, X, calc_grad=True):
        x = np.array(X, float)
        i = len(self.log)
        if self.kind == 'raise' and i == self.nan_at:
            self.log.append((x, bool(calc_grad), None, None))
            raise FloatingPointError('injected')
        R = self.R(x)
        J = self.J(x) if calc_grad else None
        if self.kind == 'noisy':
            R = R + self.noise[i % 64]
        if self.kind == 'nan' and i == self.nan_at:
            if self.bad and J is not None:
                J[0, 0] = np.nan
            else:
                R[-1] = np.nan
        self.log.append((x, bool(calc_grad), R.copy(),
                         None if J is None else J.copy()))
        if self.kind == 'extra':
            return (R, J, 'ignored') if calc_grad else (R, 'ignored')
        return (R, J) if calc_grad else (R,)


KINDS = ['mono', 'nonsym', 'linear', 'atan', 'rootless', 'rational', 'noisy',
         'nan', 'extra', 'mono', 'nonsym', 'raise']
TOLS = ['xtol', 'rtol', 'etol', 'xtol_rel', 'rtol_rel', 'etol_rel']


def options(rng):
    cfg = {'verbose': False}
    if rng.random() < 0.8:
        cfg['max_steps'] = int(rng.integers(1, 30))
    if rng.random() < 0.6:
        cfg['reform_freq'] = int(rng.integers(1, 6))
    names = list(rng.choice(TOLS, int(rng.integers(1, 4)), replace=False))
    for t in TOLS:
        cfg[t] = float(10.0 ** rng.uniform(-11, -2))
    if rng.random() < 0.5:
        cfg['stopping_tol'] = [str(t) for t in names]
    if rng.random() < 0.4:
        acc = rng.choice(TOLS, int(rng.integers(1, 3)), replace=False)
        cfg['accepting_tol'] = [str(t) for t in acc]
        for t in acc:
            if t not in cfg.get('stopping_tol', ['xtol']):
                cfg[str(t)] = float(10.0 ** rng.uniform(-4, 1))
    if rng.random() < 0.3:
        cfg['xtol'] = None
    if rng.random() < 0.35:
        cfg['line_search_iters'] = int(rng.integers(1, 6))
        if rng.random() < .5:
            cfg['line_search_tol'] = float(rng.uniform(0.05, 0.9))
        if rng.random() < .5:
            cfg['line_search_same_sign'] = bool(rng.random() < .5)
    return cfg


DEFAULT = {'max_steps': 20, 'reform_freq': 1, 'xtol': None, 'rtol': None,
           'etol': None, 'xtol_rel': None, 'rtol_rel': None, 'etol_rel': None,
           'stopping_tol': ['xtol'], 'accepting_tol': [],
           'line_search_iters': 0, 'line_search_tol': 0.5,
           'line_search_same_sign': True}


def met(names, tol, val):
    """any criterion met: True / False / None (too close to call)"""
    close = False
    for t in names:
        v = abs(val[t])
        if v < tol[t] * (1 - 1e-6):
            return True
        if v <= tol[t] * (1 + 1e-6):
            close = True
    return None if close else False


def newton_direction(J0, pairs, R):
    """Inverse-BFGS product by dense matrices."""
    H = np.linalg.inv(J0)
    n = R.size
    for s, y in pairs:
        p = 1.0 / (s @ y)
        V = np.eye(n) - p * np.outer(y, s)
        H = V.T @ H @ V + p * np.outer(s, s)
    if not np.all(np.isfinite(H)):
        return None, np.inf
    return -H @ R, np.linalg.cond(H)


def check_trace(ctx, P, cfg, x0, xtol, out):
    """The recorded calls against the solver contract."""
    o = dict(DEFAULT)
    o.update(cfg)
    tol = dict(o)
    tol['xtol'] = xtol if xtol is not None else (
        o['xtol'] if o['xtol'] is not None else 1e-6 * P.n)
    log = list(P.log)
    ls = o['line_search_iters']
    X, R, dR, sol = out
    X, R = np.asarray(X, float), np.asarray(R, float)
    msg = '%s n=%d %s' % (P.kind, P.n, {k: v for k, v in cfg.items()
                                        if k != 'verbose'})
    pos = 0
    it = 0
    x = x0
    pairs = []
    J0 = None
    prev = None            # (step, R)
    first = {}
    success = None
    Rl = Jl = None
    nj = 0
    sure = True
    slen = 0.0
    while True:
        if it >= o['max_steps']:
            break
        ctx.check(pos < len(log), 'iteration %d of %d was not evaluated (%s)'
                  % (it, o['max_steps'], msg), what='iteration')
        xe, grad, Re, Je = log[pos]
        pos += 1
        ctx.close(xe, x, 'iterate %d (%s)' % (it, msg), rtol=1e-7,
                  scale=np.abs(x).max() + 10 * slen + 1e-12, what='iterate')
        x = xe
        reform = it % o['reform_freq'] == 0
        ctx.check(grad or not reform, 'iterate %d without Jacobian (%s)'
                  % (it, msg))
        if o['reform_freq'] > 1:
            ctx.check(grad == reform, 'Jacobian evaluated at iterate %d with '
                      'reform_freq %d' % (it, o['reform_freq']))
        Rl = Re
        if Je is not None:
            Jl = Je
            nj += 1
        if np.isnan(Re).any() or (Je is not None and np.isnan(Je).any()):
            success = False
            it += 1
            ctx.event('nan_stop')
            break
        if reform:
            J0, pairs = Je, []
        else:
            pairs.append((prev[0], Re - prev[1]))
        if not np.all(np.isfinite(Re)) or np.abs(x).max() > 1e100 or \
                not np.all(np.isfinite(J0)) or np.linalg.cond(J0) > 1e7:
            sure = False
            ctx.event('illconditioned')
            break
        bad = [1 for s, y in pairs if abs(s @ y) < 1e-4
               * np.linalg.norm(s) * np.linalg.norm(y) or not np.any(s)]
        if bad:
            sure = False
            ctx.event('degenerate_update')
            break
        d, cond = newton_direction(J0, pairs, Re)
        if cond > 1e7:
            sure = False
            ctx.event('illconditioned')
            break
        small = P.scale(x) * 1e-15
        if ls and (np.abs(d).max() < 1e-8 * (np.abs(x).max() + 1e-6)
                   or np.abs(Re).max() < 1e3 * small):
            sure = False       # rounding decides the line search
            ctx.event('tie')
            break
        ctx.event('newton' if reform else 'bfgs')
        alpha = 1.0
        step = d
        if ls:
            alpha, pos = line(ctx, log, pos, x, Re, d, o, msg)
            if alpha is None:
                sure = False
                ctx.event('undecided_line')
                break
            step = alpha * d
        u, r = np.linalg.norm(d), np.linalg.norm(Re)
        slen = u
        e = np.inf if it == 0 else Re @ prev[0]
        if it == 0:
            first.update(u=u, r=r, e=np.inf)
        if it == 1:
            first['e'] = abs(e)
        with np.errstate(all='ignore'):
            val = {'xtol': u, 'rtol': r, 'etol': e,
                   'xtol_rel': np.divide(u, first['u']),
                   'rtol_rel': np.divide(r, first['r']),
                   'etol_rel': np.divide(e, first['e'])}
        it += 1
        m = met(o['stopping_tol'], tol, val)
        x = x + step
        if m is None or max(u, r) < 1e-13 * (np.abs(x).max() + 1) and not m:
            sure = False       # decided by rounding
            ctx.event('tie')
            break
        if m:
            success = True
            ctx.event('converged')
            break
        prev = (step, Re)
    if not sure:
        # still: a success claim needs at least evaluated, finite numbers
        ctx.check(sol['nfev'] <= o['max_steps'], 'iteration limit exceeded')
        return None
    if success is None:
        m = met(o['accepting_tol'], tol, val)
        if m is None:
            return None
        success = m
        ctx.event('accepted' if m else 'exhausted')
    ctx.check(pos == len(log), '%d evaluations after the deciding iterate (%s)'
              % (len(log) - pos, msg))
    ctx.check(bool(sol['success']) == success, 'success reported %s, trace '
              'says %s (%s)' % (sol['success'], success, msg))
    ctx.check(sol['nfev'] == it, 'nfev %s for %d evaluations (%s)' % (
        sol['nfev'], it, msg))
    ctx.check(sol['njev'] == nj, 'njev %s for %d Jacobians (%s)' % (
        sol['njev'], nj, msg))
    ctx.close(X, x, 'returned solution (%s)' % msg, rtol=1e-7,
              scale=np.abs(x).max() + 10 * slen + 1e-12)
    ctx.check(np.array_equal(R, Rl, equal_nan=True), 'returned residual is '
              'not the last evaluated one (%s)' % msg)
    ctx.check(np.array_equal(np.asarray(dR), Jl, equal_nan=True),
              'returned Jacobian is not the last evaluated one (%s)' % msg)
    return success


def line(ctx, log, pos, x, R, d, o, msg):
    """Consume the line-search evaluations; returns the step fraction."""
    nn = d @ d
    G0 = d @ R
    pts = []
    start = pos
    while pos < len(log) and not log[pos][1]:
        q = log[pos][0] - x
        a = (q @ d) / nn if nn else 1.0
        off = np.abs(q - a * d).max()
        if off > 1e-7 * (np.abs(d).max() + 1e-9 * np.abs(x).max()):
            break
        if len(pts) >= 1 + o['line_search_iters']:
            break
        if pts and pts[0][2] * G0 > 0:
            break
        pts.append((pos, a, d @ log[pos][2]))
        pos += 1
    ctx.check(len(pts) >= 1 and abs(pts[0][1] - 1) < 1e-6, 'line search did '
              'not evaluate the full step (%s)' % msg, what='line')
    ctx.event('line_search')
    if nn == 0 or np.isnan([p[2] for p in pts]).any():
        return None, pos
    eps = 1e-9 * np.abs(d).sum() * np.abs(R).max()
    t = o['line_search_tol'] * abs(G0)
    if abs(G0) < eps or any(abs(p[2]) < eps or abs(abs(p[2]) - t) < eps
                            for p in pts):
        return None, pos       # decided by rounding
    if pts[0][2] * G0 > 0:
        return 1.0, pos
    br = {0.0: G0, 1.0: pts[0][2]}
    lo, hi = 0.0, 1.0
    same = o['line_search_same_sign']
    if not same and abs(pts[0][2]) < o['line_search_tol'] * abs(G0):
        if len(pts) == 1:
            return 1.0, pos
        # extra points belong to the next iteration
        return 1.0, start + 1
    used = 1
    for (p, a, G) in pts[1:]:
        mid = 0.5 * (lo + hi)
        ctx.check(abs(a - mid) < 1e-6, 'line search evaluates fraction %.6f, '
                  'bisection gives %.6f (%s)' % (a, mid, msg), what='line')
        used += 1
        br[mid] = G
        if G * br[lo] < 0:
            hi = mid
        else:
            lo = mid
        if same and abs(br[lo]) < o['line_search_tol'] * abs(G0):
            break
        if not same and abs(G) < o['line_search_tol'] * abs(G0):
            break
    else:
        if used < 1 + o['line_search_iters']:
            ctx.fail('line search stopped after %d evaluations (%s)'
                     % (used, msg))
    if same:
        a = lo
    else:
        a = lo if abs(br[lo]) < abs(br[hi]) else hi
    if a == 0.0:
        a = hi
    ctx.event('bisected')
    return a, start + used


def quiet():
    return contextlib.redirect_stdout(io.StringIO())


def newton(ctx):
    from tmdsimpy.jax.solvers import NonlinearSolverOMP
    rng = ctx.rng
    cfg = options(rng)
    keepcfg = {k: (list(v) if isinstance(v, list) else v)
               for k, v in cfg.items()}
    sol = NonlinearSolverOMP(config=cfg)
    n = int(rng.choice([1, 2, 3, 5]))
    for call in range(3):
        kind = KINDS[(ctx.index + 5 * call) % len(KINDS)]
        P = Problem(rng, kind, n)
        x0 = P.x0.copy()
        if call == 2 and rng.random() < 0.5:
            new = options(rng)
            new.pop('verbose')
            sol.edit_config(new)
            cfg = dict(cfg, **new)
            keepcfg = {k: (list(v) if isinstance(v, list) else v)
                       for k, v in cfg.items()}
        before = {k: (list(v) if isinstance(v, list) else v)
                  for k, v in sol.config.items()}
        xtol = None if rng.random() < 0.6 else float(10.0 ** rng.uniform(
            -10, -2))
        kw = {} if xtol is None else {'xtol': xtol}
        if kind == 'raise':
            try:
                with quiet(), np.errstate(all='ignore'):
                    sol.nsolve(P, P.x0, **kw)
                ctx.check(len(P.log) <= P.nan_at, 'exception swallowed')
            except FloatingPointError:
                ctx.event('raised')
        else:
            with quiet(), np.errstate(all='ignore'):
                out = sol.nsolve(P, P.x0, verbose=bool(rng.random() < .2),
                                 **kw)
            ctx.check(len(out) == 4 and np.shape(out[0]) == (n,),
                      'shape of the returned solution')
            res = check_trace(ctx, P, cfg, x0, xtol, out)
            ctx.cover(kind, 'rf%d' % cfg.get('reform_freq', 1),
                      'ls%d' % bool(cfg.get('line_search_iters', 0)),
                      str(res))
            if res and kind == 'rootless':
                ctx.event('rootless_step_criterion')
        ctx.check(np.array_equal(P.x0, x0), 'starting guess modified')
        after = {k: (list(v) if isinstance(v, list) else v)
                 for k, v in sol.config.items()}
        ctx.check(after == before, 'configuration modified by a solution: %s'
                  % {k: after[k] for k in after
                     if after[k] != before.get(k)})
        ctx.check(all(cfg[k] == keepcfg[k] for k in cfg),
                  'caller configuration modified')
    fresh = NonlinearSolverOMP()
    ctx.check(all(fresh.config[k] == v for k, v in DEFAULT.items()),
              'default configuration changed')
    ctx.note(cfg=keepcfg, n=n)


def bracket(ctx):
    """Direct line-search calls."""
    from tmdsimpy.jax.solvers import NonlinearSolverOMP
    rng = ctx.rng
    n = int(rng.integers(1, 5))
    P = Problem(rng, str(rng.choice(['mono', 'rational', 'atan', 'linear'])),
                n)
    cfg = {'line_search_iters': int(rng.integers(1, 8)), 'verbose': False,
           'line_search_tol': float(rng.uniform(0.01, 0.9)),
           'line_search_same_sign': bool(rng.random() < .5)}
    s = NonlinearSolverOMP(config=cfg)
    x = P.x0.copy()
    R = P.R(x)
    d = -np.linalg.solve(P.J(x), R) * rng.uniform(0.3, 6)
    if rng.random() < 0.2:
        d = rng.normal(size=n)
    keep = x.copy(), R.copy(), d.copy()
    with quiet():
        a, sol = s.line_search(P, x, R, d)
    a = float(a)
    ctx.check(0 < a <= 1, 'step fraction %r outside (0, 1]' % a)
    ctx.check(sol['nfev'] == len(P.log), 'line search reports %d evaluations '
              'of %d' % (sol['nfev'], len(P.log)))
    ctx.check(len(P.log) <= 1 + cfg['line_search_iters'],
              'line search exceeds its iterations')
    ctx.check(not any(g for _, g, _, _ in P.log), 'line search evaluates '
              'Jacobians')
    o = dict(DEFAULT)
    o.update(cfg)
    want, pos = line(ctx, P.log, 0, x, R, d, o, str(cfg))
    if want is None:
        raise Skip('decided by rounding')
    ctx.check(pos == len(P.log), 'superfluous evaluations')
    ctx.close(a, want, 'step fraction', rtol=0, atol=1e-9)
    ok = [k for k in range(len(P.log)) if np.abs(
        P.log[k][0] - (x + a * d)).max() < 1e-9 * (np.abs(x).max() + np.abs(
            d).max())]
    ctx.check(bool(ok), 'returned fraction was not evaluated')
    G0, Ga = d @ R, d @ P.R(x + a * d)
    if cfg['line_search_same_sign'] and any(
            d @ r * G0 > 0 for _, _, r, _ in P.log):
        ctx.check(Ga * G0 > 0, 'same-sign search returned a sign change')
    ctx.check(all(np.array_equal(p, q) for p, q in zip(keep, (x, R, d))),
              'arguments modified')
    ctx.cover('bracket', 'it%d' % len(P.log), cfg['line_search_same_sign'])


def base(ctx):
    """scipy-based solver: reported values, failure reports, tolerance."""
    from tmdsimpy.solvers import NonlinearSolver
    rng = ctx.rng
    s = NonlinearSolver()
    n = int(rng.choice([1, 2, 3, 5]))
    for call in range(2):
        kind = ['mono', 'linear', 'rootless', 'nonsym'][(ctx.index + call)
                                                        % 4]
        P = Problem(rng, kind, n)
        x0 = P.x0.copy()
        xtol = None if rng.random() < .5 else float(10.0 ** rng.uniform(
            -10, -5))
        kw = {} if xtol is None else {'xtol': xtol}
        with quiet(), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            X, R, J, sol = s.nsolve(lambda x: P(x), P.x0, verbose=bool(
                rng.random() < .3), **kw)
        ctx.check(np.array_equal(P.x0, x0), 'starting guess modified')
        ctx.check(np.allclose(R, P.R(X), 1e-9, 1e-12) and np.allclose(
            J, P.J(X), 1e-9, 1e-12),
                  'returned residual and Jacobian are not those of the '
                  'returned point')
        ctx.check(any(np.array_equal(X, q[0]) for q in P.log),
                  'returned point was not evaluated')
        if kind == 'rootless':
            ctx.check(not sol['success'] or np.abs(R).max() < 1e-3, 'success '
                      'for a problem without root, residual %.3g'
                      % np.abs(R).max(), what='failure')
        else:
            if sol['success']:
                e = np.linalg.norm(np.linalg.solve(J, R))
                t = xtol if xtol is not None else 1e-6 * n
                ctx.check(e <= 10 * t * (np.linalg.norm(X) + 1e-3) + 1e-9,
                          'success with a remaining Newton step of %.3g at '
                          'tolerance %.3g' % (e, t))
                ctx.event('converged')
        ctx.cover(kind, 'n%d' % n, bool(sol['success']))


def conditioned(ctx):
    """Scaled problems have the scaled solutions of the original."""
    from tmdsimpy.solvers import NonlinearSolver
    from tmdsimpy.jax.solvers import NonlinearSolverOMP
    rng = ctx.rng
    n = int(rng.integers(1, 6))
    P = Problem(rng, str(rng.choice(['mono', 'nonsym', 'extra'])), n)
    c = 10.0 ** rng.uniform(-3, 3, n)
    if rng.random() < .2:
        c = float(c[0])
    r = float(10.0 ** rng.uniform(-3, 3))
    vec = rng.random() < .4         # residuals scaled one by one
    s = NonlinearSolver() if rng.random() < .5 else NonlinearSolverOMP(
        config={'verbose': False, 'max_steps': 60, 'rtol': 1e-9 * r,
                'stopping_tol': ['rtol']})
    kw = {}
    if vec:
        r = r * 10.0 ** rng.uniform(-2, 2, n)
        kw = {'RPtoC': r}
    elif rng.random() < 0.7:
        kw = {'RPtoC': r}
    else:
        r = 1.0
        if isinstance(s, NonlinearSolverOMP):
            s.edit_config({'rtol': 1e-9})
    f = s.conditioning_wrapper(P, c, **kw)
    xc = rng.normal(size=n) / c
    keep = xc.copy()
    out = f(xc)
    ctx.check(len(P.log) == 1 and len(out) == 2, 'evaluations of the wrapped '
              'function')
    ctx.close(P.log[0][0], xc * c, 'physical unknowns', rtol=1e-14)
    ctx.close(out[0], r * P.R(xc * c), 'conditioned residual', rtol=1e-13)
    ctx.close(out[1], np.diag(r * np.ones(n)) @ P.J(xc * c) @ np.diag(
        c * np.ones(n)), 'conditioned Jacobian', rtol=1e-13)
    g = f(xc, calc_grad=False)
    ctx.check(len(g) == 1 and len(P.log) == 2 and not P.log[1][1],
              'gradient requested although disabled')
    ctx.close(g[0], r * P.R(xc * c), 'conditioned residual without gradient',
              rtol=1e-13)
    ctx.check(np.array_equal(xc, keep), 'arguments modified')
    with quiet():
        X, R, J, sol = s.nsolve(f, P.x0 / c, verbose=False)
    if not sol['success']:
        raise Skip('no convergence')
    ctx.check(np.abs(P.R(np.asarray(X) * c)).max() < 1e-4 * (
        1 + np.abs(P.b).max()), 'scaled solution is no root')
    ctx.cover('conditioned', type(s).__name__, np.ndim(c), np.ndim(r))


GROUPS = {
    'newton': Group(newton, 600, 60000, {'iterate': 8, 'newton': 4,
                                        'bfgs': 2, 'converged': 0.4,
                                        'bisected': 0.1}),
    'bracket': Group(bracket, 1440, 20000, {'check': 5, 'bisected': 0.2}),
    'base': Group(base, 960, 10000, {'check': 5, 'converged': 0.5}),
    'conditioned': Group(conditioned, 960, 10000, {'check': 6}),
}
SHARDS = 6
