"""C20 Continuation records."""
import functools
import os
import shutil
import tempfile
import numpy as np
from vlib import gen, ref
from vlib.run import Group, Skip

ID = 'C20'
RULE = ('sequences of callbacks (random sizes, not-a-number rows, restarts '
        'with existing files, several files at once, combined callbacks, '
        'runs interrupted by an exception) against an in-memory log; after '
        'every call the archive must hold exactly the rows handed over so far '
        'and the text files one line per call with the values of that call')
ASSUMPTIONS = ['archives are named *.npz as documented', 'text files print '
               'three decimals (or four significant digits), compared at that '
               'resolution', 'the process is not killed inside a write']


class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix='verif_c20_')
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def special(rng, v):
    """Now and then values that printing or packing could lose."""
    r = rng.random()
    if r < .1:
        v[rng.integers(v.size)] = rng.choice([0.0, -0.0, 1e-310, 1e300, np.inf,
                                              -np.inf, np.nan])
    elif r < .2:
        v[:] = np.nan
    return v


def rows(ctx, fname, log, msg):
    with np.load(fname, allow_pickle=False) as f:
        ctx.check(sorted(f.files) == ['XlamP', 'dirP_prev'],
                  'arrays in the archive: %s (%s)' % (f.files, msg))
        P, D = f['XlamP'], f['dirP_prev']
    for name, A, k in (('XlamP', P, 0), ('dirP_prev', D, 1)):
        ctx.check(A.dtype == np.float64 or A.dtype == np.int64 and all(
            r[k].dtype == np.int64 for r in log), 'type of %s is %s (%s)'
            % (name, A.dtype, msg))
        A = A.astype(float)
        want = np.array([r[k] for r in log], float)
        ctx.check(A.shape == want.shape,
                  '%s: %s rows of %s (%s)' % (name, A.shape, want.shape, msg),
                  what='rows')
        ctx.check(A.tobytes() == want.tobytes(), '%s differs from the '
                  'reported points (%s)' % (name, msg), what='rows')


def archive(ctx):
    """Direct calls with several files and restarts."""
    from tmdsimpy.utils.continuation import continuation_save
    rng = ctx.rng
    with Scratch() as d:
        names = [os.path.join(d, s) for s in ('a.npz', 'b c.npz', 'x.y.npz')]
        sizes = {f: int(rng.integers(1, 12)) for f in names}
        logs = {f: [] for f in names}
        views = np.zeros((40, 12))
        for step in range(int(rng.integers(3, 14))):
            f = names[int(rng.integers(3))]
            n = sizes[f]
            if rng.random() < .05 and logs[f]:
                os.remove(f)           # a deliberate new start
                logs[f] = []
                ctx.event('new_start')
            P = special(rng, rng.normal(size=n) * 10.0 ** rng.uniform(-8, 8))
            D = special(rng, rng.normal(size=n))
            if rng.random() < .3:      # views, as the caller passes them
                views[step, :n] = P
                P = views[step, :n]
                D = np.asfortranarray(np.vstack([D, D]))[0]
            if rng.random() < (.3 if not logs[f] else .05):
                P = rng.integers(-9, 10, n)    # whole numbers
                ctx.event('whole')
            if rng.random() < (.2 if not logs[f] else .05):
                D = rng.integers(-9, 10, n)
            k = P.copy(), D.copy()
            logs[f].append(k)
            continuation_save(P, D, f)
            ctx.check(P.tobytes() == k[0].tobytes() and
                      np.ascontiguousarray(D).tobytes() == k[1].tobytes(),
                      'arguments modified')
            for g in names:
                if logs[g]:
                    rows(ctx, g, logs[g], 'call %d' % step)
                else:
                    ctx.check(not os.path.exists(g), 'unexpected file')
        ctx.check(sorted(os.listdir(d)) == sorted(
            os.path.basename(f) for f in names if logs[f]), 'extra files: %s'
            % os.listdir(d))
        ctx.cover('archive', max(len(v) for v in logs.values()))


def number(ctx, text, want, kind, msg):
    """Printed value at its resolution."""
    try:
        got = float(text)
    except ValueError:
        ctx.fail('%s: %r is not a number' % (msg, text))
        return
    ctx.event('number')
    if np.isnan(want) or np.isinf(want):
        ctx.check(got == want or (np.isnan(got) and np.isnan(want)),
                  '%s: printed %s for %s' % (msg, text, want))
    elif kind == 'f':
        ctx.check(abs(got - want) <= 5.1e-4 + 1e-12 * abs(want),
                  '%s: printed %s for %.8g' % (msg, text, want))
        ctx.check('e' not in text.lower(), msg + ': notation ' + text)
    else:
        ctx.check(abs(got - want) <= 5.1e-4 * abs(want) * 1.01 + 1e-320,
                  '%s: printed %s for %.8g' % (msg, text, want))


def amp(U, w, h, order, rec, harm):
    """Amplitude of the order-th derivative of one harmonic."""
    n = rec.size
    k = 0
    for x in h:
        if x == harm:
            break
        k += 1 if x == 0 else 2
    a = rec @ U[k * n:(k + 1) * n]
    b = rec @ U[(k + 1) * n:(k + 2) * n] if harm else 0.0
    return np.hypot(a, b) * (harm * w) ** order


def writers(rng):
    """(callable(P, D, fname), head lines, [labels], expected(P))"""
    from tmdsimpy.utils import continuation as cu
    n = gen.dofs(rng, 3)
    h = gen.harmonics(rng)
    nhc = int(sum(1 if x == 0 else 2 for x in h))
    rec = rng.normal(size=n)
    if rng.random() < .5:
        rec = np.zeros(n)
        rec[rng.integers(n)] = 1.0
    harm = int(rng.choice(h))
    order = int(rng.choice([0, 1, 2]))
    N = nhc * n
    kind = str(rng.choice(['epmc', 'amp', 'phase', 'vprnm', 'vprnm_phase']))
    u = 'Recov Amp [m/s^%d]' % order
    pi2 = 2 * np.pi
    if kind == 'epmc':
        return (kind, lambda P, D, f: cu.print_epmc_stats(P, D, f), 1,
                ['Amplitude (log)', 'Frequency [Hz]', 'Damping [Frac Crit]'],
                N + 3, lambda P: [(P[-1], 'f'), (P[-3] / pi2, 'f'),
                                  (P[-2] / P[-3] / 2, 'e')])
    if kind == 'amp':
        return (kind, lambda P, D, f: cu.print_hbm_amp_stats(
            P, D, f, h, order, rec, harm), 1,
            ['Frequency [Hz]', 'Force Scaling [N]', u], N + 2,
            lambda P: [(P[-1] / pi2, 'f'), (P[-2], 'f'),
                       (amp(P, P[-1], h, order, rec, harm), 'e')])
    if kind == 'phase':
        fr, am = float(rng.uniform(1, 900)), float(rng.uniform(0, 50))
        return (kind, lambda P, D, f: cu.print_hbm_amp_phase_stats(
            P, D, f, fr, am, h, order, rec, harm), 1,
            ['Frequency [Hz]', 'Amplitude [m/s^%d]' % order,
             'Force Cosine [N]', 'Force Sine [N]', u], N + 3,
            lambda P: [(fr / pi2, 'f'), (am, 'f'), (P[-3], 'e'),
                       (P[-2], 'e'), (amp(P, fr, h, order, rec, harm), 'e')])
    outs = []
    for _ in range(int(rng.integers(1, 4))):
        outs.append((rng.normal(size=n), int(rng.choice(h))))
    second = [''] * (2 if kind == 'vprnm' else 4) + [
        'dof=%d, h=%d' % (i, o[1]) for i, o in enumerate(outs)]
    if kind == 'vprnm':
        return (kind, lambda P, D, f: cu.print_vprnm_stats(
            P, D, f, h, order, outs), 2,
            [['Force Scaling [N]', 'Frequency [Hz]'] + [u] * len(outs),
             second], N + 2,
            lambda P: [(P[-1], 'f'), (P[-2] / pi2, 'f')] + [
                (amp(P, P[-2], h, order, r, k), 'e') for r, k in outs])
    co = int(rng.choice([0, 1, 2]))
    return (kind, lambda P, D, f: cu.print_vprnm_amp_phase_stats(
        P, D, f, h, co, order, outs), 2,
        [['Amp Control [m/s^%d]' % co, 'Force Cosine [N]', 'Force Sine [N]',
          'Frequency [Hz]'] + [u] * len(outs), second], N + 4,
        lambda P: [(P[-1], 'f'), (P[-4], 'f'), (P[-3], 'f'),
                   (P[-2] / pi2, 'f')] + [
            (amp(P, P[-2], h, order, r, k), 'e') for r, k in outs])


def lines_of(f):
    with open(f) as fh:
        text = fh.read()
    return text, [[c.strip() for c in ln.split('&')]
                  for ln in text.splitlines()]


def text(ctx):
    """Statistics files."""
    rng = ctx.rng
    kind, call, nh, labels, N, want = writers(rng)
    labels = labels if nh == 2 else [labels]
    with Scratch() as d:
        f = os.path.join(d, 'sum.dat')
        log = []
        old = None
        for step in range(int(rng.integers(2, 9))):
            P = rng.normal(size=N) * 10.0 ** rng.uniform(-4, 3)
            P[-4:] = np.abs(P[-4:]) + 1e-3
            if rng.random() < .15:
                P[:] = np.nan
            D = rng.normal(size=N)
            k = P.copy(), D.copy()
            call(P, D, f)
            log.append(k[0])
            ctx.check(np.array_equal(P, k[0], equal_nan=True)
                      and np.array_equal(D, k[1]), 'arguments modified')
            txt, L = lines_of(f)
            ctx.check(txt.endswith('\n'), 'unterminated line (%s)' % kind)
            ctx.check(old is None or txt.startswith(old), 'earlier lines '
                      'changed (%s)' % kind)
            old = txt
            ctx.check(len(L) == nh + len(log), '%s: %d lines after %d calls'
                      % (kind, len(L), len(log)), what='lines')
        for a, b in zip(L, labels):
            ctx.check(a == b, '%s: heading %s, expected %s' % (kind, a, b))
        for k, (row, P) in enumerate(zip(L[nh:], log)):
            with np.errstate(all='ignore'):
                w = want(P)
            ctx.check(len(row) == len(w), '%s: %d columns, expected %d'
                      % (kind, len(row), len(w)))
            for j, (t, (v, form)) in enumerate(zip(row, w)):
                number(ctx, t, v, form, '%s line %d column %d' % (kind, k, j))
        ctx.check(os.listdir(d) == ['sum.dat'], 'extra files')
    ctx.cover('text', kind)


def combined(ctx):
    """combine_callback_funs: each function once, in order, same values."""
    from tmdsimpy.utils.continuation import combine_callback_funs
    rng = ctx.rng
    seen = []
    m = int(rng.integers(0, 6))
    order = [int(v) for v in rng.permutation(m)] + ([0] if m and
                                                     rng.random() < .3 else [])

    def make(k):
        return lambda p, q: seen.append((k, p.copy(), q.copy()))
    funs = [make(k) for k in order]
    cb = functools.partial(combine_callback_funs, funs)
    n = gen.dofs(rng, 5, huge=.012)
    hist = []
    for _ in range(int(rng.integers(1, 6))):
        P, D = special(rng, rng.normal(size=n)), rng.normal(size=n)
        out = cb(P, D)
        ctx.check(out is None, 'result of a callback')
        hist += [(k, P.copy(), D.copy()) for k in order]
    ctx.check(len(hist) == len(seen) and all(
        a[0] == b[0] and np.array_equal(a[1], b[1], equal_nan=True)
        and np.array_equal(a[2], b[2], equal_nan=True)
        for a, b in zip(hist, seen)), 'combined callbacks: %s, expected %s'
        % ([a[0] for a in seen], [a[0] for a in hist]))
    ctx.check(len(funs) == len(order), 'list of functions modified')
    # a failing one is not hidden

    def bad(p, q):
        raise KeyError('injected')
    del seen[:]
    try:
        combine_callback_funs([make(1), bad, make(2)], P, D)
        ctx.fail('exception of a callback swallowed')
    except KeyError:
        ctx.check(seen and seen[0][0] == 1, 'order of callbacks')
    ctx.cover('combined', m)


def runs(ctx):
    """Continuation runs recording to files, with an interruption and a
    restart; event log against files."""
    from tmdsimpy.continuation import Continuation
    from tmdsimpy.solvers import NonlinearSolver
    from tmdsimpy.utils import continuation as cu
    from tmdsimpy.vibration_system import VibrationSystem
    from tmdsimpy.nlforces.cubic_stiffness import CubicForce
    rng = ctx.rng
    n = int(rng.integers(1, 3))
    K = gen.spd(rng, n, .8, 3.)
    vs = VibrationSystem(np.eye(n), K, ab=[.05, .01])
    Q = np.zeros((1, n))
    Q[0, -1] = 1.0
    vs.add_nl_force(CubicForce(Q, Q.T * 1.0, kalpha=np.array([.3])))
    h = np.array([0, 1, 3]) if rng.random() < .5 else np.array([1, 3])
    nhc = ref.ncomp(h)
    i1 = n * int(h[0] == 0)
    w, V = np.linalg.eigh(K)
    Fl = np.zeros(nhc * n)
    Fl[i1 + n:i1 + 2 * n] = 1.0
    rec = np.zeros(n)
    rec[-1] = 1.0
    count = [0, None]
    boom = FloatingPointError('injected')

    def fun(z, calc_grad=True):
        count[0] += 1
        if count[1] is not None and count[0] >= count[1]:
            raise boom
        if mode == 'epmc':
            out = vs.epmc_res(z, Fl, h, Nt=32)
        else:
            out = vs.hbm_res(z, .1 * Fl, h, Nt=32)
        return out if calc_grad else out[:1]
    mode = 'epmc' if rng.random() < .5 else 'hbm'
    if mode == 'epmc':
        z0 = np.zeros(nhc * n + 3)
        z0[i1:i1 + n] = V[:, 0] * np.sign(V[:, 0].sum())
        z0[-3] = np.sqrt(w[0])
        z0[-2] = .05 + .01 * w[0]
        lam = (-2.0, float(rng.uniform(-1.5, .3)))
    else:
        z0 = np.zeros(nhc * n + 1)
        wl = .5 * np.sqrt(w[0])
        z0[i1:i1 + 2 * n] = 1e-2
        z0[i1 + n:i1 + 2 * n] = np.linalg.solve(K - wl ** 2 * np.eye(n),
                                                .1 * np.ones(n))
        lam = (wl, wl * float(rng.uniform(1.1, 1.6)))
    with Scratch() as d:
        f, t = os.path.join(d, 'full.npz'), os.path.join(d, 'sum.dat')
        log = []

        def record(P, D):
            log.append((P.copy(), D.copy()))
        funs = [record, lambda P, D: cu.continuation_save(P, D, f)]
        if mode == 'epmc':
            funs.append(lambda P, D: cu.print_epmc_stats(P, D, t))
        else:
            funs.append(lambda P, D: cu.print_hbm_amp_stats(
                P, D, t, h, 1, rec, 1))
        funs = [funs[k] for k in rng.permutation(3)]
        cfg = {'verbose': -1, 'MaxSteps': int(rng.integers(2, 9)),
               'xtol': 1e-9, 'DynamicCtoP': bool(rng.random() < .5),
               'callback': lambda P, D: cu.combine_callback_funs(funs, P, D)}
        total = 0
        for run in range(3):
            cont = Continuation(NonlinearSolver(), ds0=.05, config=cfg)
            start = len(log)
            count[:] = [0, int(rng.integers(6, 40)) if run == 1 else None]
            out = None
            try:
                out = cont.continuation(fun, z0, lam[0], lam[1])
            except FloatingPointError:
                ctx.event('interrupted')
            except AssertionError:
                raise Skip('no initial solution')
            new = log[start:]
            if out is not None:
                ctx.check(len(new) == len(out) + 1, '%d reports for %d points'
                          % (len(new), len(out)))
                ctx.check(all(a[0].tobytes() == b.tobytes()
                              for a, b in zip(new, out)),
                          'reported points differ from the result')
                ctx.check(np.all(np.isnan(new[-1][0])) and np.all(
                    np.isfinite(new[-1][1])), 'final report')
                ctx.check(np.all(np.isnan(new[0][1])), 'first report')
                total += 1
            if log:
                rows(ctx, f, log, 'run %d' % run)
                txt, L = lines_of(t)
                ctx.check(len(L) == 1 + len(log), '%d lines for %d reports'
                          % (len(L), len(log)), what='lines')
                for row, (P, D) in zip(L[1:], log):
                    if mode == 'epmc':
                        wv = [(P[-1], 'f'), (P[-3] / 2 / np.pi, 'f'),
                              (P[-2] / P[-3] / 2, 'e')]
                    else:
                        wv = [(P[-1] / 2 / np.pi, 'f'), (P[-2], 'f'),
                              (amp(P, P[-1], h, 1, rec, 1), 'e')]
                    for tx, (v, k) in zip(row, wv):
                        number(ctx, tx, v, k, mode + ' run')
        ctx.check(total >= 2, 'runs incomplete')
        ctx.cover('runs', mode, len(log))


GROUPS = {
    'archive': Group(archive, 720, 10000, {'rows': 10}),
    'text': Group(text, 1440, 30000, {'lines': 2, 'number': 6}),
    'combined': Group(combined, 360, 6000, {'check': 2}),
    'runs': Group(runs, 190, 2000, {'rows': 4, 'lines': 2, 'number': 10,
                                  'interrupted': 0.3}),
}
SHARDS = 4
