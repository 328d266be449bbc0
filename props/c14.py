"""C14 Static history, prestress, start position and damping protocol."""
import warnings
import numpy as np
from vlib import elems, forms, gen, ref
from vlib.run import Group

ID = 'C14'
RULE = ('random operation sequences (evaluate, commit, initialize, friction '
        'off/on, start position, harmonic evaluation, damping changes) on '
        'systems of several elements with and without memory; every static '
        'residual, harmonic force and damping matrix is compared with a '
        'shadow state machine stepping independent element models')
ASSUMPTIONS = ['float64 arithmetic',
               'history is initialized after a harmonic evaluation of numpy '
               'elements with memory (they share the state variables)']


class Shadow:
    """Static law of one element with committed state."""

    def __init__(self, el):
        self.el = el
        self.off = False
        self.init()

    def init(self):
        el, k = self.el, self.el.kind
        m = el.Q.shape[0]
        if k in ('jenkins', 'vjenkins'):
            self.st = (np.zeros(m), np.zeros(m))
        elif k in ('iwan4', 'viwan4'):
            self.st = (0.0, np.zeros(el.par['model'].phi.size))
        elif k[:5] == 'eldry':
            self.st = (np.zeros(m), np.zeros(m))
        elif k[:5] == 'rough':
            self.st = el.par['model'].init_state()

    def eval(self, X):
        """force (global), candidate state, size of the trial forces"""
        el, k, p = self.el, self.el.kind, self.el.par
        u = el.Q @ X
        s = 0.0
        if k in ('jenkins', 'vjenkins'):
            lim = 0.0 if self.off else p['Fs']
            f = ref.jenkins_path(u[None, :], p['kt'], lim, *self.st)[0]
            new = (u, f)
            s = p['kt'] * (np.abs(u) + np.abs(self.st[0])).max()
        elif k in ('iwan4', 'viwan4'):
            f, x = p['model'].path(u, self.st[0], self.st[1])
            new = (u[0], x)
            s = p['kt'] * (abs(u[0]) + abs(self.st[0])) if 'kt' in p else \
                np.abs(f).max() + p['model'].kt * abs(u[0])
        elif k[:5] == 'eldry':
            f = ref.eldry_path(u[None, :], p['nt'], p['kt'], p['kn'],
                               0.0 if self.off else p['mu'], p['gap'],
                               *self.st)[0]
            new = (u, f)
            s = max(p['kt'], p['kn']) * (np.abs(u)
                                         + np.abs(self.st[0])).max()
        elif k[:5] == 'rough':
            mod = p['model']
            mod.mu = 0.0 if self.off else p['mu']
            f, new, _ = mod.static(u, self.st)
            mod.mu = p['mu']
            d = max(abs(u[2]), 1e-30)
            s = 1e3 * np.abs(f).max() + 8 * mod.Gs * np.sqrt(
                mod.R * 2 * d) * mod.wts.sum() * (
                    np.abs(u[:2] - self.st['u0'][:2]).max())
        else:
            f = el.law(u[None, :], u[None, :], u[None, :])[0]
            new = None
            s = 10 * el.par['bound'](np.abs(u)) if k == 'poly' else 0.0
        return el.T @ f, new, (s + np.abs(f).max()) * max(
            1.0, np.abs(el.T).max()) * el.Q.shape[0]


MEMORY = ['jenkins', 'vjenkins', 'iwan4', 'viwan4', 'eldry2', 'eldry3']
PRE = ['jenkins', 'vjenkins', 'eldry2', 'eldry3']


def protocol(ctx):
    rng = ctx.rng
    pos = ctx.index % 6
    prng, h, Nt = elems.pool(ctx.seed, 'C14', pos, nmax=2, hi=16, kmax=2,
                             zero=True)
    pre = bool(ctx.index % 3)        # systems whose friction can be switched
    mem = PRE if pre else MEMORY
    N = int(rng.integers(1, 4))
    S = forms.Sys(rng, N=N, lev=0.7, kinds=['cubic', 'quintic', 'uni',
                                            'iwanbb'],
                  nel=int(rng.integers(0, 3)))
    kinds = [str(k) for k in rng.choice(mem, int(rng.integers(1, 4)))]
    for k in kinds:
        el = elems.make(rng, k, N, m=1, lev=0.7, u0mode=str(rng.choice(
            ['default', 'scalar'])))
        S.els.insert(int(rng.integers(0, len(S.els) + 1)), el)
    from tmdsimpy.vibration_system import VibrationSystem
    S.obj = VibrationSystem(S.M, S.K, S.C) if S.ab is None else \
        VibrationSystem(S.M, S.K, ab=list(S.ab))
    for el in S.els:
        S.obj.add_nl_force(el.obj)
    sh = [Shadow(e) for e in S.els]
    numpy_mem = any(e.kind in ('jenkins', 'vjenkins', 'iwan4', 'viwan4')
                    for e in S.els)
    S.obj.init_force_history()
    X = np.zeros(N)
    trace = []
    C, ab = S.C.copy(), None if S.ab is None else list(S.ab)
    F0 = rng.normal(size=N)
    been = []

    def static(x, tag):
        """static residual against the shadow"""
        R, J = S.obj.static_res(x, F0)
        want = S.K @ x - F0
        sc = np.abs(S.K).sum() * np.abs(x).max() + np.abs(F0).max()
        for q in sh:
            f, _, s = q.eval(x)
            want = want + f
            sc += s
        ctx.close(R, want, 'static residual of %s (%s) after %s' % (
            [e.kind for e in S.els], tag, ','.join(trace[-8:])), rtol=1e-9,
            scale=sc)

    for step in range(18):
        ops = ['eval', 'commit', 'init', 'damp', 'start', 'aft']
        p = [.3, .3, .08, .06, .04, .06]
        if pre:
            ops += ['off', 'on']
            p += [.08, .08]
        op = str(rng.choice(ops, p=np.array(p) / sum(p)))
        trace.append(op)
        x = rng.normal(size=N) * S.lev if rng.random() < 0.4 else \
            X + rng.normal(size=N) * S.lev * 0.3
        if been and rng.random() < 0.25:     # return to an earlier position
            x = been[int(rng.integers(-min(len(been), 3), 0))].copy()
        elif rng.random() < 0.05:
            x = x * 0.0
        keep = x.copy()
        if op == 'eval':
            static(x, 'evaluation')
            static(x, 'repeated evaluation')
        elif op == 'commit':
            if rng.random() < 0.5:
                static(x, 'evaluation')
            S.obj.update_force_history(x)
            for q in sh:
                q.st = q.eval(x)[1]
            X = x
            been.append(x.copy())
            ctx.event('commit')
        elif op == 'init':
            S.obj.init_force_history()
            for q in sh:
                q.init()
        elif op in ('off', 'on'):
            S.obj.set_prestress_mu() if op == 'off' else \
                S.obj.reset_real_mu()
            for q in sh:
                if q.el.kind in PRE:
                    q.off = op == 'off'
            ctx.event('friction')
        elif op == 'damp':
            mode = int(rng.integers(0, 4))
            old = S.obj.C, S.obj.ab
            if mode == 0:
                S.obj.set_new_C()
            elif mode == 1:
                C = gen.spd(rng, N, 0.01, 0.2) * (rng.random() < .85)
                ab = None
                S.obj.set_new_C(C=C.copy())
            elif mode >= 2:
                ab = [float(rng.uniform(0, .1) * (rng.random() < .7))
                      for _ in range(2)]
                C = ab[0] * S.M + ab[1] * S.K
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    if mode == 2:
                        S.obj.set_new_C(ab=list(ab))
                    else:
                        S.obj.set_new_C(C=np.eye(N), ab=list(ab))
            del old
        elif op == 'start':
            with warnings.catch_warnings(record=True) as wl:
                warnings.simplefilter('always')
                S.obj.set_aft_initialize(x)
            n_no = 0
            for e in S.els:
                if e.kind[:5] == 'eldry':
                    e.par['u0'] = e.Q @ x
                elif e.hyst:
                    n_no += 1
            ctx.check(len([q for q in wl if q.category is UserWarning])
                      >= (n_no > 0), 'unsupported start position is silent')
        elif op == 'aft':
            U = elems.motion(rng, N, h, S.lev)
            w = float(rng.uniform(.5, 2))
            want = np.zeros(U.size)
            sc = 1e-12
            for q in sh:
                e = q.el
                lawf = e.law
                if q.off and e.kind in ('jenkins', 'vjenkins'):
                    def lawf(u, v, Ul):
                        return 0 * u
                old = e.par.get('mu')
                if q.off and old is not None:
                    e.par['mu'] = 0.0
                f, (_, u, _, ft) = ref.aft(e.Q, e.T, U, w, h, Nt, lawf)
                if old is not None:
                    e.par['mu'] = old
                want = want + f
                sc += (np.abs(ft).max() + 1e-3 * e.par.get('lim', 0)
                       + e.par.get('kt', 0)
                       * np.abs(u).max()) * max(1.0, np.abs(e.T).max()) \
                    * e.Q.shape[0]
            got = S.obj.total_aft(U, w, h, Nt=Nt)[0]
            ctx.close(got, want, 'harmonic force of %s after %s' % (
                [e.kind for e in S.els], ','.join(trace[-8:])), rtol=1e-9,
                scale=sc)
            ctx.event('harmonic')
            if numpy_mem:
                S.obj.init_force_history()
                for q in sh:
                    q.init()
        ctx.check(np.array_equal(x, keep), 'displacement modified by ' + op)
        static(X, 'after ' + op)
        ctx.close(S.obj.C, C, 'damping after ' + op, rtol=1e-14)
        ctx.check((S.obj.ab is None) == (ab is None)
                  and (ab is None or list(S.obj.ab) == ab),
                  'proportional coefficients after %s: %s, expected %s'
                  % (op, S.obj.ab, ab))
        ctx.check(np.array_equal(S.obj.M, S.M)
                  and np.array_equal(S.obj.K, S.K),
                  'mass or stiffness changed by ' + op)
    ctx.note(kinds=[e.kind for e in S.els], trace=trace)
    ctx.cover('+'.join(sorted(set(e.kind for e in S.els if e.hyst))),
              'commits%d' % min(trace.count('commit'), 6), 'pre%d' % pre)


def rough(ctx):
    """The same with rough contacts."""
    rng = ctx.rng
    pos = ctx.index % 4
    prng, h, Nt = elems.pool(ctx.seed, 'C14r', pos, nmax=2, hi=12, kmax=2)
    mat = elems.rough_material(prng)
    mat['model'] = ['TAN', 'MIF'][pos % 2]
    from tmdsimpy.vibration_system import VibrationSystem
    N = 3
    M, K, C, ab = gen.system(rng, N)
    s = VibrationSystem(M, K, C)
    r1 = elems.make_rough(rng, mat, N)
    lev = r1.par['lev']
    els = [r1, elems.make(rng, 'eldry3', N, m=1, lev=lev),
           elems.make(rng, 'cubic', N, lev=lev)]
    els = [els[i] for i in rng.permutation(3)]
    sh = [Shadow(e) for e in els]
    for e in els:
        s.add_nl_force(e.obj)
    s.init_force_history()
    Qi = np.linalg.pinv(r1.Q)
    u = np.zeros(3)
    X = np.zeros(3)
    F0 = np.zeros(N)
    trace = []
    big = 0.0
    for step in range(14):
        op = str(rng.choice(['eval', 'commit', 'init', 'off', 'on'],
                            p=[.35, .4, .05, .1, .1]))
        trace.append(op)
        d = rng.normal(size=3) * lev * np.array([.05, .05, 1.])
        u = d if rng.random() < 0.3 else u + 0.5 * d
        if rng.random() < 0.6:
            u[2] = abs(u[2]) + rng.random() * lev
        x = Qi @ u
        if op == 'commit':
            s.update_force_history(x)
            for q in sh:
                q.st = q.eval(x)[1]
            ctx.event('commit')
            X = x
        elif op == 'init':
            s.init_force_history()
            for q in sh:
                q.init()
        elif op in ('off', 'on'):
            s.set_prestress_mu() if op == 'off' else s.reset_real_mu()
            for q in sh:
                q.off = op == 'off' and q.el.hyst
        for y in (x, X):
            R = s.static_res(y, F0)[0]
            want = K @ y
            sc = np.abs(K).sum() * np.abs(y).max()
            for q in sh:
                f, _, z = q.eval(y)
                want = want + f
                sc += z
            big = max(big, sc)
            ctx.close(R, want, 'static residual with rough contact after %s'
                      % ','.join(trace[-8:]), rtol=1e-9, scale=big)
    ctx.cover(r1.kind, 'commits%d' % trace.count('commit'))


def twins(ctx):
    """Histories of two systems sharing no elements are independent, and an
    evaluation that raises leaves the committed state alone."""
    rng = ctx.rng
    N = int(rng.integers(1, 4))
    from tmdsimpy.vibration_system import VibrationSystem
    M, K, C, ab = gen.system(rng, N)
    kind = str(rng.choice(MEMORY))
    Q, T = gen.selector(rng, {'eldry2': 2, 'eldry3': 3}.get(kind, 1), N)
    out = []
    for _ in range(2):
        el = elems.make(np.random.default_rng(ctx.index), kind, N, m=1,
                        Q=Q, T=T, lev=.7)
        s = VibrationSystem(M, K, C)
        s.add_nl_force(el.obj)
        s.init_force_history()
        out.append((s, Shadow(el)))
    F0 = np.zeros(N)
    for step in range(10):
        k = int(rng.integers(2))
        s, q = out[k]
        x = rng.normal(size=N)
        if rng.random() < 0.7:
            s.update_force_history(x)
            q.st = q.eval(x)[1]
        else:
            try:
                s.static_res(np.full(N + 2, 0.1), F0)
                raised = False
            except Exception:
                raised = True
            ctx.check(raised, 'displacement of wrong size accepted')
        for s2, q2 in out:
            R = s2.static_res(x, F0)[0]
            f, _, z = q2.eval(x)
            ctx.close(R, K @ x + f, 'static residual of %s' % kind, rtol=1e-9,
                      scale=z + np.abs(K).sum() * np.abs(x).max())
    ctx.cover('twins', kind)


GROUPS = {
    'protocol': Group(protocol, 150, 3000, {'check': 60, 'commit': 3,
                                            'friction': 1, 'harmonic': 0.3}),
    'rough': Group(rough, 40, 800, {'check': 20, 'commit': 3}),
    'twins': Group(twins, 240, 720, {'check': 12}),
}
SHARDS = 6
