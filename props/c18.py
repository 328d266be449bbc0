"""C18 Linear solves, factored solves, eigen pairs."""
import numpy as np
from vlib import gen
from vlib.run import Group

ID = 'C18'
RULE = ('random nonsymmetric systems (1-12 unknowns, condition numbers to '
        '1e6), histories of interleaved factorisations and solves for both '
        'solver classes; symmetric generalized eigenproblems with subsets '
        'inside and beyond the number of DOF')
ASSUMPTIONS = ['float64 arithmetic', 'residual-based acceptance scaled by '
               'the norm of the matrix']


def _solvers():
    from tmdsimpy.solvers import NonlinearSolver
    from tmdsimpy.jax.solvers import NonlinearSolverOMP
    return [('plain', NonlinearSolver()),
            ('parallel', NonlinearSolverOMP(config={'verbose': False}))]


def _matrix(rng):
    n = int(rng.choice([1, 2, 3, 5, 8, 12]))
    A = rng.normal(size=(n, n))
    u, s, v = np.linalg.svd(A)
    s = np.exp(rng.uniform(0, rng.choice([1.0, 6.0, 13.0]), n))
    return gen.dress(rng, (u * s) @ v)


def _accept(ctx, A, x, b, msg):
    x = np.asarray(x)
    ctx.check(x.shape == b.shape, msg + ': shape %s' % (x.shape,))
    r = A @ x - b
    sc = np.abs(A).sum(1) * np.abs(x).max() + np.abs(b)
    ctx.check(bool(np.all(np.abs(r) <= 1e-10 * sc)),
              msg + ': residual %.3g' % np.abs(r).max())


def history(ctx):
    rng = ctx.rng
    for name, s in _solvers():
        mats, facs = [], []
        log = []
        for step in range(int(rng.integers(4, 10))):
            op = rng.choice(['factor', 'use', 'solve', 'again'],
                            p=[.3, .35, .25, .1])
            if op in ('factor', 'again') or not facs:
                A = _matrix(rng)
                k = int(rng.integers(len(facs))) if facs else 0
                if op == 'again' and facs and mats[k].flags.writeable:
                    # other values in the same array, factored anew
                    n = mats[k].shape[0]
                    mats[k][...] = rng.normal(size=(n, n)) + 3 * n * np.eye(n)
                    A = mats.pop(k)
                    facs.pop(k)
                keep = A.copy()
                facs.append(s.lin_factor(A))
                ctx.check(np.array_equal(A, keep), name + ' factorisation '
                          'modified the matrix')
                mats.append(A)
                log.append('factor')
            elif op == 'use':
                k = int(rng.integers(len(facs)))
                A = mats[k]
                b = gen.dress(rng, rng.normal(size=A.shape[0])
                              * 10.0 ** rng.integers(-3, 4))
                keep = A.copy(), b.copy()
                x = s.lin_factored_solve(facs[k], b)
                _accept(ctx, A, x, b, '%s solve with factorisation %d of %d'
                        % (name, k, len(facs)))
                ctx.check(np.array_equal(A, keep[0])
                          and np.array_equal(b, keep[1]),
                          name + ' factored solve modified its inputs')
                log.append('use%d' % (k - len(facs)))
            else:
                A = _matrix(rng)
                b = gen.dress(rng, rng.normal(size=A.shape[0]))
                keep = A.copy(), b.copy()
                _accept(ctx, A, s.lin_solve(A, b), b, name + ' linear solve')
                ctx.check(np.array_equal(A, keep[0])
                          and np.array_equal(b, keep[1]),
                          name + ' linear solve modified its inputs')
                log.append('solve')
        ctx.cover(name, *sorted(set(log)))
    ctx.note(history=log)


def eigen(ctx):
    rng = ctx.rng
    for name, s in _solvers():
        n = gen.dofs(rng, 10, huge=.012)
        K = gen.spd(rng, n, 0.0 if rng.random() < 0.3 else 0.1, 9.0)
        if rng.random() < 0.3:
            K = K - 2 * np.eye(n)
        K = 0.5 * (K + K.T) * 10.0 ** rng.integers(-2, 5)
        M = None
        if rng.random() < 0.8:
            M = gen.spd(rng, n, 0.2, 3.0)
            M = 0.5 * (M + M.T)
        lo = int(rng.integers(0, n)) if rng.random() < 0.3 else 0
        hi = int(rng.integers(lo, n + 4))
        sub = [lo, hi]
        default = rng.random() < 0.25
        K = gen.dress(rng, K)
        M = None if M is None else gen.dress(rng, M)
        keep = K.copy(), None if M is None else M.copy()
        if default:
            lo, hi = 0, 2
            lam, V = s.eigs(K, M)
        else:
            lam, V = s.eigs(K, M, subset_by_index=sub)
            ctx.check(sub == [lo, hi], name + ' eigen analysis changed the '
                      'requested subset to %s' % sub)
        m = min(hi, n - 1) - lo + 1
        lam, V = np.asarray(lam), np.asarray(V)
        ctx.check(lam.shape == (m,) and V.shape == (n, m),
                  '%s: %d pairs requested of %d, got %s %s'
                  % (name, m, n, lam.shape, V.shape))
        Mm = np.eye(n) if M is None else M
        sc = np.abs(K).max() * n
        ctx.check(bool(np.all(np.diff(lam) >= -1e-9 * sc)),
                  name + ' eigenvalues are not ascending')
        ctx.close(K @ V, (Mm @ V) * lam, name + ' eigen equation',
                  rtol=1e-8, scale=sc)
        ctx.close(V.T @ Mm @ V, np.eye(m), name + ' mass orthonormality',
                  rtol=1e-8, scale=1.0)
        # the requested ones, counted from the smallest (Sylvester inertia)
        allv = np.sort(np.real(np.linalg.eigvals(np.linalg.solve(Mm, K))))
        ctx.close(lam, allv[lo:lo + m], name + ' spectrum subset', rtol=1e-6,
                  scale=np.abs(allv).max() + 1e-300)
        ctx.check(np.array_equal(K, keep[0]) and
                  (M is None or np.array_equal(M, keep[1])),
                  name + ' eigen analysis modified its matrices')
        ctx.cover(name, 'M' if M is not None else 'std',
                  'default' if default else 'sub', 'over' if hi >= n else 'in',
                  'from%d' % min(lo, 1))


def eigen_history(ctx):
    """Defaults do not drift: small systems first, then large ones."""
    rng = ctx.rng
    for name, s in _solvers():
        for n in rng.permutation([1, 2, 3, 6, 9]):
            K = gen.spd(rng, int(n), 0.1, 5.0)
            K = 0.5 * (K + K.T)
            lam, V = s.eigs(K)
            ctx.check(len(lam) == min(3, n),
                      '%s: default analysis of %d DOF returned %d pairs'
                      % (name, n, len(lam)))
    ctx.cover('history')


GROUPS = {
    'history': Group(history, 100, 1500, {'check': 4}),
    'eigen': Group(eigen, 900, 5000, {'check': 6}),
    'eigen_history': Group(eigen_history, 4, 50, {'check': 10}),
}
SHARDS = 4
