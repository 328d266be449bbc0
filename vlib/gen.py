"""Workload generators shared by the property modules."""
import numpy as np


def harmonics(rng, kmax=7, zero=None, one=None, nmax=5, dtype=None,
              wide=0.07, huge=0.0):
    """Sorted harmonic list. zero/one: True, False or None (random). A
    fraction `wide` of the lists is longer and reaches higher, a fraction
    `huge` far higher."""
    if huge and rng.random() < huge:
        kmax, nmax, wide = 15 * kmax, 8 * nmax, 0
    if rng.random() < wide:
        kmax, nmax = 4 * kmax, 3 * nmax
    n = int(rng.integers(1, nmax + 1))
    pool = np.arange(1, kmax + 1)
    hs = set(rng.choice(pool, size=min(n, pool.size), replace=False).tolist())
    if one is True:
        hs.add(1)
    if one is False:
        hs.discard(1)
    if zero is None:
        zero = rng.random() < 0.65
    if zero:
        hs.add(0)
    if not hs or hs == {0}:
        hs.add(1 if one is not False else 2)
    h = np.array(sorted(int(k) for k in hs))
    return h if dtype is None else h.astype(dtype)


def samples(rng, h, lo=1, hi=96, pow2=False, wide=0.07):
    """Even sample count, large enough for h; a fraction `wide` of the counts
    is far larger (128 is the default of the package)."""
    kmax = int(np.max(h))
    if rng.random() < wide:
        return int(max(rng.choice([128, 128, 250, 256, 512]), 2 * kmax + 2))
    if pow2:
        n = 2
        while n <= 2 * kmax + 1:
            n *= 2
        return n * 2 ** int(rng.integers(0, 3))
    base = 2 * kmax + 2
    return int(base + 2 * rng.integers(0, max(1, (hi - base) // 2 + 1)))


def ntkw(rng, Nt):
    """Keyword for the sample count, omitted now and then for the default."""
    return {} if Nt == 128 and rng.random() < .7 else {'Nt': Nt}


def dofs(rng, hi, lo=1, wide=0.06, huge=0.0):
    """Number of DOF, lo..hi, now and then larger (rarely far larger)."""
    if huge and rng.random() < huge:
        return int(rng.integers(30, 130))
    if rng.random() < wide:
        return int(rng.integers(hi + 1, 2 * hi + 4))
    return int(rng.integers(lo, hi + 1))


def units(rng, share=0.3, flo=-6, fhi=9):
    """Length and force level; a share far from one (other units)."""
    if rng.random() < share:
        return 10.0 ** rng.uniform(-9, 5), 10.0 ** rng.uniform(flo, fhi)
    return 10.0 ** rng.uniform(-1, 0.5), None


def spd(rng, n, lo=0.5, hi=3.0):
    A = rng.normal(size=(n, n))
    q, _ = np.linalg.qr(A)
    return (q * rng.uniform(lo, hi, n)) @ q.T


def chain(rng, n, grounded=True):
    k = rng.uniform(0.5, 3.0, n + 1)
    if not grounded:
        k[-1] = 0
    K = np.zeros((n, n))
    for i in range(n):
        K[i, i] += k[i]
        if i:
            K[i, i - 1] -= k[i]
            K[i - 1, i] -= k[i]
            K[i - 1, i - 1] += k[i]
    if grounded:
        K[n - 1, n - 1] += k[n]
    M = np.diag(rng.uniform(0.5, 2.0, n))
    return M, K


def system(rng, n, damping=None):
    """(M, K, C, ab) with a physically sensible spectrum."""
    if rng.random() < 0.5:
        M, K = chain(rng, n)
    else:
        M, K = spd(rng, n, 0.5, 2.0), spd(rng, n, 0.5, 4.0)
    M, K = 0.5 * (M + M.T), 0.5 * (K + K.T)
    damping = damping or rng.choice(['ab', 'full', 'nonsym'])
    whole = rng.random() < 0.12             # integer-typed matrices
    if whole:
        A = rng.integers(-1, 2, (n, n))
        D, B = np.diag(rng.integers(1, 3, n)), A @ A.T + np.diag(
            2 + np.arange(n))
        lam = np.sort(np.linalg.eigvals(np.linalg.solve(D, B)).real)
        whole = bool(np.all(np.diff(lam) > .05))
        if whole:
            M, K = D, B
    ab = None
    if damping == 'ab':
        ab = [float(rng.uniform(0.0, 0.05)), float(rng.uniform(0.005, 0.05))]
        C = ab[0] * M + ab[1] * K
    else:
        C = spd(rng, n, 0.01, 0.1)
        if damping == 'nonsym':
            G = rng.normal(size=(n, n)) * 0.02
            C = C + G - G.T
        if whole and rng.random() < 0.5:
            C = np.diag(rng.integers(0, 2, n))
    return dress(rng, M), dress(rng, K), dress(rng, C), ab


def selector(rng, m, N):
    """Local-coordinate map (m, N) and a force map (N, m)."""
    Q = rng.normal(size=(m, N))
    if rng.random() < 0.4:
        Q = np.zeros((m, N))
        for i in range(m):
            Q[i, rng.integers(N)] = 1.0
            if N > 1 and rng.random() < 0.5:
                Q[i, rng.integers(N)] -= 1.0
            if not Q[i].any():
                Q[i, rng.integers(N)] = 1.0
    if rng.random() < 0.6:
        T = Q.T.copy()
    else:
        T = rng.normal(size=(N, m))
    return Q, T


def dress(rng, a, ints=0.0):
    """The same values in another memory layout: the results may not depend
    on it. Read-only arrays turn a write to an argument into an error."""
    a = np.asarray(a)
    r = rng.random()
    if ints and rng.random() < ints:
        a = np.asarray(np.round(a), int)
    if r < 0.15 and a.ndim:
        big = np.full(tuple(2 * n for n in a.shape), 7, a.dtype)
        v = big[tuple(slice(None, None, 2) for _ in a.shape)]
        v[...] = a
        return v
    if r < 0.3:
        return np.array(a, order='F')
    a = np.array(a)
    if r < 0.5:
        a.flags.writeable = False
    return a


def logu(rng, lo, hi):
    return float(np.exp(rng.uniform(np.log(lo), np.log(hi))))


def fingerprint(obj):
    """Deep snapshot of arrays reachable from obj (for purity monitors)."""
    out = {}

    def walk(o, path, depth):
        if depth > 4:
            return
        if isinstance(o, np.ndarray) or (hasattr(o, 'shape')
                                         and hasattr(o, '__array__')):
            a = np.array(o)
            out[path] = (a.shape, a.astype(str).tobytes()
                         if a.dtype == object else a.tobytes())
        elif isinstance(o, (int, float, complex, str, bool, type(None))):
            out[path] = repr(o)
        elif isinstance(o, (list, tuple)):
            out[path + '#'] = len(o)
            for i, x in enumerate(o):
                walk(x, '%s[%d]' % (path, i), depth + 1)
        elif isinstance(o, dict):
            out[path + '#'] = len(o)
            for k in sorted(o, key=str):
                walk(o[k], '%s[%r]' % (path, k), depth + 1)
        elif callable(o):
            out[path] = 'fn'
        elif hasattr(o, '__dict__'):
            for k in sorted(o.__dict__):
                if not k.startswith('_'):          # private caches are free
                    walk(o.__dict__[k], path + '.' + k, depth + 1)
    walk(obj, '', 0)
    return out


def diff(a, b):
    """Entries of the first snapshot that differ in the second."""
    return sorted(k for k in a if a[k] != b.get(k))
