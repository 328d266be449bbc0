"""C25 Superharmonic reduced model."""
import numpy as np
from vlib import forms, gen, ref
from vlib.run import Group, Skip

ID = 'C25'
RULE = ('random fundamental and superharmonic backbones and tracked branches '
        '(both branch layouts), superharmonic 2..7, harmonic lists with and '
        'without the static component, amplitudes over ten decades, damping '
        'down to 1e-6; the whole output is compared with an independent '
        'complex-number evaluation of the documented construction, and the '
        'row at the tracked point with the tracked solution itself')
ASSUMPTIONS = ['float64 arithmetic', 'backbones with increasing amplitude at '
               'the control points',
               'rows whose two roots coincide to rounding are not decided']


def smooth(rng, m, shape, lo=-1.0, hi=1.0, var=0.5):
    a = rng.uniform(lo, hi, shape)
    b = var * rng.uniform(-1, 1, shape) * (hi - lo) / 2
    return a + b * np.linspace(0, 1, m).reshape((m,) + (1,) * len(shape))


def backbone(rng, m, N, h, v, zlo, lo, hi):
    nc = ref.ncomp(h)
    w = smooth(rng, m, (), 0.5, 5.0, v * .2)
    z = 10.0 ** smooth(rng, m, (), zlo, -.8, v * .3)
    return np.column_stack([smooth(rng, m, (nc * N,), var=v), w, 2 * w * z,
                            np.linspace(lo, hi, m)])


def cplx(row, h, hh, N, p=None):
    i = forms.hindex(h, hh)
    return row[..., i * N:(i + 1) * N] - 1j * row[..., (i + 1) * N:(i + 2)
                                                  * N]


def lerp(x, xs, T):
    """Row of T at the value x of the increasing reference xs."""
    k = int(np.clip(np.searchsorted(xs, x) - 1, 0, len(xs) - 2))
    t = (x - xs[k]) / (xs[k + 1] - xs[k])
    return T[k] * (1 - t) + T[k + 1] * t


def model(d):
    """The documented construction with complex amplitudes. Returns dict of
    harmonic -> (rows, N) complex, static, Omega, f, row of the peak."""
    N, rhi = d['N'], d['rhi']
    hv, hr, hf = d['h_vprnm'], d['h_rhi'], d['h_fund']
    vb, rb, fb = d['vprnm_bb'], d['epmc_rhi_bb'], d['epmc_fund_bb']
    c1, cr, a1 = d['control_point_h1'], d['control_point_rhi'], \
        d['control_amp_h1']
    va = abs(cplx(vb, hv, 1, N) @ c1)
    vp = lerp(a1, va, vb)
    nv = ref.ncomp(hv) * N
    Om_v = vp[-2]
    f_v = np.hypot(vp[nv], vp[nv + 1]) if vb.shape[1] == nv + 4 else vp[-1]
    # superharmonic backbone at the tracked superharmonic amplitude
    q = 10.0 ** rb[:, -1]
    ra = abs(cplx(rb, hr, 1, N) @ cr) * q
    rl = np.column_stack([rb[:, :-1], q])
    target = abs(cplx(vp, hv, rhi, N) @ cr)
    if not ra[0] < target < ra[-1]:
        raise Skip('tracked superharmonic outside of its backbone')
    rp = lerp(target, ra, rl)
    qs, ws = rp[-1], rp[-3]
    if np.any(abs(q - qs) < 1e-6 * qs):
        raise Skip('tracked point at a backbone point')
    T = np.vstack([rl[q < qs], rp])
    z = T[:, -2] / (2 * T[:, -3])
    w = T[:, -3] * rhi * Om_v / ws
    f = 2 * qs * (rhi * Om_v) ** 2 * z[-1]
    rows = []
    for sg in (1, -1):
        for k in range(len(T)):
            if k == len(T) - 1:
                o2 = (rhi * Om_v) ** 2 * (1.0 if sg > 0 else 1 - 4 * z[k]
                                          ** 2)
            else:
                g = f / T[k, -1]
                s = 2 * w[k] ** 2 * z[k]
                r = s * s * z[k] ** 2 + (g - s) * (g + s)
                if abs(r) < 1e-11 * (g * g + s * s):
                    raise Skip('coinciding roots')
                if r < 0:
                    continue
                o2 = w[k] ** 2 * (1 - 2 * z[k] ** 2) + sg * np.sqrt(r)
                if abs(o2) < 1e-9 * (w[k] ** 2 + np.sqrt(r)):
                    raise Skip('root at zero')
            if o2 > 0:
                rows.append((k, sg, np.sqrt(o2)))
    rows = sorted(r for r in rows if r[1] < 0) + sorted(
        (r for r in rows if r[1] > 0), reverse=True)
    k = np.array([r[0] for r in rows])
    o = np.array([r[2] for r in rows])
    pk = [i for i, r in enumerate(rows) if r[:2] == (len(T) - 1, 1)][0]
    H = (w[k] ** 2 - o * o) + 2j * z[k] * w[k] * o
    # modal coordinate direction; the force phase follows from the peak phase
    e = np.conj(H) / abs(H)
    e[k == len(T) - 1] = np.where(
        np.arange(len(k))[k == len(T) - 1] == pk, -1j,
        e[k == len(T) - 1])
    sup = {}
    zv = np.angle(cplx(vp, hv, rhi, N) @ cr)
    zs = np.angle((cplx(T[-1], hr, 1, N) @ cr) * e[pk])
    rot = e * np.exp(1j * (zv - zs))
    for hh in hr[hr > 0]:
        sup[rhi * hh] = cplx(T[k], hr, hh, N) * (T[k, -1] * 1.0)[:, None] * (
            rot ** hh)[:, None]
    qk = T[k, -1]
    ex = d['extra_Omega']
    Om = o / rhi
    if ex is not None:
        if np.any(np.diff(o) <= 1e-12 * o[1:]):
            raise Skip('frequencies not increasing')
        allw = np.sort(np.r_[Om, ex])
        pk = int(np.searchsorted(allw, Om[pk] * (1 - 1e-13)))

        def at(v, left=np.nan, right=np.nan):
            return np.interp(allw, Om, v, left=left, right=right)
        sup = {hh: np.stack([at(v[:, j].real) + 1j * at(v[:, j].imag)
                             for j in range(N)], 1)
               for hh, v in sup.items()}
        qk = at(qk, qk[0], qk[-1])
        Om = allw
    # fundamental
    q1 = 10.0 ** fb[:, -1]
    fa = abs(cplx(fb, hf, 1, N) @ c1) * q1
    fp = lerp(a1, fa, np.column_stack([fb[:, :-1], q1]))
    w1, z1 = fp[-3], fp[-2] / (2 * fp[-3])
    ph = abs(np.conj(cplx(fp, hf, 1, N)) @ d['Flcos'])
    if ph < 1e-6 * np.abs(d['Flcos']).max():
        raise Skip('orthogonal force')
    F = fp[-1] * abs((w1 - Om) * (w1 + Om) + 2j * z1 * w1 * Om) / ph
    t = np.exp(1j * (np.angle(cplx(vp, hv, 1, N) @ c1) - np.angle(
        cplx(fp, hf, 1, N) @ c1)))
    out = {hh: np.tile(cplx(fp, hf, hh, N) * fp[-1] * t ** hh, (len(Om), 1))
           for hh in hf[hf > 0]}
    for hh, v in sup.items():
        out[hh] = out[hh] + v if hh in out else v
    Fraw = F
    if d['correct_force']:
        F = F + (f_v - F[pk]) * qk / qk.max()
    has0 = hv[0] == 0 or hf[0] == 0 or hr[0] == 0
    st = None
    if has0:
        st = vp[:N] if hv[0] == 0 else np.zeros(N)
    return dict(h=np.array(([0] if has0 else []) + sorted(out)), amp=out,
                static=st, Om=Om, f=F, pk=pk, vp=vp, f_v=f_v, scale_f=np.abs(
                    Fraw).max() + abs(f_v), Om_v=Om_v, zeta=z, fp=fp,
                exact=len(T) and w)


def problem(ctx, exact=False):
    rng = ctx.rng
    N = gen.dofs(rng, 3, huge=.012)
    rhi = int(rng.choice([2, 3, 5, 7]))

    def hs(kmax, need=()):
        h = gen.harmonics(rng, kmax=kmax, nmax=3, one=True)
        return np.unique(np.r_[h, np.array(need, int)])
    h_fund, h_rhi = hs(6), hs(3)
    if rng.random() < .8:
        h_fund = h_fund[h_fund != rhi]
    h_v = hs(8, (rhi,))
    v = 0.0 if exact else float(rng.choice([0., .3, .8]))
    zlo = -6. if rng.random() < .3 else -3.5
    dec = float(rng.uniform(-5, 5))
    lo, hi = dec - rng.uniform(.3, 2), dec + rng.uniform(.3, 2)
    fb = backbone(rng, int(rng.choice([2, 5, 20])), N, h_fund, v, zlo, lo,
                  hi)
    sd = float(rng.uniform(-2, 1))
    rb = backbone(rng, int(rng.choice([2, 5, 20])), N, h_rhi, v, zlo,
                  lo + sd, hi + sd)
    c1 = rng.normal(size=N)
    cr = c1.copy() if rng.random() < .3 else rng.normal(size=N)
    mv = int(rng.choice([2, 4, 11]))
    nv = ref.ncomp(h_v) * N
    g = 10.0 ** np.linspace(dec - .3, dec + .3, mv)
    U = smooth(rng, mv, (nv,), var=0.0 if exact else .3) * g[:, None]
    i = forms.hindex(h_v, rhi) * N
    U[:, i:i + 2 * N] *= 10.0 ** sd
    Om = smooth(rng, mv, (), .6, 3., .3)
    layout = ctx.index % 2
    if layout:
        va = abs(cplx(U, h_v, 1, N) @ c1)
        tail = np.column_stack([smooth(rng, mv, (2,)) * g[:, None], Om, va])
    else:
        tail = np.column_stack([Om, np.abs(smooth(rng, mv, ())) * g])
    vb = np.column_stack([U, tail])

    def inc(a):
        if np.any(np.diff(a) <= 1e-6 * a[1:]):
            raise Skip('amplitude not increasing')
        return a
    va = inc(abs(cplx(vb, h_v, 1, N) @ c1))
    fa = inc(abs(cplx(fb, h_fund, 1, N) @ c1) * 10.0 ** fb[:, -1])
    inc(abs(cplx(rb, h_rhi, 1, N) @ cr) * 10.0 ** rb[:, -1])
    lo, hi = max(va[0], fa[0]), min(va[-1], fa[-1])
    if lo * (1 + 1e-6) >= hi:
        raise Skip('no common amplitude')
    a1 = float(rng.uniform(lo, hi))
    if rng.random() < .2:
        k = [x for x in list(va) + list(fa) if lo < x < hi]
        if k:
            a1 = float(k[int(rng.integers(len(k)))])
    return dict(N=N, rhi=rhi, h_fund=h_fund, h_rhi=h_rhi, h_vprnm=h_v,
                epmc_fund_bb=fb, epmc_rhi_bb=rb, vprnm_bb=vb,
                control_point_h1=c1, control_point_rhi=cr, control_amp_h1=a1,
                Flcos=rng.normal(size=N) * 10.0 ** rng.uniform(-2, 2),
                extra_Omega=None, correct_force=bool(rng.random() < .7),
                layout=layout)


ARGS = ('epmc_fund_bb', 'h_fund', 'epmc_rhi_bb', 'h_rhi', 'vprnm_bb',
        'h_vprnm', 'rhi', 'control_point_h1', 'control_amp_h1',
        'control_point_rhi', 'Flcos')


def call(ctx, d):
    from tmdsimpy.roms import vprnm
    d.update({k: gen.dress(ctx.rng, v) for k, v in d.items()
              if isinstance(v, np.ndarray)})
    keep = {k: (v.copy() if isinstance(v, np.ndarray) else v)
            for k, v in d.items()}
    kw = {}
    if d['extra_Omega'] is not None:
        kw['extra_Omega'] = d['extra_Omega']
    if not d['correct_force'] or ctx.rng.random() < .5:
        kw['correct_force'] = d['correct_force']
    out = vprnm.constant_h1_displacement(*[d[k] for k in ARGS], **kw)
    ctx.check(len(out) == 3, 'number of results')
    ctx.check(all(np.array_equal(d[k], v) for k, v in keep.items()),
              'arguments modified')
    return out


def harm(h, X, hh, N):
    return cplx(X, h, hh, N)


def compare(ctx, d, w, out, msg):
    X, f, h = out
    N = d['N']
    n = len(w['Om'])
    want_h = w['h']
    ctx.check(np.array_equal(np.asarray(h), want_h), 'harmonics %s instead of '
              '%s (%s)' % (h, want_h, msg), what='harmonics')
    ctx.check(X.shape == (n, ref.ncomp(want_h) * N + 1) and f.shape == (n,),
              'shape %s for %d rows (%s)' % (X.shape, n, msg))
    ctx.close(X[:, -1], w['Om'], 'frequencies (%s)' % msg, rtol=1e-10,
              what='frequency')
    if want_h[0] == 0:
        ctx.close(X[:, :N], np.tile(w['static'], (n, 1)), 'static part (%s)'
                  % msg, rtol=1e-9)
    # cancellation in phases: the direction of a root is known to about
    # eps/zeta, the frequency near the peak as well
    tol = 1e-9 + 1e-14 / w['zeta'].min()
    for hh in want_h[want_h > 0]:
        A, B = harm(want_h, X, hh, N), w['amp'][hh]
        nan = np.isnan(B)
        ctx.check(np.array_equal(np.isnan(A), nan), 'undefined entries of '
                  'harmonic %d (%s)' % (hh, msg), what='nan')
        A, B = A[~nan], B[~nan]
        ctx.close(np.r_[A.real, A.imag], np.r_[B.real, B.imag],
                  'harmonic %d (%s)' % (hh, msg), rtol=tol * max(hh, 1),
                  what='motion')
        ctx.event('motion', A.size)
    ctx.close(f, w['f'], 'force (%s)' % msg, rtol=1e-8, scale=w['scale_f'],
              what='force')
    return X, f


def text(d):
    return 'N=%d rhi=%d h1=%s hr=%s hv=%s layout=%d extra=%s correct=%s' % (
        d['N'], d['rhi'], d['h_fund'], d['h_rhi'], d['h_vprnm'], d['layout'],
        None if d['extra_Omega'] is None else len(d['extra_Omega']),
        d['correct_force'])


def construction(ctx):
    d = problem(ctx)
    w = model(d)
    r = ctx.rng.random()
    if r < .5:
        n = int(ctx.rng.integers(1, 9))
        lo, hi = w['Om'].min(), w['Om'].max()
        s = hi - lo
        d['extra_Omega'] = ctx.rng.uniform(max(lo - .5 * s, 1e-3), hi + .5
                                           * s, n)
        w = model(d)
    msg = text(d)
    ctx.note(**{k: str(d[k]) for k in ('N', 'rhi', 'h_fund', 'h_rhi',
                                       'h_vprnm', 'layout')})
    out = call(ctx, d)
    compare(ctx, d, w, out, msg)
    ctx.event('row', len(w['Om']))
    ctx.cover('construction', d['layout'], d['rhi'], 'N%d' % d['N'],
              d['extra_Omega'] is not None, d['correct_force'],
              d['h_fund'][0] == 0, d['h_rhi'][0] == 0, d['h_vprnm'][0] == 0)


def tracked(ctx):
    """At the tracked frequency the model is the tracked solution."""
    d = problem(ctx, exact=True)
    d['correct_force'] = True
    w = model(d)
    if ctx.rng.random() < .4:
        lo, hi = w['Om'].min(), w['Om'].max()
        d['extra_Omega'] = ctx.rng.uniform(lo, hi, 4)
        w = model(d)
    msg = text(d)
    X, f, h = call(ctx, d)
    N, vp = d['N'], w['vp']
    i = int(np.argmin(abs(X[:, -1] - w['Om_v'])))
    ctx.close(X[i, -1], w['Om_v'], 'no row at the tracked frequency (%s)'
              % msg, rtol=1e-9, what='tracked')
    if np.sum(abs(X[:, -1] - w['Om_v']) < 1e-9 * w['Om_v']) > 1:
        raise Skip('two rows at the tracked frequency')
    c1, cr = d['control_point_h1'], d['control_point_rhi']
    tol = 1e-8 + 1e-13 / w['zeta'].min()
    a, b = cplx(X[i], h, 1, N) @ c1, cplx(vp, d['h_vprnm'], 1, N) @ c1
    ctx.close([a.real, a.imag], [b.real, b.imag], 'fundamental motion at the '
              'control point (%s)' % msg, rtol=1e-8, what='tracked')
    if d['rhi'] not in d['h_fund']:
        a = cplx(X[i], h, d['rhi'], N) @ cr
        b = cplx(vp, d['h_vprnm'], d['rhi'], N) @ cr
        ctx.close([a.real, a.imag], [b.real, b.imag], 'superharmonic motion '
                  'at the tracked frequency (%s)' % msg, rtol=tol,
                  what='tracked')
    ctx.close(f[i], w['f_v'], 'force at the tracked frequency (%s)' % msg,
              rtol=1e-8, scale=w['scale_f'], what='tracked')
    # amplitude of the fundamental everywhere
    A = abs(cplx(X, h, 1, N) @ c1)
    ctx.close(A, np.full(len(A), d['control_amp_h1']), 'fundamental amplitude '
              'not constant (%s)' % msg, rtol=1e-8)
    ctx.event('tracked')
    ctx.cover('tracked', d['layout'], d['rhi'], d['extra_Omega'] is not None)


def free(ctx):
    """The time origin of the tracked solution and of the backbones are free:
    shifting a backbone changes nothing, shifting the tracked solution shifts
    the response."""
    rng = ctx.rng
    d = problem(ctx)
    if d['layout']:
        d['vprnm_bb'][:, -4] = np.abs(d['vprnm_bb'][:, -4])
    model(d)
    X, f, h = call(ctx, d)
    N = d['N']

    def shift(bb, h, a):
        bb = bb.copy()
        for hh in h[h > 0]:
            i = forms.hindex(h, hh)
            z = cplx(bb, h, hh, N) * np.exp(1j * hh * a)
            bb[:, i * N:(i + 1) * N] = z.real
            bb[:, (i + 1) * N:(i + 2) * N] = -z.imag
        return bb
    e = dict(d)
    e['epmc_fund_bb'] = shift(d['epmc_fund_bb'], d['h_fund'], rng.uniform(
        -np.pi, np.pi))
    e['epmc_rhi_bb'] = shift(d['epmc_rhi_bb'], d['h_rhi'], rng.uniform(
        -np.pi, np.pi))
    a = rng.uniform(-np.pi, np.pi)
    e['vprnm_bb'] = shift(d['vprnm_bb'], d['h_vprnm'], a)
    Y, g, h2 = call(ctx, e)
    msg = text(d)
    ctx.check(X.shape == Y.shape, 'rows change with the time origin (%s)'
              % msg)
    z = d['epmc_rhi_bb'][:, -2] / (2 * d['epmc_rhi_bb'][:, -3])
    tol = 1e-8 + 1e-13 / z.min()
    want = shift(X, h, a)
    ctx.close(Y[:, -1], X[:, -1], 'frequencies (%s)' % msg, rtol=1e-9)
    for hh in h[h > 0]:
        B = cplx(want, h, hh, N)
        A = cplx(Y, h, hh, N)
        ctx.close(np.r_[A.real, A.imag], np.r_[B.real, B.imag], 'time origin '
                  'of harmonic %d (%s)' % (hh, msg), rtol=tol * hh,
                  what='shift')
    ctx.close(g, f, 'force under a change of the time origin (%s)' % msg,
              rtol=1e-8, what='shift')
    ctx.cover('free', d['layout'], d['rhi'])


def node(ctx):
    """The tracked amplitude is exactly that of a backbone point (numbers
    chosen so that the interpolation is exact): the point counts once."""
    rng = ctx.rng
    N = int(rng.integers(1, 3))
    rhi = int(rng.choice([2, 3, 5]))
    below, above = int(rng.integers(1, 4)), int(rng.integers(1, 4))
    q = np.r_[2.0 ** -np.arange(below, 0, -1), 1.0, 2.0 ** np.arange(
        1, above + 1)]

    def unit(m, h, hh):
        A = np.zeros((m, ref.ncomp(h) * N))
        A[:, forms.hindex(h, hh) * N] = 1.0
        return A
    h1 = np.array([0, 1]) if rng.random() < .5 else np.array([1])
    hv = np.array(([0] if rng.random() < .5 else []) + [1, rhi])
    w0, z0 = float(rng.uniform(.5, 4)), float(rng.uniform(.01, .1))
    rb = np.column_stack([unit(q.size, h1, 1), np.full(q.size, w0), np.full(
        q.size, 2 * w0 * z0), np.log10(q)])
    fb = np.column_stack([unit(q.size, h1, 1), np.full(q.size, 1.0), np.full(
        q.size, .04), np.log10(q)])
    g = np.array([.5, 1.0, 2.0])
    vb = np.column_stack([(unit(3, hv, 1) + unit(3, hv, rhi)) * g[:, None],
                          np.full(3, w0 / rhi), np.full(3, .1)])
    c = np.zeros(N)
    c[0] = 1.0
    d = dict(N=N, rhi=rhi, h_fund=h1, h_rhi=h1, h_vprnm=hv, epmc_fund_bb=fb,
             epmc_rhi_bb=rb, vprnm_bb=vb, control_point_h1=c,
             control_point_rhi=c.copy(), control_amp_h1=1.0,
             Flcos=np.ones(N), extra_Omega=None, correct_force=True, layout=0)
    X, f, h = call(ctx, d)
    # a lightly damped linear mode under the force of its peak: two roots at
    # every smaller amplitude and at the peak
    want = 2 * (below + 1)
    for qq in q[:below]:
        r = (1 / qq) ** 2 - 1 + z0 * z0         # both roots positive?
        if 1 - 2 * z0 ** 2 - 2 * z0 * np.sqrt(max(r, 0)) <= 0:
            want -= 1
    if len(X) > want:       # rounding may tell two copies of the point apart
        keep = [i for i in range(len(X)) if not any(
            np.abs(X[i] - X[j]).max() < 1e-12 and (X[i] != X[j]).any()
            for j in range(i))]
        X = X[keep]
    ctx.check(len(X) == want, '%d rows, %d expected when the tracked '
              'amplitude is that of a backbone point (%d smaller ones)'
              % (len(X), want, below), what='once')
    A = abs(cplx(X, h, rhi, N)[:, 0])
    ctx.close(np.sort(A), np.sort(np.r_[np.repeat(q[:below], 2), 1, 1])[
        2 * (below + 1) - want:] if want < 2 * (below + 1) else np.sort(
            np.r_[np.repeat(q[:below], 2), 1, 1]),
        'superharmonic amplitudes', rtol=1e-9, what='once')
    ctx.cover('node', rhi, below)


GROUPS = {
    'construction': Group(construction, 1800, 60000, {'row': 1, 'motion': 3}),
    'tracked': Group(tracked, 1200, 30000, {'tracked': .2}),
    'free': Group(free, 900, 20000),
    'node': Group(node, 360, 2000, {'once': 2}),
}
