"""C11 Superharmonic phase-resonance constraint."""
import numpy as np
from vlib import elems, forms, gen, ref
from vlib.run import Group, Skip

ID = 'C11'
RULE = ('random systems, harmonic lists, superharmonics, filters and scales; '
        'constraint compared to the explicit normalized inner product of the '
        'superharmonic displacement and the force of the lower harmonics, '
        'and to metamorphic relations (scaling, rotation in the harmonic '
        'plane, other harmonics); combined residuals compared to projected '
        'time-domain forces')
ASSUMPTIONS = ['float64 arithmetic', 'superharmonic force and displacement do '
               'not vanish']


def draw(ctx, kinds=None):
    rng = ctx.rng
    for attempt in range(12):
        lev = 10.0 ** rng.uniform(-1, 0.5)
        S = forms.Sys(rng, lev=lev, nel=int(rng.integers(1, 4)), kinds=kinds)
        h = gen.harmonics(rng, kmax=7, nmax=5, one=True if rng.random() < .8
                          else None)
        if max(h) < 2 or np.sum(h > 0) < 2:
            h = np.unique(np.r_[h, 1, int(rng.integers(2, 6))])
        rhi = int(rng.choice([k for k in h if k > min(q for q in h if q)]))
        Nt = gen.samples(rng, h, hi=48)
        U = elems.motion(rng, S.N, h, lev, str(rng.choice(
            ['flat', 'decay', 'offset'])))
        w = float(rng.uniform(0.2, 3))
        phi = None
        if rng.random() < 0.5:
            phi = rng.normal(size=S.N)
        f, x = forms.vprnm_ref(S, U, w, h, Nt, rhi, phi, True)
        sz = S.size(U, w, h, Nt)
        if np.linalg.norm(f) > 1e-5 * sz and np.linalg.norm(x) > 1e-5 * \
                np.abs(U).max():
            return S, h, rhi, Nt, U, w, phi, f, x, sz
    raise Skip('no superharmonic force')


def single(ctx):
    rng = ctx.rng
    S, h, rhi, Nt, U, w, phi, f, x, sz = draw(ctx)
    N = S.N
    keep = U.copy()
    kw = dict(Nt=Nt)
    if phi is not None:
        kw['superharmonic_filter'] = phi

    def ev(u, ww=w, **k):
        return float(S.obj.vprnm_single_eqn(u, ww, h, rhi, **{**kw, **k})[0])
    msg = 'rhi=%d h=%s filter=%s elements %s' % (
        rhi, h, phi is not None, [e.kind for e in S.els])
    tol = 1e-12 * sz / np.linalg.norm(f) + 1e-13 * np.abs(U).max() * N \
        / np.linalg.norm(x) + 1e-12
    tol *= 1e3
    want = float(f @ x) / np.linalg.norm(f) / np.linalg.norm(x)
    out = S.obj.vprnm_single_eqn(U, w, h, rhi, **kw)
    ctx.check(len(out) == 2 and np.shape(out[1]) == (U.size + 1,),
              'constraint returns value and derivative')
    r = float(out[0])
    ctx.note(h=h, rhi=rhi, r=r, filt=phi is not None)
    ctx.close(r, want, 'constraint ' + msg, rtol=0, atol=tol)
    ctx.check(abs(r) <= 1 + 1e-12, 'constraint outside [-1, 1]: %r' % r)
    g = S.obj.vprnm_single_eqn(U, w, h, rhi, calc_grad=False, **kw)
    ctx.check(len(g) == 1, 'without gradient a 1-tuple is returned')
    ctx.close(float(g[0]), r, 'without gradient', rtol=0, atol=tol)
    # amplitude of the superharmonic
    j = forms.hindex(h, rhi)
    V = ref.mat(U, N, h).copy()
    B = V.copy()
    s = gen.logu(rng, 0.1, 10) if rng.random() < .7 else gen.logu(
        rng, 1e-12, 1e9)
    B[j:j + 2] *= s
    ctx.close(ev(ref.vec(B)), r, 'depends on superharmonic amplitude, ' + msg,
              rtol=0, atol=tol)
    # opposite superharmonic, opposite sign
    B[j:j + 2] *= -1
    ctx.close(ev(ref.vec(B)), -r, 'sign of the superharmonic, ' + msg, rtol=0,
              atol=tol)
    # higher harmonics do not enter
    B = V.copy()
    if B[j + 2:].size:
        B[j + 2:] = rng.normal(size=B[j + 2:].shape) * S.lev
        ctx.close(ev(ref.vec(B)), r, 'depends on higher harmonics, ' + msg,
                  rtol=0, atol=1e-14)
        ctx.event('higher')
    # trailing unknowns do not enter
    ctx.close(ev(np.r_[U, rng.normal(size=int(rng.integers(1, 4)))]), r,
              'depends on trailing unknowns, ' + msg, rtol=0, atol=1e-14)
    # Pythagoras over quarter-turned superharmonic (single DOF or filtered)
    if N == 1 or phi is not None:
        B = V.copy()
        B[j], B[j + 1] = -V[j + 1], V[j]
        q = ev(ref.vec(B))
        ctx.close(r * r + q * q, 1.0, 'in-phase and quadrature parts do not '
                  'add to one, ' + msg, rtol=0, atol=10 * tol)
        ctx.event('quarter')
    ctx.check(np.array_equal(U, keep), 'arguments modified')
    ctx.cover('rhi%d' % rhi, 'h0' if h[0] == 0 else 'no0', len(h),
              'filter' if phi is not None else 'all', 'n%d' % N)


class Times:
    """An element with its forces in other units."""

    def __init__(self, obj, s):
        self.obj, self.s, self.Q, self.T = obj, s, obj.Q, s * obj.T

    def aft(self, *a, **kw):
        return tuple(self.s * q for q in self.obj.aft(*a, **kw))


def scaled(ctx):
    """Invariance to the level of a homogeneous force; coefficients of an
    element scaled in parallel copies."""
    rng = ctx.rng
    from tmdsimpy.vibration_system import VibrationSystem
    S, h, rhi, Nt, U, w, phi, f, x, sz = draw(
        ctx, [str(rng.choice(['cubic', 'quintic', 'cubdamp', 'jenkins']))])
    kw = dict(Nt=Nt)
    if phi is not None:
        kw['superharmonic_filter'] = phi
    r = float(S.obj.vprnm_single_eqn(U, w, h, rhi, **kw)[0])
    tol = 1e-9 * sz / np.linalg.norm(f) + 1e-9
    two = VibrationSystem(S.M, S.K, S.C)
    for _ in range(int(rng.integers(2, 5))):
        for e in S.els:
            two.add_nl_force(e.obj)
    ctx.close(float(two.vprnm_single_eqn(U, w, h, rhi, **kw)[0]), r,
              'depends on the force level', rtol=0, atol=tol)
    # the same forces in other units
    s = gen.logu(rng, 1e-14, 1e12)
    two = VibrationSystem(S.M, S.K, S.C)
    for e in S.els:
        two.add_nl_force(Times(e.obj, s))
    out = two.vprnm_single_eqn(U, w, h, rhi, **kw)
    ctx.close(float(out[0]), r, 'depends on the unit of force (%.1e)' % s,
              rtol=0, atol=tol)
    own = S.obj.vprnm_single_eqn(U, w, h, rhi, **kw)[1]
    ctx.close(out[1], own, 'derivative depends on the unit of force (%.1e)'
              % s, rtol=1e3 * tol)
    if all(e.kind in ('cubic', 'quintic', 'cubdamp') for e in S.els):
        s = gen.logu(rng, 0.3, 3)
        ctx.close(float(S.obj.vprnm_single_eqn(U * s, w, h, rhi, **kw)[0]), r,
                  'homogeneous force: depends on the level of motion', rtol=0,
                  atol=tol)
    # stiffness and damping matrices do not enter; mass only by the filter
    other = VibrationSystem(S.M, 2 * S.K, 3 * S.C + S.K)
    for e in S.els:
        other.add_nl_force(e.obj)
    ctx.close(float(other.vprnm_single_eqn(U, w, h, rhi, **kw)[0]), r,
              'depends on linear stiffness or damping', rtol=0, atol=tol)
    ctx.cover('scaled', S.els[0].kind, 'rhi%d' % rhi)


def combined(ctx):
    rng = ctx.rng
    name = ['vprnm', 'vprnm_amp_phase'][ctx.index % 2]
    for attempt in range(12):
        lev = 10.0 ** rng.uniform(-1, 0.5)
        S = forms.Sys(rng, lev=lev, nel=int(rng.integers(1, 4)))
        f = forms.make(rng, S, name, style=str(rng.choice(
            ['flat', 'decay', 'offset'])))
        n = ref.ncomp(f.kw['h']) * S.N
        fh, xh = forms.vprnm_ref(S, f.x[:n], f.x[-2], f.kw['h'], f.kw['Nt'],
                                 f.kw['rhi'], f.kw['phi'], True)
        sz = S.size(f.x[:n], f.x[-2], f.kw['h'], f.kw['Nt'])
        if np.linalg.norm(fh) > 1e-5 * sz and np.linalg.norm(xh) > 1e-5 * \
                np.abs(f.x[:n]).max():
            break
    else:
        raise Skip('no superharmonic force')
    keep = [np.array(a) for a in f.kw['args'] if a is not None] + [f.x.copy()]
    out = f.call(f.x, True)
    want = f.ref(f.x)
    msg = '%s h=%s rhi=%d order %s elements %s' % (
        name, f.kw['h'], f.kw['rhi'], f.kw.get('order'), [e.kind for e in S.els])
    ctx.check(len(out) == 3, 'residual returns value and two derivatives')
    ctx.close(out[0][:-1], want[:-1], msg, rtol=1e-9, scale=f.size(f.x))
    ctx.close(out[0][-1], want[-1], 'constraint row, ' + msg, rtol=0,
              atol=f.kw['cscale'] * (1e-9 + 1e-9 * sz / np.linalg.norm(fh)))
    g = f.call(f.x, False)
    ctx.check(len(g) == 1, 'without gradient a 1-tuple is returned')
    ctx.close(g[0], out[0], msg + ' without gradient', rtol=1e-12,
              scale=f.size(f.x))
    now = [np.array(a) for a in f.kw['args'] if a is not None] + [f.x]
    ctx.check(all(np.array_equal(a, b) for a, b in zip(keep, now)),
              'arguments modified')
    ctx.note(form=name, h=f.kw['h'], rhi=f.kw['rhi'])
    ctx.cover(name, 'h0' if f.kw['h'][0] == 0 else 'no0', 'n%d' % S.N,
              'o%s' % f.kw.get('order'), 'rhi%d' % f.kw['rhi'])


GROUPS = {
    'single': Group(single, 760, 6000, {'check': 6, 'higher': 0.1,
                                        'quarter': 0.2}),
    'scaled': Group(scaled, 680, 2040, {'check': 1.5}),
    'combined': Group(combined, 770, 4000, {'check': 4}),
}
SHARDS = 6
