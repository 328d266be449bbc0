"""C26 Local force histories for inspection."""
import numpy as np
from vlib import elems, gen, ref
from vlib.run import Group

ID = 'C26'
RULE = ('systems with several elements of different kinds and start options, '
        'random multi-harmonic motions and sample counts; the returned local '
        'motions and forces are compared with independent laws, and their '
        'projection with the force the harmonic analysis uses')
ASSUMPTIONS = ['float64 arithmetic', 'traced Jenkins elements have no local '
               'force history (a call raises)',
               'start None of the dry friction elements with lists that '
               'contain harmonic 0']


def inspect(ctx, els, N, h, Nt, U, w, msg, scales=None):
    from tmdsimpy.vibration_system import VibrationSystem
    from tmdsimpy.postprocess.harmonic import local_harmonic_forces
    rng = ctx.rng
    M, K, C, ab = gen.system(rng, N, 'ab')
    vs = VibrationSystem(M, K, ab=list(ab))
    for e in els:
        vs.add_nl_force(e.obj)
    U0 = U.copy()
    kw = {}
    if Nt != 128 or rng.random() < .5:
        kw['Nt'] = Nt
    if rng.random() < .3:
        kw['aft_tol'] = float(rng.choice([1e-7, 1e-10]))
    out = local_harmonic_forces(vs, U, w, h, **kw)
    ctx.check(np.array_equal(U, U0), 'arguments modified')
    ctx.check(len(out) == len(els) and all(len(o) == 4 for o in out),
              'one entry of four arrays per element (%s)' % msg)
    A = ref.mat(U, N, h)
    total = np.zeros(U.size)
    ftot = 0.0
    for i, (e, (Uh, ut, Fh, ft)) in enumerate(zip(els, out)):
        what = '%s (%s)' % (e.kind, msg)
        Ul = A @ e.Q.T
        u = ref.synth(h, Ul, Nt)
        v = w * ref.synth(h, Ul, Nt, 1)
        f = e.law(u, v, Ul)
        sc = max(np.abs(f).max(), 1e-9)
        rt = 1e-9
        if e.kind.startswith('rough'):
            sc, rt = _rough_scale(e, u, f), 1e-7
        elif 'lim' in e.par:
            sc = max(sc, 1e-3 * e.par['lim'])
        elif e.kind.startswith('eldry'):
            sc = max(sc, e.par['kt'] * np.abs(u).max() * 1e-2)
        elif e.kind == 'uni':
            sc = max(sc, np.abs(u).max() * np.max(e.obj.k)
                     if hasattr(e.obj, 'k') else sc)
        for got, shape, name in ((Uh, Ul.shape, 'harmonic displacements'),
                                 (ut, u.shape, 'displacements'),
                                 (Fh, (Ul.shape[0], f.shape[1]),
                                  'harmonic forces'),
                                 (ft, f.shape, 'forces')):
            ctx.check(np.shape(got) == shape, 'shape of the local %s of %s'
                      % (name, what))
        ctx.close(Uh, Ul, 'local harmonic displacements of ' + what,
                  rtol=1e-12, atol=1e-300)
        ctx.close(ut, u, 'local displacements of ' + what, rtol=1e-11,
                  scale=np.abs(Ul).sum() + 1e-300)
        ctx.close(np.asarray(ft), f, 'local force history of ' + what,
                  rtol=rt, scale=sc, what='history')
        ctx.close(np.asarray(Fh), ref.project(h, f), 'local harmonic force '
                  'of ' + what, rtol=rt, scale=sc, what='harmonic')
        g = np.asarray(e.obj.aft(U, w, h, Nt)[0])
        m = ref.vec(np.asarray(Fh) @ e.T.T)
        ctx.close(m, g, 'local force against the harmonic analysis for '
                  + what, rtol=rt, scale=sc * max(1., np.abs(e.T).max()),
                  what='consistent')
        total += m
        ftot += sc * max(1., np.abs(e.T).max())
        ctx.cover(e.kind, e.par.get('mode'), len(els), 'h0' if h[0] == 0
                  else 'no0')
        ctx.event('element')
    ctx.close(total, vs.total_aft(U, w, h, Nt=Nt)[0], 'sum of the local '
              'forces (%s)' % msg, rtol=1e-7 if any(
                  e.kind.startswith('rough') for e in els) else 1e-9,
              scale=ftot + 1e-300, what='total')
    # inspecting is repeatable
    again = local_harmonic_forces(vs, U, w, h, **kw)
    for o, p in zip(out, again):
        ctx.check(all(np.array_equal(np.asarray(a), np.asarray(b))
                      for a, b in zip(o, p)), 'second inspection differs (%s)'
                  % msg, what='repeat')


def _rough_scale(e, u, f):
    m = e.par['model']
    d = max(float(np.abs(u[:, 2]).max()), 1e-30)
    k = 8 * m.Gs * np.sqrt(m.R * 2 * d) * m.wts.sum()
    return np.abs(f).max() + 1e-3 * k * np.abs(u[:, :2]).max() + 1e-12


def plain(ctx):
    rng = ctx.rng
    N = gen.dofs(rng, 4)
    lev = 10.0 ** rng.uniform(-1, 1)
    kinds = elems.INST + elems.HYST
    n = int(rng.integers(1, 5))
    ks = [kinds[ctx.index % len(kinds)]] + [
        str(k) for k in rng.choice(kinds, n - 1)]
    els = [elems.make(rng, k, N, lev=lev) for k in ks]
    h = gen.harmonics(rng, kmax=6, nmax=4)
    Nt = gen.samples(rng, h, hi=64)
    if rng.random() < .1:
        Nt = 128
    U = elems.motion(rng, N, h, lev)
    w = float(rng.choice([0.0, 1.0, rng.uniform(.1, 4), -rng.uniform(.1, 4)],
                         p=[.05, .05, .82, .08]))
    msg = '%s N=%d h=%s Nt=%d' % (ks, N, h, Nt)
    ctx.note(kinds=ks, N=N, h=h, Nt=Nt)
    inspect(ctx, els, N, h, Nt, U, w, msg)
    if rng.random() < .3:
        # prestress options between two inspections
        for e in els:
            if e.kind == 'jenkins':
                e.obj.set_prestress_mu()
                e.obj.reset_real_mu()
        inspect(ctx, els, N, h, Nt, U, w, 'after prestress, ' + msg)


def dry(ctx):
    """Elastic dry friction among other elements, every start option."""
    rng = ctx.rng
    prng, h, Nt = elems.pool(ctx.seed, 'C26', ctx.index % 10, hi=24, kmax=4,
                             nmax=3)
    N = int(prng.integers(2, 5))
    mode = ['default', 'scalar', 'array', 'none'][(ctx.index // 10) % 4]
    if h[0] and mode == 'none':
        mode = 'default'
    kind = ['eldry2', 'eldry3'][ctx.index % 2]
    els = [elems.make(rng, kind, N, m=int(prng.integers(1, 3)), u0mode=mode)]
    if rng.random() < .5:
        els.insert(0, elems.make(rng, 'cubic', N))
    if rng.random() < .5:
        els.append(elems.make(rng, 'jenkins', N))
    if mode != 'none' and rng.random() < .4:
        e = [x for x in els if x.kind == kind][0]
        X = rng.normal(size=N)
        e.obj.set_aft_initialize(X)
        st = e.Q @ X
        e.par['u0'] = st
        e.par['mode'] = 'set'
    U = elems.motion(rng, N, h)
    w = float(rng.uniform(.1, 3))
    msg = '%s start %s h=%s Nt=%d' % ([e.kind for e in els], mode, h, Nt)
    ctx.note(kinds=[e.kind for e in els], start=mode, h=h, Nt=Nt)
    inspect(ctx, els, N, h, Nt, U, w, msg)


def rough(ctx):
    rng = ctx.rng
    prng, h, Nt = elems.pool(ctx.seed, 'C26r', ctx.index % 6, nmax=3, hi=20,
                             kmax=4)
    mat = elems.rough_material(prng)
    mat['model'] = ['TAN', 'MIF'][ctx.index % 2]
    N = int(rng.integers(3, 5))
    e = elems.make_rough(rng, mat, N)
    if rng.random() < .4:
        X = rng.normal(size=N) * e.par['lev']
        e.obj.set_aft_initialize(X)
        e.par['u0'] = e.Q @ X
        e.par['mode'] = 'set'
    U = elems.rough_motion(rng, e, h, N)
    msg = '%s start %s h=%s Nt=%d' % (e.kind, e.par['mode'], h, Nt)
    ctx.note(model=mat['model'], start=e.par['mode'], h=h, Nt=Nt)
    inspect(ctx, [e], N, h, Nt, U, float(rng.uniform(.1, 3)), msg)


def refuse(ctx):
    """Elements without a local history are refused, not left out."""
    from tmdsimpy.vibration_system import VibrationSystem
    from tmdsimpy.postprocess.harmonic import local_harmonic_forces
    rng = ctx.rng
    N = int(rng.integers(1, 3))
    vs = VibrationSystem(np.eye(N), np.eye(N))
    ks = ['cubic', ['jjenkins', 'jvjenkins'][ctx.index % 2]]
    for k in ks if rng.random() < .5 else ks[::-1]:
        vs.add_nl_force(elems.make(rng, k, N).obj)
    h = gen.harmonics(rng, kmax=4, nmax=3, wide=0)
    try:
        out = local_harmonic_forces(vs, elems.motion(rng, N, h), 1.0, h,
                                    Nt=32)
    except Exception:
        ctx.event('refused')
    else:
        ctx.check(len(out) == 2 and all(
            o is not None and np.all(np.isfinite(o[3])) for o in out),
            'element silently left out')
        ctx.event('refused')


GROUPS = {
    'plain': Group(plain, 500, 12000, {'element': 1, 'total': 1}),
    'dry': Group(dry, 64, 2000, {'element': 1, 'total': 1}),
    'rough': Group(rough, 30, 900, {'element': 1}),
    'refuse': Group(refuse, 12, 60, {'refused': 1}),
}
SHARDS = 8
