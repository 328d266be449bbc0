"""Case runner: deterministic cases, three-valued verdicts, evidence.

A property module defines
    ID, RULE, ASSUMPTIONS, LEVEL_NOTE...
    GROUPS : dict name -> Group(fn, quick, thorough, need)
`fn(ctx)` runs one case.  All randomness comes from ctx.rng, which depends only
on (VERIF_SEED, property, group, index); a replay file names exactly those.
"""
import collections
import json
import os
import re
import signal
import subprocess
import sys
import time
import traceback
import zlib

from . import boot, lines

KNOWN_FILE = os.path.join(boot.VERIF, 'known_findings.txt')
MAX_REPORT = 5

# Wall time one case may take before it counts as not delivering a result (the
# slowest case of the unchanged tree needs a few seconds; evidence files give
# `slowest_case_s`).
CASE_LIMIT = {'quick': 200, 'thorough': 1800}


class Group:
    """One workload generator.

    fn       : callable(ctx)
    quick    : number of cases in the quick tier
    thorough : number of cases in the thorough tier
    need     : {event: minimal count per case, as a fraction} - events which
               must have been observed by the oracle for the group to be
               conclusive (default: at least one 'check' event per two cases)
    """

    def __init__(self, fn, quick, thorough=None, need=None, serial=False):
        self.fn = fn
        self.quick = quick
        self.thorough = thorough if thorough is not None else 10 * quick
        self.need = need or {}
        self.serial = serial


class Violation(Exception):
    def __init__(self, msg, key=None, data=None):
        super().__init__(msg)
        self.msg = msg
        self.key = key
        self.data = data or {}


class CaseTimeout(BaseException):
    """The case exceeded its time limit (not an Exception: the code under test
    must not be able to swallow it)."""


class Skip(Exception):
    """The generated case is outside the domain the property talks about."""


class Ctx:
    def __init__(self, pid, group, index, seed, tier):
        import numpy as np
        self.np = np
        self.pid, self.group, self.index = pid, group, index
        self.seed, self.tier = seed, tier
        self.rng = np.random.default_rng(
            [seed & 0xffffffff, zlib.crc32(pid.encode()),
             zlib.crc32(group.encode()), index])
        self.events = collections.Counter()
        self.covers = set()
        self.sample = {}
        self.known = []
        self.known_keys = ()
        self.nontrivial = False

    # ----- recording
    def event(self, name, n=1):
        self.events[name] += n

    def cover(self, *key):
        """Mark the case as non-trivial, with the feature tuple it reached."""
        self.nontrivial = True
        self.covers.add('/'.join(str(k) for k in key))

    def note(self, **kw):
        for k, v in kw.items():
            self.sample[k] = _jsonable(v)

    # ----- oracles
    def fail(self, msg, key=None, **data):
        if key is not None and key in self.known_keys:
            self.known.append((key, msg))
            return
        raise Violation(msg, key, {k: _jsonable(v) for k, v in data.items()})

    def check(self, cond, msg, key=None, what='check', **data):
        self.events[what] += 1
        if not cond:
            self.fail(msg, key, **data)

    def close(self, got, want, msg, rtol=1e-9, atol=0.0, scale=None,
              key=None, what='check', **data):
        """|got-want| <= atol + rtol*scale elementwise, shapes equal, finite."""
        np = self.np
        self.events[what] += 1
        got = np.asarray(got, dtype=float)
        want = np.asarray(want, dtype=float)
        if got.shape != want.shape:
            self.fail('%s: shape %s, expected %s'
                      % (msg, got.shape, want.shape), key, **data)
            return
        if got.size == 0:
            return
        if not np.all(np.isfinite(want)):
            raise AssertionError('reference not finite: ' + msg)
        if scale is None:
            scale = np.max(np.abs(want))
        err = np.abs(got - want)
        bad = ~(err <= atol + rtol * scale)      # NaN counts as bad
        if np.any(bad):
            e = np.where(np.isfinite(err), err, np.inf)
            k = np.unravel_index(int(np.argmax(e)), err.shape)
            self.fail('%s: got %.12g, expected %.12g at %s (tolerance %.3g, '
                      '%d of %d entries differ)'
                      % (msg, got[k], want[k], tuple(int(q) for q in k),
                         atol + rtol * float(np.max(scale)),
                         int(bad.sum()), bad.size),
                      key, **data)


def _jsonable(v):
    import numpy as np
    if isinstance(v, (np.floating, np.integer, np.bool_)):
        return v.item()
    if hasattr(v, 'shape') and hasattr(v, '__array__'):
        a = np.asarray(v)
        if a.size > 40:
            return {'shape': list(a.shape), 'first': a.ravel()[:8].tolist()}
        return a.tolist()
    if isinstance(v, dict):
        return {str(k): _jsonable(x) for k, x in v.items()}
    if isinstance(v, (list, tuple, set)):
        return [_jsonable(x) for x in v]
    if isinstance(v, (str, int, float, bool)) or v is None:
        return v
    return repr(v)[:200]


def load_known():
    """key -> text, per property, from the committed known-findings file."""
    out = collections.defaultdict(dict)
    if os.path.exists(KNOWN_FILE):
        for line in open(KNOWN_FILE):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', line)
            if m:
                out[m.group(1)][m.group(2)] = m.group(3).strip()
    return out


def run_case(mod, pid, gname, index, seed, tier, known_keys):
    """Returns (ctx, kind, detail): ok / skip / violation / error."""
    ctx = Ctx(pid, gname, index, seed, tier)
    ctx.known_keys = known_keys
    limit = CASE_LIMIT.get(tier, 200)

    def expired(signum, frame):
        raise CaseTimeout()
    signal.signal(signal.SIGALRM, expired)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        try:
            mod.GROUPS[gname].fn(ctx)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        return ctx, 'ok', None
    except CaseTimeout:
        return ctx, 'violation', {
            'message': 'no result within %d s (cases of this group take '
            'seconds)' % limit, 'data': {
                'traceback': traceback.format_exc()[-3000:]},
            'key': None, 'hang': True}
    except Skip as e:
        return ctx, 'skip', str(e)
    except Violation as e:
        return ctx, 'violation', {'message': e.msg, 'data': e.data,
                                  'key': e.key}
    except MemoryError:
        return ctx, 'error', traceback.format_exc()
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        inrepo = any(os.path.realpath(f.filename).startswith(
            os.path.realpath(boot.REPO) + '/') for f in tb)
        text = ''.join(traceback.format_exception(e))[-3000:]
        if isinstance(e, OSError) and not inrepo:
            return ctx, 'error', text
        last = tb[-1]
        return ctx, 'violation', {
            'message': 'exception %s: %s (%s:%d)%s'
            % (type(e).__name__, str(e)[:300], last.filename, last.lineno,
               '' if inrepo else ' [result not usable as specified]'),
            'data': {'traceback': text}, 'key': None}


def load_prop(pid):
    import importlib
    return importlib.import_module('props.' + pid.lower())


def worker(pid, seed, tier, shard, nshard, outfile, deadline):
    """Runs one shard and writes its raw record to `outfile`."""
    monitor = lines.Lines(boot.REPO)
    monitor.start()
    boot.setup_imports()
    mod = load_prop(pid)
    known = load_known().get(pid, {})
    rec = {'groups': {}, 'violations': [], 'errors': [], 'known': {},
           'covers': [], 'samples': [], 'timeout': False}
    covers = set()
    t0 = time.time()
    stop = False

    def progress(running):
        """State for the parent, should this process have to be killed."""
        with open(outfile + '.now', 'w') as f:
            json.dump({'running': running, 'since': time.time(),
                       'violations': rec['violations']}, f,
                      default=_jsonable)
        os.replace(outfile + '.now', outfile + '.progress')

    for gname, g in mod.GROUPS.items():
        n = g.quick if tier == 'quick' else g.thorough
        st = {'planned': 0, 'ok': 0, 'skip': 0, 'nontrivial': 0,
              'events': collections.Counter(), 'wall': 0.0, 'slowest': 0.0}
        rec['groups'][gname] = st
        tg = time.time()
        for i in range(n):
            if i % nshard != shard:
                continue
            st['planned'] += 1
            if stop:
                continue
            if time.time() - t0 > deadline:
                rec['timeout'] = True
                stop = True
                continue
            progress([gname, i])
            tc = time.time()
            ctx, kind, detail = run_case(mod, pid, gname, i, seed, tier,
                                         tuple(known))
            st['slowest'] = max(st['slowest'], round(time.time() - tc, 2))
            st['events'].update(ctx.events)
            for key, msg in ctx.known:
                rec['known'].setdefault(key, msg)
            if kind == 'ok':
                st['ok'] += 1
                if ctx.nontrivial:
                    st['nontrivial'] += 1
                covers.update('%s:%s' % (gname, c) for c in ctx.covers)
                if len(rec['samples']) < 40 and ctx.sample \
                        and i // nshard < 2:
                    rec['samples'].append(dict(group=gname, index=i,
                                               **ctx.sample))
            elif kind == 'skip':
                st['skip'] += 1
            elif kind == 'violation':
                rec['violations'].append(dict(group=gname, index=i, **detail,
                                              sample=ctx.sample))
                if len(rec['violations']) >= MAX_REPORT \
                        or detail.get('hang'):
                    stop = True
            else:
                rec['errors'].append(dict(group=gname, index=i, text=detail))
        st['wall'] = round(time.time() - tg, 2)
    rec['covers'] = sorted(covers)
    rec['executed'] = monitor.record()
    with open(outfile, 'w') as f:
        json.dump(rec, f, default=_jsonable)


def main(pid, tier=None, seed=None, nshard=None):
    t0 = time.time()
    tier = tier or os.environ.get('VERIF_TIER', 'quick')
    seed = int(seed if seed is not None else os.environ.get('VERIF_SEED', '1'))
    boot.setup_imports()
    mod = load_prop(pid)
    maxn = max((g.quick if tier == 'quick' else g.thorough)
               for g in mod.GROUPS.values())
    if nshard is None:
        nshard = getattr(mod, 'SHARDS', 6)
        nshard = max(1, min(nshard, os.cpu_count() or 1, maxn))
    deadline = 600 if tier == 'quick' else 6 * 3600
    if os.environ.get('VERIF_DEADLINE'):
        deadline = float(os.environ['VERIF_DEADLINE'])
    outs, procs = [], []
    for k in range(nshard):
        out = os.path.join(boot.scratch(), 'shard%d.json' % k)
        outs.append(out)
        procs.append(subprocess.Popen(
            [sys.executable, os.path.join(boot.VERIF, 'check.py'), pid,
             '--worker', str(k), str(nshard), out, str(seed), tier,
             str(deadline)], stdout=open(out + '.log', 'w'),
            stderr=subprocess.STDOUT, cwd=boot.VERIF))
    # The watchdog: a case stuck where no Python signal handler runs (inside
    # native code) is ended from here, with what its shard had already found.
    dead, stuck = [], []
    limit = CASE_LIMIT.get(tier, 200)
    pending = dict(enumerate(procs))
    while pending:
        time.sleep(0.05)
        for k, p in list(pending.items()):
            try:
                prog = json.load(open(outs[k] + '.progress'))
            except (OSError, ValueError):
                prog = None
            if p.poll() is None:
                over = prog and time.time() - prog['since'] > limit + 30
                late = time.time() - t0 > deadline + limit + 60
                if not (over or late):
                    continue
                p.kill()
                p.wait()
                if prog:
                    stuck += prog['violations']
                if over:
                    g, i = prog['running']
                    stuck.append({
                        'group': g, 'index': i, 'key': None, 'data': {},
                        'sample': {}, 'message': 'no result within %d s '
                        '(cases of this group take seconds)' % limit})
                else:
                    dead.append('shard %d: watchdog' % k)
            elif p.returncode != 0 or not os.path.exists(outs[k]):
                if prog:
                    stuck += prog['violations']
                dead.append('shard %d: exit %s in case %s\n%s' % (
                    k, p.returncode, prog and prog['running'],
                    open(outs[k] + '.log').read()[-2000:]))
            del pending[k]
    recs = [json.load(open(o)) for o in outs if os.path.exists(o)]

    groups, violations, errors, known, covers, samples = {}, stuck, [], {}, \
        set(), []
    timeout = False
    for r in recs:
        timeout |= r['timeout']
        violations += r['violations']
        errors += r['errors']
        for k, v in r['known'].items():
            known.setdefault(k, v)
        covers.update(r['covers'])
        for s in r['samples']:
            if sum(q['group'] == s['group'] for q in samples) < 2:
                samples.append(s)
        for gname, st in r['groups'].items():
            g = groups.setdefault(gname, {
                'planned': 0, 'ok': 0, 'skip': 0, 'nontrivial': 0,
                'events': collections.Counter(), 'wall': 0.0,
                'slowest': 0.0})
            g['slowest'] = max(g['slowest'], st['slowest'])
            for k in ('planned', 'ok', 'skip', 'nontrivial'):
                g[k] += st[k]
            g['wall'] = round(g['wall'] + st['wall'], 2)
            g['events'].update(st['events'])
    violations.sort(key=lambda v: (list(mod.GROUPS).index(v['group']),
                                   v['index']))

    # ---- three-valued verdict
    inconclusive = []
    if dead:
        inconclusive += dead
    for e in errors:
        inconclusive.append('harness error in %s[%d]: %s'
                            % (e['group'], e['index'], e['text'][-1500:]))
    for gname, g in mod.GROUPS.items():
        st = groups.get(gname)
        if st is None or st['ok'] == 0:
            inconclusive.append('group %s: no case completed' % gname)
            continue
        if st['ok'] < 0.5 * st['planned']:
            inconclusive.append('group %s: only %d of %d cases conclusive'
                                % (gname, st['ok'], st['planned']))
        need = dict(g.need) or {'check': 0.5}
        for ev, frac in need.items():
            if st['events'].get(ev, 0) < frac * st['planned']:
                inconclusive.append(
                    'group %s: event %r observed %d times, %g needed'
                    % (gname, ev, st['events'].get(ev, 0),
                       frac * st['planned']))

    per_file, funcs, hit = lines.summary(
        [r.get('executed', {}) for r in recs], boot.REPO)
    if os.environ.get('VERIF_LINES'):
        with open(os.environ['VERIF_LINES'], 'w') as f:
            json.dump({k: sorted(v) for k, v in hit.items()}, f)
    evaluations = sum(g['ok'] + g['skip'] for g in groups.values()) \
        + len(violations)
    nontrivial = sum(g['nontrivial'] for g in groups.values())
    ev_total = collections.Counter()
    for g in groups.values():
        ev_total.update(g['events'])
    evidence = {
        'property': pid, 'tier': tier if tier in ('quick', 'thorough')
        else 'quick', 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': evaluations,
            'distinct_nontrivial': nontrivial,
            'rule': mod.RULE,
            'samples': samples[:24] or [{'note': 'no case completed'}],
            'features_reached': len(covers),
            'features': sorted(covers)[:400],
            'monitor_events': dict(ev_total),
            'repo_lines_executed': per_file,
            'repo_functions_entered': sum(len(v) for v in funcs.values()),
            'groups': {k: {**v, 'events': dict(v['events'])}
                       for k, v in groups.items()},
            'shards': nshard,
            'slowest_case_s': max([g['slowest'] for g in groups.values()],
                                  default=0.0),
            'known_findings_observed': sorted(known),
            'inconclusive': inconclusive[:20],
        },
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(violations),
    }
    os.makedirs(os.path.join(boot.VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(boot.VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1, default=_jsonable)

    ktext = load_known().get(pid, {})
    for key in sorted(known):
        print('KNOWN-FINDING: property=%s %s' % (pid, ktext.get(key, key)))
    if violations:
        os.makedirs(os.path.join(boot.VERIF, 'replays'), exist_ok=True)
        for v in violations[:MAX_REPORT]:
            path = os.path.join(boot.VERIF, 'replays', '%s-%s-%d-s%d.json'
                                % (pid, v['group'], v['index'], seed))
            with open(path, 'w') as f:
                json.dump({'property': pid, 'group': v['group'],
                           'index': v['index'], 'seed': seed, 'tier': tier,
                           'replay_cmd': 'python3 /verif/check.py %s '
                           '--replay %s' % (pid, path), **v}, f, indent=1,
                          default=_jsonable)
            print('  %s[%d]: %s' % (v['group'], v['index'], v['message']))
            print('VIOLATION property=%s replay=%s' % (pid, path))
        sys.stdout.flush()
        return 1
    if inconclusive:
        for m in inconclusive[:10]:
            print('INCONCLUSIVE: ' + m)
        return 2
    print('OK property=%s tier=%s seed=%d cases=%d nontrivial=%d features=%d '
          'oracle_events=%d skipped=%d wall=%.1fs%s'
          % (pid, tier, seed, evaluations, nontrivial, len(covers),
             sum(ev_total.values()), sum(g['skip'] for g in groups.values()),
             time.time() - t0, ' (time limit reached)' if timeout else ''))
    return 0


def replay(pid, path):
    boot.setup_imports()
    mod = load_prop(pid)
    r = json.load(open(path))
    ctx, kind, detail = run_case(mod, pid, r['group'], r['index'], r['seed'],
                                 r.get('tier', 'quick'),
                                 tuple(load_known().get(pid, {})))
    print(kind, json.dumps(detail, indent=1, default=_jsonable)
          if detail else '', json.dumps(ctx.sample, default=_jsonable))
    if kind == 'violation':
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    return 0 if kind in ('ok', 'skip') else 2
