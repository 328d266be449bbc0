"""Single source for properties.jsonl and the checks of MANIFEST.json.

    python3 tools/spec.py       rewrites both files
"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VS = 'tmdsimpy/vibration_system.py'
HU = 'tmdsimpy/utils/harmonic.py'
JHU = 'tmdsimpy/jax/harmonic_utils.py'
SOL = 'tmdsimpy/solvers.py'
JSOL = 'tmdsimpy/jax/solvers.py'
CON = 'tmdsimpy/continuation.py'
CU = 'tmdsimpy/utils/continuation.py'
NLF = 'tmdsimpy/nlforces/nonlinear_force.py'
NL = 'tmdsimpy/nlforces/'
JNL = 'tmdsimpy/jax/nlforces/'
ROUGH = None

PROPS = []


def P(id, title, statement, over, qtext, why, files, mech, tech, note,
      observe=None, state=None, hook=None):
    PROPS.append(dict(
        rec=dict(id=id, title=title, statement=statement,
                 quantifier=dict(over=over, text=qtext),
                 why_tests_cant=why,
                 anchors=dict(files=files,
                              mechanism=[dict(name=a, where=b)
                                         for a, b in mech],
                              state=[dict(name=a, meaning=b, where=c)
                                     for a, b, c in (state or [])],
                              observe_at=observe or [], hook_needed=hook)),
        tech=tech, note=note))


exec(open(os.path.join(HERE, 'tools', 'spec_text.py')).read())


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            assert len(p['rec']['title']) <= 80, p['rec']['title']
            f.write(json.dumps(p['rec']) + '\n')
    checks, missing = [], []
    for p in PROPS:
        pid = p['rec']['id']
        if not os.path.exists(os.path.join(HERE, 'props',
                                           pid.lower() + '.py')):
            missing.append(dict(property=pid, reason='check not built yet'))
            continue
        checks.append(dict(
            property=pid,
            quick_cmd='python3 check.py %s --tier quick' % pid,
            thorough_cmd='python3 check.py %s --tier thorough' % pid,
            evidence_file='evidence/%s.json' % pid,
            technique=p['tech'], level='exploration', level_note=p['note']))
    man = dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks,
               not_applicable=missing,
               notes='Runtime monitoring: the real package is executed under '
               'seeded workloads; monitors and reference-model oracles decide.'
               ' No instrumentation is committed to /repo (monitors wrap '
               'public calls from outside), so there is no hook guard.')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')
    print(len(PROPS), 'properties', len(checks), 'checks', len(missing),
          'missing')


if __name__ == '__main__':
    main()
