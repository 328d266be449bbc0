#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] [--seed N] [--replay FILE]"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import boot  # noqa: E402


def main():
    boot.ensure_env()
    from vlib import run
    a = sys.argv[1:]
    pid = a.pop(0)
    if a and a[0] == '--worker':
        k, n, out, seed, tier, deadline = a[1:7]
        run.worker(pid, int(seed), tier, int(k), int(n), out, float(deadline))
        return 0
    opt = {}
    while a:
        o = a.pop(0)
        opt[o] = a.pop(0)
    if '--replay' in opt:
        return run.replay(pid, opt['--replay'])
    return run.main(pid, opt.get('--tier'), opt.get('--seed'),
                    int(opt['--shards']) if '--shards' in opt else None)


if __name__ == '__main__':
    sys.exit(main())
