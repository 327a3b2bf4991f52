#!/usr/bin/env python3
"""check.py Cxx [--repo DIR] [--only KEYGLOB] [--jobs N]

Decides one property by static analysis of /repo/dsch (see DESIGN.md)."""
import argparse
import importlib
import os
import sys
import time

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sa import drive                                            # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--selftest', action='store_true')
    ap.add_argument('--repo', default='/repo')
    ap.add_argument('--only')
    ap.add_argument('--jobs', type=int)
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    a = ap.parse_args()
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    drive.Ctx.repo = a.repo
    drive.Ctx.tier = a.tier
    drive.Ctx.max_paths = 1500 if a.tier == 'thorough' else 256
    try:
        drive.Ctx.sources = drive.load_sources(a.repo)
    except (OSError, SyntaxError) as e:
        print('NO ANSWER: cannot read the sources: %s' % e)
        return 2
    from sa import rules
    if a.selftest:
        print('%d rule sets; %d modules of %s parsed' % (
            len(rules.RULES), len(drive.Ctx.sources), a.repo))
        return 0
    fn, level, explanation = rules.RULES[a.prop]
    obs = []
    keys = set()

    def add(key, rule, f):
        if key in keys:
            raise SystemExit('duplicate obligation ' + key)
        keys.add(key)
        obs.append(drive.Obligation(key, rule, f))
    structural = fn(add, a.tier == 'thorough', drive.Ctx.sources) or {}
    if a.only:
        obs = [o for o in obs if drive.glob_match(a.only, o.key)]
    results = drive.run_all(obs, a.jobs)
    return drive.finish(a.prop, level, results, structural, explanation,
                        seed, a.tier, t0)


if __name__ == '__main__':
    sys.exit(main())
