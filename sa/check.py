"""python3 sa/check.py <property id> [--thorough]"""
import importlib
import os
import re
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import fw


def run(c, f):
    try:
        f(c)
    except fw.Missing as e:
        if not any(o[0] == 'viol' and o[1] == 'anchor' for o in c.obs):
            c.inc('anchor', str(e), 'missing private item')
    except Exception as e:
        if os.environ.get('SADEBUG'):
            raise
        c.inc('engine', f.__name__, 'part not decided', repr(e))


def relied(c, mod, part, pat):
    """obligations of another property that this one presupposes, for the functions it uses"""
    n, rules = len(c.obs), set(c.rules)
    run(c, getattr(importlib.import_module('props.' + mod), part))
    new, c.obs = c.obs[n:], c.obs[:n]
    for s, rule, where, what, why in new:
        if re.search(pat, '%s %s' % (where, what)):
            c.obs.append((s, '%s.%s' % (mod.upper(), rule), where, what, why))
    for r in set(c.rules) - rules:
        c.rules['%s.%s' % (mod.upper(), r)] = c.rules.pop(r)


def main():
    pid = sys.argv[1]
    tier = 'thorough' if '--thorough' in sys.argv or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    c = fw.Check(pid, tier)
    m = importlib.import_module('props.' + pid.lower())
    for f in m.PARTS:
        run(c, f)
    for mod, part, pat in getattr(m, 'RELIES', ()):
        relied(c, mod, part, pat)
    sys.exit(c.finish(m.TECHNIQUE))


main()
