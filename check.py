#!/usr/bin/env python3
"""check.py PROPERTY [-v] [-only REGEX]: decide one property on /repo's current working tree."""
import os, sys, re
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lbv import core, sessions

def main():
    prop = sys.argv[1]; tier = os.environ.get('VERIF_TIER', 'quick'); seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    ss = sessions.generate(prop, tier, seed)
    if '-only' in sys.argv: ss = [s for s in ss if re.search(sys.argv[sys.argv.index('-only') + 1], s.id)]
    return core.check(prop, ss, tier, seed, sessions.assumptions(prop), verbose='-v' in sys.argv)

sys.exit(main())
