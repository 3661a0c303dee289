import importlib
import json
import os
import sys

from . import core


def main(argv):
    if argv[0] == 'replay':
        r = json.load(open(argv[1]))
        mod = importlib.import_module('rv.props.' + r['property'].lower())
        return core.replay(mod, r['property'], argv[1])
    prop = argv[0].upper()
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    mod = importlib.import_module('rv.props.' + prop.lower())
    only = argv[2:] or None
    lim = os.environ.get('VERIF_LIMIT')
    return core.run_property(mod, prop, tier, seed,
                             limit=int(lim) if lim else None, only=only)


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
