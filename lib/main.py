import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mon

sys.path.insert(0, os.path.join(mon.VERIF, 'checks'))


def main(argv):
    prop = argv[0]
    if prop == '--selftest':
        import ctbayes.ito.models.ou
        import ctbayes.ito.models.cir, ctbayes.switching.models.ou, oracle
        print('machinery ready: ctbayes imported from', os.path.dirname(os.path.dirname(ctbayes.ito.models.ou.__file__)))
        return 0
    only = [argv[i + 1] for i, a in enumerate(argv[:-1]) if a == '--task'] or None
    try:
        mod = importlib.import_module(prop.lower())
    except Exception as e:
        # a tree whose modules do not even import cannot be judged
        import traceback
        traceback.print_exc()
        print('INCONCLUSIVE: cannot import', e)
        return 2
    tier = os.environ.get('VERIF_TIER', 'quick')
    return mon.run_check(prop, mod.tasks(tier), mod.RULE, getattr(mod, 'ASSUMPTIONS', ()), only=only)


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
