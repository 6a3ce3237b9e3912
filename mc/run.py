"""python -m mc.run <property id> [quick|thorough|replay FILE]"""
import importlib
import os
import sys
import traceback


def main():
    cid = sys.argv[1]
    what = sys.argv[2] if len(sys.argv) > 2 else 'quick'
    if what in ('quick', 'thorough'):
        os.environ['MC_TIER'] = what
    from mc import core
    if cid == 'C13':
        from mc import sched
        sched.install()         # before the library creates or imports any lock
    try:
        core.setup_repo()
        mod = importlib.import_module('mc.' + cid.lower())
    except Exception:
        # The code under test cannot even be imported: nothing works as promised.
        traceback.print_exc()
        path = os.path.join(core.VERIF, 'evidence', 'replay', cid + '-import.txt')
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, 'w') as f:
            f.write(traceback.format_exc())
        print('VIOLATION property=%s replay=%s' % (cid, path))
        return 1
    if what == 'replay':
        return core.replay(cid, mod.spaces(), sys.argv[3])
    return core.explore(cid, mod.spaces(), known=getattr(mod, 'known', lambda: ())(),
                        assumptions=getattr(mod, 'ASSUMPTIONS', ()))


if __name__ == '__main__':
    sys.exit(main())
