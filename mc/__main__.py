import sys, os, importlib
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import seams, lib


def main(argv):
    if argv[0] == 'replay':
        import json
        pid = json.load(open(argv[1]))['property']
    else:
        pid = argv[0]
    try:
        mod = importlib.import_module('checks.' + pid)
        check = mod.CHECK
    except Exception:
        # the tree under test does not even import: nothing of the property can hold
        import traceback
        traceback.print_exc()
        if argv[0] == 'replay':
            return 1
        rd = os.path.join(lib.ROOT, 'evidence', 'replay')
        os.makedirs(rd, exist_ok=True)
        p = os.path.join(rd, pid + '-import.txt')
        with open(p, 'w') as f:
            traceback.print_exc(file=f)
        print('VIOLATION property=%s replay=%s' % (pid, p))
        return 1
    if argv[0] == 'replay':
        return lib.replay(check, argv[1])
    tier = argv[1] if len(argv) > 1 else lib.TIER
    return lib.run_check(check, tier)


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
