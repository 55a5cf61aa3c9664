# -*- coding: utf-8 -*-
"""python mc/main.py C01 [quick|thorough] [--replay FILE]"""
import importlib
import os
import sys
import traceback
import warnings

warnings.simplefilter('ignore')
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
sys.path.insert(0, os.environ.get('VERIF_REPO', '/repo'))

from mc import lib                                            # noqa: E402


def main():
    prop = sys.argv[1]
    try:
        with lib.quiet():
            module = importlib.import_module('mc.' + prop.lower())
    except BaseException:
        # the library cannot even be imported: nothing it promises holds
        traceback.print_exc(file=sys.stdout)
        os.makedirs(lib.REPLAYS, exist_ok=True)
        path = os.path.join(lib.REPLAYS, prop + '-import.txt')
        with open(path, 'w') as f:
            f.write(traceback.format_exc())
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    return lib.run(module, sys.argv[2:])


if __name__ == '__main__':
    code = main()
    sys.stdout.flush()
    os._exit(code)
