'''Worker process: reads pickled jobs (base64 lines) on stdin, writes JSON lines on the original stdout.'''

import base64
import importlib
import json
import os
import pickle
import sys
import traceback
import warnings

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main():
    'serve jobs until stdin closes'
    out = os.fdopen(os.dup(1), 'w', buffering=1)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    sys.stdout = os.fdopen(1, 'w')
    os.dup2(devnull, 2)
    warnings.simplefilter('ignore')

    for line in sys.stdin:
        fn, args = pickle.loads(base64.b64decode(line))
        mod, name = fn.split('.')
        try:
            rv = getattr(importlib.import_module(mod), name)(*args)
        except BaseException as e:  # pylint: disable=broad-except
            rv = {'status': 'harness', 'exc': f'{type(e).__name__}: {e}', 'tb': traceback.format_exc(), 'log': []}
        out.write(json.dumps(rv) + '\n')


if __name__ == '__main__':
    main()
