"""Replay one counterexample file: python -m mc.replay evidence/replay-X.json"""
import sys
sys.dont_write_bytecode = True
import importlib
import json
from mc import core


def main(path):
    with open(path) as f:
        doc = json.load(f)
    core.setup_environment()
    mod = importlib.import_module(f"mc.checks.{doc['property'].lower()}")
    res = core.guarded(mod.run_case, doc['case'])
    for key, message, _ in res.violations:
        print(f'{key}\n  {message}')
    print('violations:', len(res.violations))
    return 1 if res.violations else 0


if __name__ == '__main__':
    sys.exit(main(sys.argv[1]))
