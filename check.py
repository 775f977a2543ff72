#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough]"""
import importlib
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, 'sa'), os.path.join(HERE, 'sa', 'rules')]
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    import engine
    return engine.run(pid, importlib.import_module(pid.lower()), tier)


if __name__ == '__main__':
    import threading
    threading.stack_size(512 * 1024 * 1024)
    out = []
    t = threading.Thread(target=lambda: out.append(main()))
    t.start()
    t.join()
    sys.exit(out[0] if out else 4)
