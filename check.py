#!/usr/bin/env python3
"""Run one registered check:  python3 check.py C01"""
import os
import sys
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import importlib      # noqa: E402
import traceback      # noqa: E402


def main():
    pid = sys.argv[1]
    try:
        mod = importlib.import_module('checks.' + pid.lower())
        return mod.run()
    except Exception:
        traceback.print_exc()
        print('%s: analysis could not be completed' % pid)
        return 2


if __name__ == '__main__':
    import threading
    threading.stack_size(512 * 1024 * 1024)
    res = []
    t = threading.Thread(target=lambda: res.append(main()))
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(res[0] if res else 2)
