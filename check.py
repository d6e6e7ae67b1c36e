#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]: decide one property of the sources in /repo."""
import os
import sys
import threading

if os.environ.get("PYTHONHASHSEED") != "0":      # the same order of work in every run
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "analyzer"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(1000000)
threading.stack_size(1024 * 1024 * 1024)
rc = [3]


def main():
    import driver_main
    rc[0] = driver_main.main(sys.argv[1:])


t = threading.Thread(target=main)
t.start()
t.join()
sys.stdout.flush()
os._exit(rc[0])
