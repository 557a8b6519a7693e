"""A fresh interpreter which performs the jobs of one plan (stdin -> stdout)."""
import json
import os
import sys


def main():
    plan = json.load(sys.stdin)
    out = os.dup(1)
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    from . import main as m
    m.load('heavy' if any(j['fn'] not in m.LIGHT_JOBS for j in plan['jobs']) else 'light')
    from . import parallel
    res = parallel.exec_history(plan, sys.argv[1])
    os.write(out, (json.dumps(res) + '\n').encode())


main()
