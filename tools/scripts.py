#!/usr/bin/env python3
"""scripts.py FILE: runs a Python script once per line of standard input (its arguments) and prints, per
run, `exit N` (2 for an exception), the number of lines of output and the output."""
import contextlib, io, os, runpy, sys, traceback

sys.dont_write_bytecode = True
path = sys.argv[1]
sys.path.insert(0, os.path.dirname(path))
for line in sys.stdin:
    out, code = io.StringIO(), 0
    sys.argv = [path] + line.split()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
        try:
            runpy.run_path(path, run_name="__main__")
        except SystemExit as e:
            code = 0 if e.code in (None, 0) else 1
        except BaseException:
            code = 2
            print(traceback.format_exc().strip().splitlines()[-1])
    t = out.getvalue().splitlines()
    print("exit", code, len(t))
    for l in t:
        print(l)
    sys.stdout.flush()
