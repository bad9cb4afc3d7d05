#!/usr/bin/env python3
"""tools/model.py MODULE [cfg]: model-check one design model and print its size."""
import sys, os, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.argv, a = ["check.py", "--setup"], sys.argv
src = open(f"{V}/check.py").read().replace("\nsys.exit(main())\n", "\n")
g = {"__file__": f"{V}/check.py", "__name__": "check"}
exec(compile(src, "check.py", "exec"), g)
g["setup"]()
t = time.time()
cfg = a[2] if len(a) > 2 else a[1] + ".cfg"
try:
    out, gen, d = g["tlc"](f"{V}/spec/models/{a[1]}.tla", f"{V}/spec/models/{cfg}", tempfile.mkdtemp())
    print(gen, d, len(g["marks"](out, "SCN")), "%.1fs" % (time.time() - t))
except g["Broken"] as e:
    print(e)
