import os
_L = "/verif/tools/seedlib/"
G = open(_L + "common_g.py").read()
SH = '#!/bin/bash\nPYTHONDONTWRITEBYTECODE=1 exec python3 "$(cd "$(dirname "$0")" && pwd)/demo.py"\n'
DEMO = SH
def P(s): return {"g.py": G, "demo.py": s}
I = "gyp/pylib/gyp/input.py"
MK = "gyp/pylib/gyp/generator/make.py"
NJ = "gyp/pylib/gyp/generator/ninja.py"
