#!/usr/bin/env python3
"""replay.py FILE: rebuilds the native program from /repo's current tree and runs one recorded counterexample on it."""
import sys, re, check, spec, build
path = sys.argv[1]; prop = re.search(r"(P\d+)-", path.split("/")[-1]).group(1)
d = check.get_build(spec.PROPS[prop]["harness"], bool(re.search(r"^param pmem [12]", open(path).read(), re.M))); rc, out = check.native(d + "/h.native", path)
print(out); print("outcome:", check.OUTCOME[rc]); sys.exit(0 if rc == 0 else 1)
