#!/usr/bin/env python3
"""mirror.py SRC DST: makes DST hold SRC's sources, writing only files whose content differs, so that
make rebuilds exactly what changed whatever the time stamps of SRC are."""
import filecmp, os, sys
src, dst = sys.argv[1], sys.argv[2]
want = set()
for top in ("include", "src", "utils", "example"):
    for d, _, fs in os.walk(os.path.join(src, top)):
        for f in fs:
            if not f.endswith((".c", ".cpp", ".h", ".hpp", ".cc", ".tpp", ".inl", ".def")):
                continue
            a = os.path.join(d, f)
            r = os.path.relpath(a, src)
            want.add(r)
            b = os.path.join(dst, r)
            data = open(a, "rb").read()
            if os.path.exists(b) and open(b, "rb").read() == data:
                continue
            os.makedirs(os.path.dirname(b), exist_ok=True)
            open(b + ".tmp%d" % os.getpid(), "wb").write(data)
            os.replace(b + ".tmp%d" % os.getpid(), b)
for d, _, fs in os.walk(dst):
    for f in fs:
        r = os.path.relpath(os.path.join(d, f), dst)
        if r not in want:
            os.unlink(os.path.join(d, f))
