#!/usr/bin/env python3
"""Warms the build cache: builds every kind of test binary once."""
import shutil, tempfile
import check
tmp = tempfile.mkdtemp(prefix="verif-setup-")
try:
    for kind in sorted({k for c in list(check.CFG.values()) + [{}] for k in c.get("kinds", ["main"])}):
        print(kind, "ok" if check.build(tmp, kind) else "skipped")
finally:
    shutil.rmtree(tmp, ignore_errors=True)
