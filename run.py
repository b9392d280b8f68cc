#!/usr/bin/env python3
"""run.py PROPERTY [quick|thorough] -- run one check (see MANIFEST.json)."""
import importlib
import os
import pkgutil
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import checks  # noqa: E402
import vlib  # noqa: E402

table = {}
for m in pkgutil.iter_modules(checks.__path__):
    mod = importlib.import_module("checks." + m.name)
    table.update(getattr(mod, "CHECKS", {}))
if len(sys.argv) < 2 or sys.argv[1] not in table:
    print("usage: run.py PROPERTY [quick|thorough]; properties:", " ".join(sorted(table)))
    sys.exit(2)
vlib.main(table)
