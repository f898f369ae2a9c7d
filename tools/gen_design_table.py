#!/usr/bin/env python3
"""Rewrites the end of DESIGN.md (from '## Planted bugs') from seeded/*/meta.json."""
import json, glob, os, collections
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
by = collections.defaultdict(list)
for m in sorted(glob.glob(root + "/seeded/*/meta.json")):
    by[json.load(open(m))["property"]].append(os.path.basename(os.path.dirname(m)))
missed = "c03-page-key c04-reregister-gap c11-trailing c14-big-histogram c18-none-small c21-meta-first c18-flush-memory c17-index-u16 c21-schema-limit c10-meta-limit c02-torn-read c14-enabled-only c14-as-any c07-trunc c07-many c09-enabled-early c17-timestamp-name c18-batch-cap c24-stale-cache c08-crowd c16-default-value c10-own-first c06-own-first c06-max-64 c14-md-take c27-request-local".split()
path = root + "/DESIGN.md"
s = open(path).read()
i = s.find("## Planted bugs")
s = s[:i] if i >= 0 else s
n = sum(map(len, by.values()))
s += f"""## Planted bugs

{n} planted bugs lie in `seeded/` (made by `tools/seeds/mk.py` from the lists beside it, each confirmed to build, to pass the
repository's tests and to be told apart by its demonstration). Every one is caught by the quick check of its property
(`tools/seeds/try.sh`). Those marked * were missed when first tried; the check was strengthened until it caught them.

| check | planted bugs |
|---|---|
"""
for p in sorted(by):
    s += f"| {p} | " + ", ".join(b + ("*" if b in missed else "") for b in by[p]) + " |\n"
s += """
Besides these, `tools/mutate/mutate.py` makes small mechanical changes (operators, constants, dropped statements, swapped
arguments) to every source file: of 905, 521 do not build, and the checks leave 38 alive, each looked at and found to
change no behaviour the properties speak of (capacity hints, equivalent forms, unreachable arms). About 120 further hand-written
changes were tried and not kept; the ones first missed became planted bugs.

Quietness was tried against behaviour-preserving rewrites of all source files (other loops, other once-cells, buffered rows,
whole-stream reading, reversed iteration, other white space in the Prometheus format), with several seeds, and with twelve busy loops
competing for the eight processors.
"""
open(path, "w").write(s)
print(n)
