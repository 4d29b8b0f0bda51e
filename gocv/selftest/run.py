#!/usr/bin/env python3
"""Self test of gocv: good.gcv must be discharged completely, in bad.gcv every function must have
an obligation that is not, and false must not follow from any contract of good.gcv (vacuity).
usage: run.py GOCV"""
import json, os, re, subprocess, sys, tempfile

here = os.path.dirname(os.path.abspath(__file__))
gocv = os.path.abspath(sys.argv[1])
sys.argv = sys.argv[:1]


def run(path, timeout="1"):
    with tempfile.TemporaryDirectory() as d:
        out = os.path.join(d, "o.json")
        subprocess.run([gocv, "-repo", os.path.join(here, "mod"), "-timeout", timeout, "-json", out, path],
                       stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
        return json.load(open(out))


def obls(o):
    for ob in o["obligations"]:
        yield ob


good = open(os.path.join(here, "good.gcv")).read()
bad = open(os.path.join(here, "bad.gcv")).read()
names = lambda s: re.findall(r"^func (\w+)", s, re.M)
errs = []

o = run(os.path.join(here, "good.gcv"), "20")
n = 0
for ob in o["obligations"]:
    n += 1
    if ob["status"] != "proved":
        errs.append("good: %s: %s %s" % (ob["target"], ob["name"], ob["status"]))
miss = set(names(good)) - {ob["target"].split(".")[-1] for ob in o["obligations"]}
errs += ["good: no obligation for " + f for f in sorted(miss)]

o = run(os.path.join(here, "bad.gcv"))
failed = {ob["target"].split(".")[-1] for ob in o["obligations"] if ob["status"] != "proved"}
expect = set(names(bad)) - {"Callee", "variadic"}
errs += ["bad: nothing fails in " + f for f in sorted(expect - failed)]

# false as an extra postcondition of every function
vac = re.sub(r"(?m)^(func .*)$", r"\1\n  ensures [vacuity] 0 == 1", good)
with tempfile.NamedTemporaryFile("w", suffix=".gcv", delete=False) as f:
    f.write(vac)
o = run(f.name)
os.unlink(f.name)
failed = {ob["target"].split(".")[-1] for ob in o["obligations"] if ob["status"] != "proved" and "vacuity" in ob["name"]}
callers = {"Caller", "Recur", "VariadicFresh", "VariadicShare"}  # their callees' contracts are false here
errs += ["vacuity: false follows in " + f for f in sorted(set(names(good)) - failed - callers)]

for e in errs:
    print(e)
print("gocv selftest: %d obligations of %d functions discharged, %d wrong contracts refused, %d functions free of vacuity%s"
      % (n, len(names(good)), len(expect), len(names(good)) - 1, "" if not errs else "; %d FAILURES" % len(errs)))
sys.exit(1 if errs else 0)
