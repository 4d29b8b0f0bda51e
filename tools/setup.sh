#!/bin/bash
# Builds the verifier; every check does the same if the binary is missing.
cd "$(dirname "$0")/.."
python3 - <<'P'
import sys; sys.argv=["check.py"]
src=open("tools/check.py").read().rsplit("\nmain()",1)[0]
g={"__file__":"tools/check.py","__name__":"setup"}
exec(compile(src,"tools/check.py","exec"),g)
print(g["build_gocv"]())
P
