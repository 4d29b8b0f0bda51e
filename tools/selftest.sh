#!/bin/bash
# Self test of the verifier: right contracts accepted, wrong ones refused, no vacuous ones (2 min).
cd "$(dirname "$0")/.."
exec python3 gocv/selftest/run.py "$(bash tools/setup.sh | tail -1)"
