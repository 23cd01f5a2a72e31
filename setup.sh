#!/bin/sh
# Builds nothing; checks that the verifier back ends are present and that the
# engine still rejects wrong bodies (see vf/selftest.py).
cd "$(dirname "$0")" || exit 2
mkdir -p evidence/replay
exec ./vt -m vf.selftest
