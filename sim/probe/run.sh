#!/bin/bash
# Development check of the simulated runtime itself: a copy of the library whose factory also runs a catalogue of
# OpenMP, std::thread, lock, future and task constructs that check their own results.
# usage: run.sh [seconds]
cd "$(dirname "$0")/../.." && W=$(mktemp -d) && trap 'rm -rf "$W"' EXIT
mkdir "$W/r" && cp -r /repo/src /repo/inc "$W/r/" && cp sim/probe/probe.inc "$W/r/src/probe.inc"
python3 - "$W/r/src/otfft.cpp" <<'P'
import sys
p=sys.argv[1]; t=open(p).read(); i=t.index('ComplexFFTPtr createComplexFFT(int n, OptimizationType t)'); j=t.index('{',i)+1
open(p,'w').write('#include "probe.inc"\n'+t[:j]+' probe::run(); '+t[j:])
P
for P in C05 C06 C09 C10 C12 C13; do OTFFT_REPO="$W/r" OTFFT_SIM_BUILD="$W/b" ./check $P --time ${1:-10} 2>&1 | tail -3; done
B=$(ls -td "$W"/b/*/ | head -1)
for p in C06 C07 C09 C10 C12; do for m in determinism replaycheck; do "$B/simrun" $m --prop $p --from 300 --count 40 | tail -1; done; done
git checkout -q evidence 2>/dev/null; true
