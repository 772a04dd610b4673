#!/bin/bash
# Development check of the image build: constructs with vague linkage (inline functions, templates, their statics and
# thread-locals) in every backend and in otfft.cpp, executed by every object set-up.
# usage: zoo.sh [seconds]
cd "$(dirname "$0")/../.." && W=$(mktemp -d) && trap 'rm -rf "$W"' EXIT
mkdir "$W/r" && cp -r /repo/src /repo/inc "$W/r/" && cp sim/probe/zoo.inc "$W/r/src/zoo.inc"
python3 - "$W/r/src" <<'P'
import sys
d=sys.argv[1]
p=d+'/otfft_algo.cpp'; t=open(p).read(); t=t.replace('#include <iostream>\n','#include <iostream>\n#include "zoo.inc"\n',1)
for c in ('    void FFT0::setup(int n)\n    {','    void Bluestein::setup(int n)\n    {'): assert c in t; t=t.replace(c,c+' zoo::run();',1)
open(p,'w').write(t)
p=d+'/otfft.cpp'; t=open(p).read(); i=t.index('ComplexFFTPtr createComplexFFT(int n, OptimizationType t)'); j=t.index('{',i)+1
open(p,'w').write('#include "zoo.inc"\n'+t[:j]+' zoo::run(); '+t[j:])
P
for P in C05 C06 C09 C10 C12 C13 C17; do OTFFT_REPO="$W/r" OTFFT_SIM_BUILD="$W/b" ./check $P --time ${1:-10} 2>&1 | tail -4; done
