#!/bin/bash
# coverage.sh [SECS]: lines of /repo/src which no monitor reaches (for the developer; no check uses it)
S=${1:-8}; T=$(mktemp -d /tmp/cov-XXXX); trap 'rm -rf "$T"' EXIT
cd "$(dirname "$0")/../harness"
L=$(ls -d ~/.rustup/toolchains/stable*/lib/rustlib/*/bin | head -1)
LLVM_PROFILE_FILE="$T/build-%p.prof0" RUSTFLAGS="-Cinstrument-coverage" cargo build --offline --profile chk --target-dir "$T/t" --bins --features serde -q 2>/dev/null
for b in "$T"/t/chk/c??; do n=$(basename "$b")
  LLVM_PROFILE_FILE="$T/$n-%p.profraw" timeout 300 "$b" --secs "$S" --cases 60000 --out /dev/null >/dev/null 2>&1
  "$L/llvm-profdata" merge -sparse "$T"/$n-*.profraw -o "$T/$n.prof" && "$L/llvm-cov" export -format=lcov "$b" -instr-profile="$T/$n.prof" --ignore-filename-regex='(registry|rustc|rustup|harness)' > "$T/$n.lcov" 2>/dev/null
  rm -f "$T"/$n-*.profraw
done
python3 - "$T"/*.lcov <<'P'
import sys, collections
hit = collections.defaultdict(int)
for p in sys.argv[1:]:
    f = None
    for l in open(p):
        if l.startswith('SF:'): f = l[3:].strip()
        elif l.startswith('DA:'): n, c = l[3:].split(',')[:2]; hit[f, int(n)] += int(c)
print(len(hit), 'lines,', sum(1 for c in hit.values() if c), 'reached')
for (f, n), c in sorted(hit.items()):
    if not c: print(f.split('/src/')[-1], n, open(f).read().split('\n')[n - 1])
P
