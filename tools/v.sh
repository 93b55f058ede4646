#!/bin/bash
# development aid: translate and verify, with the errors mapped to functions
R=$(cd "$(dirname "$0")/.." && pwd); W=${W:-/tmp/w}; mkdir -p $W; cd $W
DEP=$(ls -d ~/.cargo/registry/src/*/fuel-types-0.5.3/src)
DC=$(ls -d ~/.cargo/registry/src/*/fuel-crypto-0.6.2/src)
$R/build/vx/debug/vx --src ${VP_REPO:-/repo}/src --contracts $R/contracts --dep bytes_dep=$DEP/bytes.rs --dep types_dep=$DEP/types.rs --dep hasher_dep=$DC/hasher.rs --dep public_dep=$DC/public.rs --out $W/o.rs --map $W/o.json || exit 3
python3 -c "import json; u=json.load(open('$W/o.json'))['unmatched']; u and print('UNMATCHED',u)"
verus o.rs --triggers-mode silent --multiple-errors 8 --num-threads 8 --rlimit ${RL:-40} "$@" > o.log 2>&1
grep -E "^error" -A9 o.log | cut -c1-220 | head -${LINES_MAX:-70}; grep "results::" o.log
