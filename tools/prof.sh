#!/bin/bash
# development aid: the quantifiers a function's proof instantiates (module, function pattern)
cd /tmp/w; timeout 300 verus o.rs --triggers-mode silent --verify-only-module $1 --verify-function "$2" --rlimit ${3:-20} --profile-all 2>&1 | grep -E "Cost|-->|error|verif|broadcast" | cut -c1-150 | head -${4:-30}
