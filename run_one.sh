#!/bin/bash
# developer helper: run_one.sh <inst> <mode> <overlay...> -- <root...>
set -e
inst=$1; mode=$2; shift 2
ovs=(); while [ "$1" != "--" ]; do ovs+=(--overlay /verif/contracts/$1); shift; done; shift
roots=(); for r in "$@"; do roots+=(--root "$r"); done
/verif/extract/target/debug/extract --inst $inst --mode $mode "${ovs[@]}" "${roots[@]}" --out /tmp/v/x.body.rs --report /tmp/v/x.json
python3 /verif/assemble.py $mode /tmp/v/x.body.rs /tmp/v/x.rs ${PRELUDES:-prelude_base.rs $([ $inst = StandardTrie ] && echo prelude_std.rs || echo prelude_hashed.rs) prelude_trie.rs prelude_enc.rs}
cd /tmp/v && verus x.rs --multiple-errors 9 ${VARGS}
