#!/bin/bash
# seedtest.sh ID... : confirm planted bugs in a scratch worktree (/tmp/w) and run the checks on them
set -u
W=/tmp/w
if [ ! -d $W ]; then git -C /repo worktree add --detach $W HEAD >/dev/null || exit 1; fi
git -C $W checkout -q --detach "$(git -C /repo rev-parse HEAD)" && git -C $W checkout -q -- .
build() {
  cmake -S /opt/vp/cmake -B $W/_build -G Ninja -DREPO=$W -DCMAKE_C_COMPILER=/usr/bin/clang-18 \
    -DCMAKE_CXX_COMPILER=/usr/bin/clang++-18 -DCMAKE_BUILD_TYPE=Debug -DLLVM_DIR=/usr/lib/llvm-20/lib/cmake/llvm \
    -DFETCHCONTENT_FULLY_DISCONNECTED=ON \
    "-DEXCLUDE_CODONC=codon/parser/peg/peg.cpp;codon/dsl/plugins.cpp" \
    "-DEXCLUDE_CODONRT=codon/runtime/lib.cpp;codon/runtime/numpy/loops.cpp" >/tmp/w.cmake 2>&1 &&
  ninja -C $W/_build -j8 >/tmp/w.build 2>&1 || { tail -30 /tmp/w.build; return 1; }
}
demo() { (cd $W && timeout 300 bash /verif/seeded/$1/demo.sh) >/tmp/w.demo 2>&1; }
build || exit 1
for id in "$@"; do
  demo $id; a=$?
  [ $a = 0 ] || { echo "$id: demo fails on the unchanged tree ($a)"; grep -m4 -E "error|FAILED|egmentation|assert" /tmp/w.demo; tail -3 /tmp/w.demo; continue; }
  git -C $W apply /verif/seeded/$id/patch.diff || { echo "$id: does not apply"; continue; }
  if build; then
    $W/_build/codon_test >/tmp/w.test 2>&1; t=$?
    demo $id; b=$?
    prop=$(python3 -c "import json,sys;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
    (cd /verif && VERIF_REPO=$W python3 checks/run.py $prop) >/tmp/w.check 2>&1; c=$?
    echo "$id: tests=$t demo=$b check($prop)=$c $( [ $t = 0 ] && [ $b != 0 ] && echo COUNTS || echo BAD ) $( [ $c = 1 ] && echo CAUGHT || echo MISSED )"
    [ $c = 1 ] && head -2 /tmp/w.check | cut -c1-300
    [ $c -gt 1 ] && tail -3 /tmp/w.check
    [ $t = 0 ] || grep FAILED /tmp/w.test | head -5
  fi
  git -C $W checkout -q -- .
done
