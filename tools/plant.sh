#!/bin/bash
# plant.sh ID: confirms a planted bug in a scratch copy: applies, builds, passes the tests; demo passes without it and fails with it.
id=$1; dir=/verif/seeded/$id; w=/tmp/plant.$id.$$
set -u
cp -a /repo "$w" && cd "$w" || exit 3
trap 'rm -rf "$w"' EXIT
bash "$dir/demo.sh" >/dev/null 2>"$w.err" || { echo "$id: demo FAILS on the unchanged tree"; cat "$w.err"; rm -f "$w.err"; exit 1; }
git apply "$dir/patch.diff" || { echo "$id: patch does not apply"; exit 1; }
touch $(git diff --name-only)
make -j8 -f tests/Makefile tests/build/runtests >/dev/null 2>"$w.err" && make -j8 -f /opt/vp/headers.mk >/dev/null 2>"$w.err" || { echo "$id: does not build"; tail -5 "$w.err"; rm -f "$w.err"; exit 1; }
timeout 60 tests/build/runtests >"$w.err" 2>&1 || { echo "$id: the tests notice"; tail -20 "$w.err"; rm -f "$w.err"; exit 1; }
if timeout 300 bash "$dir/demo.sh" >"$w.err" 2>&1; then echo "$id: demo passes with the change"; rm -f "$w.err"; exit 1; fi
rm -f "$w.err"
echo "$id: ok"
