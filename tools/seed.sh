#!/bin/bash
# tools/seed.sh ID : confirms one planted bug (seeded/ID) in a scratch copy of /repo:
# demo passes on the clean copy; with the patch the library builds, the stable tests pass and the
# demo fails. Not used by any check.
id=$1; sd=/verif/seeded/$id
R=$(mktemp -d /tmp/seedrepo.XXXXXX)
trap 'rm -rf "$R"' EXIT
cp -a /repo/. "$R"/ ; rm -rf "$R/_build" "$R/bin" "$R/lib"
mkdir "$R.sd"; trap 'rm -rf "$R" "$R.sd"' EXIT
cp "$sd"/* "$R.sd"/; rm -f "$R.sd"/*.diff "$R.sd"/meta.json
cd "$R"
git checkout -q -- . 
(timeout 300 bash "$R.sd/demo.sh") > "$R.sd/out0" 2>&1; r0=$?
git apply "$sd/patch.diff" || { echo "$id: patch does not apply"; exit 1; }
(timeout 300 bash "$R.sd/demo.sh") > "$R.sd/out1" 2>&1; r1=$?
echo "$id: demo clean=$r0 patched=$r1"
[ $r0 = 0 ] || tail -5 "$R.sd/out0"
tail -3 "$R.sd/out1" | cut -c1-200
[ "$2" = demo ] && exit
export CC=/usr/bin/clang-16 CXX=/usr/bin/clang++-16
cmake -S . -B _build -G Ninja -DCMAKE_BUILD_TYPE=Debug -DCMAKE_ENABLE_UNIT_TEST=ON -Dasio_DIR=/opt/vp/cmake > "$R.sd/cm" 2>&1 || tail -3 "$R.sd/cm"
targets=(librf)
for f in tutorial/*.cpp benchmark/*.cpp; do t=$(basename "$f" .cpp); [ "$t" = test_async_modern_cb ] || targets+=("$t"); done
ninja -C _build -j8 -k 0 "${targets[@]}" > "$R.sd/nj" 2>&1 || { echo "$id: BUILD FAILED"; grep error "$R.sd/nj" | head; exit 1; }
export BIN=$R/bin WD=$R.sd
one() { cd "$WD"; if timeout -k 5 "$2" "$BIN/$1" </dev/null >"$WD/$1.log" 2>&1; then echo "PASS $1"; else echo "FAIL $1"; fi; }
export -f one
light=() heavy=()
for f in tutorial/*.cpp benchmark/benchmark_channel_passing_next.cpp; do t=$(basename "$f" .cpp)
 case $t in test_async_modern_cb|test_memory_leak|test_async_when_all) ;; test_async_channel|test_async_channel_mult_thread) heavy+=("$t");; *) light+=("$t");; esac; done
{ printf '%s\n' "${light[@]}" | xargs -P 6 -I{} bash -c 'one {} 60'; for t in "${heavy[@]}"; do one "$t" 180; done; } > "$R.sd/res"
python3 - "$R.sd/res" "$id" <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'))
st=b.get('stable') or b.get('passed') or b.get('tests') or b
st=[x if isinstance(x,str) else x.get('id') for x in st]
p={l.split()[1] for l in open(sys.argv[1]) if l.startswith('PASS')}
m=[x for x in st if x not in p and x.split('::')[-1] not in p]
print(f"{sys.argv[2]}: stable {len(st)} passed {len(p)} missing {m}")
P
