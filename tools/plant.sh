#!/bin/bash
# usage: tools/plant.sh ID...   (development aid; needs root with mount privileges)
# For each planted bug: in private copies of /repo and /verif, bind-mounted over
# the real paths, checks that the demonstration passes on the unchanged tree,
# that the patch applies, builds, passes the stable tests and fails the
# demonstration, and whether the property's quick check reports it.
W=${PLANT_DIR:-/tmp/plant}
one() {
  id=$1; d=$W/$id; mkdir -p "$d"
  cp -a /repo "$d/repo"; cp -a /verif "$d/verif"
  unshare -m bash -c '
    id='"$id"'; d='"$d"'
    mount --bind "$d/repo" /repo; mount --bind "$d/verif" /verif
    mkdir -p "$d/tmp"; mount --bind "$d/tmp" /tmp 2>/dev/null
    cp -r /verif/seeded/$id /tmp/demo; rm -f /tmp/demo/patch.diff /tmp/demo/meta.json
    prop=$(python3 -c "import json;print(json.load(open(\"/verif/seeded/$id/meta.json\"))[\"property\"])")
    cd /repo
    bash /opt/vp/build.sh >/tmp/b0.log 2>&1 || echo "$id: base build failed"
    bash /tmp/demo/demo.sh >/tmp/d0.log 2>&1 || { echo "$id: DEMO FAILS ON CLEAN"; tail -5 /tmp/d0.log; }
    git apply /verif/seeded/$id/patch.diff || echo "$id: PATCH DOES NOT APPLY"
    bash /opt/vp/build.sh >/tmp/b1.log 2>&1 || { echo "$id: PATCHED BUILD FAILS"; tail -5 /tmp/b1.log; }
    bash /opt/vp/test.sh /tmp/out.json >/dev/null 2>&1
    python3 - $id <<P
import json,sys
b=json.load(open("/opt/vp/BASELINE.json"));o=json.load(open("/tmp/out.json"))
m=sorted(set(b["stable"])-set(o["passed"]))
if m: print(sys.argv[1]+": STABLE TESTS FAIL", m[:4])
P
    if bash /tmp/demo/demo.sh >/tmp/d1.log 2>&1; then echo "$id: DEMO PASSES ON PATCHED"; fi
    for p in ${PROPS:-$prop}; do
      VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 /verif/bin/check $p quick >/tmp/c.log 2>&1; rc=$?
      echo "$id: $p check rc=$rc $(grep -ah VIOLATION /tmp/c.log | head -1) -- $(grep -ahv VIOLATION /tmp/c.log | tail -1 | cut -c1-200)"
    done
  '
  rm -rf "$d/repo" "$d/verif" "$d/tmp/demo"
}
export -f one; export W
printf '%s\n' "$@" | xargs -P ${JOBS_PLANT:-1} -I{} bash -c 'one {}'
