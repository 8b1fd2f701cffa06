#!/bin/bash
# usage: tools/seed.sh ID [secs]   Tries /verif/seeded/ID in a scratch copy of /repo: demo without and with the patch, then the property's check.
# SKIPDEMO=1 skips the demonstration, SEED= picks the seed, PROP= another property
id=$1; secs=${2:-30}; d=/verif/seeded/$id; w=/tmp/w/$id; mkdir -p /tmp/w
prop=${PROP:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
rm -rf "/tmp/w/$id"; cp -a /repo $w
if [ -z "$SKIPDEMO" ]; then
  [ -z "$NOBASE" ] && { (cd $w && timeout 300 bash $d/demo.sh >/tmp/w/$id.base.log 2>&1); echo "demo base: $?"; }
fi
git -C $w apply $d/patch.diff || { echo "patch does not apply"; rm -rf "/tmp/w/$id"; exit 1; }
if [ -z "$SKIPDEMO" ]; then
  (cd $w && make -j8 >/tmp/w/$id.build.log 2>&1) || { echo "build failed"; tail -5 /tmp/w/$id.build.log; }
  (cd $w && timeout 300 bash $d/demo.sh >/tmp/w/$id.demo.log 2>&1); echo "demo patched: $?"; tail -3 /tmp/w/$id.demo.log
fi
mkdir -p /tmp/w/out
SIM_REPO=$w SIM_BUILD=/tmp/w/build python3 /verif/sim/build.py >/tmp/w/$id.sim.log 2>&1 || { echo "sim build failed"; tail -5 /tmp/w/$id.sim.log; }
mkdir -p /tmp/w/sim; rm -rf /tmp/w/sim/tls; cp -r /verif/sim/tls /tmp/w/sim/
/tmp/w/build/ircsim check --prop $prop --secs $secs --seed ${SEED:-1} --known /verif/known_findings.txt --out /tmp/w/out 2>&1 | cut -c1-700; echo "check rc ${PIPESTATUS[0]}"
rm -rf "/tmp/w/$id"
