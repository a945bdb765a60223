# seed.sh ID... : run each seeded bug's check on a patched copy
cd /verif
for id in "$@"; do
 d=/tmp/sd_$id; rm -rf "/tmp/sd_$id"; cp -a /repo $d; (cd $d && git apply /verif/seeded/$id/patch.diff) || { echo "$id: PATCH FAILS"; continue; }
 p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
 VERIF_REPO=$d bash check.sh $p >/tmp/sd_$id.out 2>&1; rc=$?
 echo "$id $p rc=$rc $(grep -m1 VIOLATION /tmp/sd_$id.out|cut -c1-150) :: $(tail -1 /tmp/sd_$id.out | grep -o '[0-9]*s$')"
 rm -rf "/tmp/sd_$id"
done
