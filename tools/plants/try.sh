# try.sh ID CHECK... : run checks with a planted bug applied
cd /repo; id=$1; shift
git apply /verif/seeded/$id/patch.diff || exit 3
for c in "$@"; do s=$(date +%s); VERIF_SEED=${VERIF_SEED:-1} timeout 900 /verif/run $c >/tmp/try.$c.log 2>&1; r=$?; echo "$id $c exit=$r $(( $(date +%s)-s ))s $(grep -m1 VIOLATION /tmp/try.$c.log | cut -c1-200)"; done
git checkout -- .
