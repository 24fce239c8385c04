#!/bin/bash
# try.sh ID...: runs the check of each planted bug's property against it, in copies of /repo and /verif shown at their places.
# PROP=Cxx: that check instead.
mkdir -p /tmp/seed
[ -d /tmp/seed/trepo ] || cp -a /repo /tmp/seed/trepo
git -C /tmp/seed/trepo fetch -q /repo HEAD && git -C /tmp/seed/trepo reset -q --hard FETCH_HEAD
rsync -a --delete --exclude work --exclude evidence --exclude .git /verif/ /tmp/seed/verif/
mkdir -p /tmp/seed/verif/evidence
cat > /tmp/seed/inner.sh <<'I'
mount --bind /tmp/seed/trepo /repo; mount --bind /tmp/seed/verif /verif; cd /verif
for id in "$@"; do
    p=${PROP:-$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")}
    git -C /repo apply /verif/seeded/$id/patch.diff || continue
    s=$(date +%s)
    VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 run.py $p > /tmp/seed/try.$id.log 2>&1; r=$?
    git -C /repo checkout -q -- .
    echo "$id $p rc=$r $(( $(date +%s) - s ))s $(grep -c '^VIOLATION' /tmp/seed/try.$id.log) $(grep -E 'assertion [a-z]' /tmp/seed/try.$id.log | head -1 | cut -c1-150)"
done
I
unshare -Urm bash /tmp/seed/inner.sh "$@"
