# chk.sh ids: run the property's check against each seeded bug
for s in "$@"; do p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$s/meta.json'))['property'])"); git -C /repo apply /verif/seeded/$s/patch.diff || continue; ( cd /verif; python3-vt check.py $p > /tmp/seed/$s.chk 2>&1; echo "$s $p rc=$? $(grep -h VIOLATION /tmp/seed/$s.chk) | $(grep -h 'not decided' /tmp/seed/$s.chk | cut -c1-150| head -2)"; grep -h "FAILED OBL" evidence/replay/$p.txt 2>/dev/null | head -2 ); git -C /repo checkout -- .; done
