# dirty.sh ids: with each patch, the demo must fail
for s in "$@"; do cd /repo; git apply /tmp/seed/p/$s.diff || continue; bash /opt/vp/build.sh >/dev/null 2>&1; bash /tmp/seed/d/$s/demo.sh >/tmp/seed/d/$s.dlog 2>&1; echo $s patched rc=$? $(grep -E 'error|FAILED|ssert' /tmp/seed/d/$s.dlog|head -2); git checkout -- .; done; bash /opt/vp/build.sh >/dev/null 2>&1
