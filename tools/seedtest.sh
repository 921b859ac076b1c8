#!/bin/bash
# seedtest.sh [-t] [-n] ID...: demo on unchanged tree and with the patch; the property's check with the patch (-n: not); -t: also the stable tests
T=; N=; while [[ $1 == -* ]]; do [ $1 = -t ] && T=1; [ $1 = -n ] && N=1; shift; done
cd /repo; [ -z "$(git status --short -uno)" ] || { echo dirty; exit 1; }
cp -a /verif/seeded /tmp/seedtest.$$; S=/tmp/seedtest.$$; trap 'git -C /repo checkout -q -- .; rm -rf /tmp/seedtest.'$$'; bash /opt/vp/build.sh >/dev/null 2>&1' EXIT
bash /opt/vp/build.sh >/dev/null 2>&1
for i in "$@"; do p=$(python3 -c "import json;print(json.load(open('$S/$i/meta.json'))['property'])"); bash $S/$i/demo.sh >$S/out 2>&1; r=$?; [ $r = 0 ] || { echo "== $i DEMO FAILS UNPATCHED rc=$r"; tail -4 $S/out; }; done
for i in "$@"; do p=$(python3 -c "import json;print(json.load(open('$S/$i/meta.json'))['property'])")
 git apply $S/$i/patch.diff || { echo "== $i patch does not apply"; continue; }
 if ! bash /opt/vp/build.sh >$S/out 2>&1; then echo "== $i DOES NOT BUILD"; grep error $S/out; git checkout -q -- .; continue; fi
 bash $S/$i/demo.sh >$S/out 2>&1; r=$?; l=$(grep -h FAILED $S/out | head -1)
 t=-; [ -n "$T" ] && { bash /opt/vp/test.sh $S/o.json >/dev/null 2>&1; t=$(python3 -c "
import json;b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open('$S/o.json'));k=b['stable'];print('missing',[x for x in k if x not in set(o['passed'])][:3])"); }
 c=-; if [ -z "$N" ]; then s=$(date +%s); (cd /verif; timeout 900 ./vp.py check $p >$S/chk 2>&1); c="rc=$? $(($(date +%s)-s))s $(grep -m1 -o 'VIOLATION.*' $S/chk | cut -c1-100)"; fi
 echo "== $i ($p) demo_patched=$r [$l] tests=$t check: $c"; [ $r = 0 ] && echo "   !!! demo passes with the patch"; [[ "$c" == "rc=1"* || -n "$N" ]] || { echo "   !!! NOT CAUGHT"; tail -3 $S/chk | cut -c1-300; }
 git checkout -q -- .; done
