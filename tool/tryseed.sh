#!/bin/bash
# tryseed.sh ID...: applies each planted change to /repo, builds, tests, runs its demo and its check, and undoes it
for id in "$@"; do
  d=/verif/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  cd /repo && git diff --quiet || { echo "repo dirty"; exit 1; }
  bash /opt/vp/build.sh >/tmp/ts.log 2>&1 || echo "clean build failed"
  timeout 300 bash $d/demo.sh >/tmp/ts.demo0 2>&1; c0=$?
  if ! git apply $d/patch.diff; then echo "$id: patch does not apply"; continue; fi
  bash /opt/vp/build.sh >/tmp/ts.log 2>&1; b=$?
  bash /opt/vp/test.sh /tmp/ts.json >/tmp/ts.tlog 2>&1
  miss=$(python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/ts.json'))
def passed(x):
    if isinstance(x,dict):
        for k in ('passed','pass','stable','tests'):
            if k in x: return passed(x[k])
    return set(x)
print(sorted(passed(b)-passed(t)))
P
)
  timeout 300 bash $d/demo.sh >/tmp/ts.demo1 2>&1; c1=$?
  (cd /verif && python3 engine/run.py $prop > /tmp/ts.check 2>&1); r=$?
  git checkout -q -- .
  echo "$id [$prop] build=$b missing-tests=$miss demo: clean=$c0 patched=$c1 check=$r $(grep -c '^  .*\[' /tmp/ts.check) reports: $(grep '\] ' /tmp/ts.check | grep -v '^  rule' | head -1 | cut -c1-150)"
done
bash /opt/vp/build.sh >/tmp/ts.log 2>&1
