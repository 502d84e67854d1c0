# full rebuild and test, prints what is missing
bash /opt/vp/build.sh >/tmp/build.log 2>&1 || echo BUILD FAILED
bash /opt/vp/test.sh /tmp/out.json >/tmp/test.log 2>&1
python3 - <<'P'
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=json.load(open('/tmp/out.json'))
print(len(o['passed']),"passed; missing:",sorted(b-set(o['passed'])))
P
