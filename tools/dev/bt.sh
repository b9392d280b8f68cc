bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { tail -20 /tmp/b.log; exit 1; }
bash /opt/vp/test.sh /tmp/o.json >/tmp/t.log 2>&1
python3 - <<'P'
import json;o=json.load(open('/tmp/o.json'));b=json.load(open('/opt/vp/BASELINE.json'))
st=b.get('stable') or b.get('passed') or b.get('tests') or []
print(len(o['passed']),'passed; missing', [t for t in (st if isinstance(st,list) else []) if t not in o['passed']])
P
