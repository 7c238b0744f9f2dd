bash /opt/vp/build.sh > /tmp/b.log 2>&1 || { echo BUILD FAIL; tail -5 /tmp/b.log; exit 1; }
bash /opt/vp/test.sh /tmp/t.json > /tmp/t.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/t.json'))
def names(x):
    if isinstance(x,dict):
        for k in ('passed','pass','tests','stable','stable_passed'):
            if k in x and isinstance(x[k],list): return set(map(str,x[k]))
    return set()
print({k:(len(v) if hasattr(v,'__len__') else v) for k,v in b.items()}, {k:(len(v) if hasattr(v,'__len__') else v) for k,v in t.items()})
bn,tn=names(b),names(t)
print('missing', sorted(bn-tn)[:10], len(bn-tn))
P
