import json,subprocess,re
log=subprocess.run(['git','-C','/repo','log','--format=%h %s'],capture_output=True,text=True).stdout.splitlines()
props={ 'TraceState.update':'C02','propagators inject nothing':'C03','traceparent with':'C03','B3 headers':'C05','Jaeger headers':'C06','Jaeger baggage':'C06','W3C baggage':'C04','starting a span':'T02','an out-of-range sampler':'T04','simple span processor':'T08','simple log processor':'L01','force_flush racing':'T07'}
import sys
extra=json.load(open('/verif/tools/fix_props.json'))
out=[]
for l in reversed(log):
    h,m=l.split(' ',1)
    if not m.startswith('fix: '): continue
    m=m[5:]
    p=[v for k,v in extra.items() if k in m]
    assert p,m
    out.append("fixed: property=%s %s %s"%(p[0],h,m))
d=json.load(open('/verif/known_findings.json')); d['fixed']=out
json.dump(d,open('/verif/known_findings.json','w'),indent=1,ensure_ascii=False)
