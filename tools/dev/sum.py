import json,sys
d=json.load(open(sys.argv[1]));
for k in ('roots','recursive','functions','call_sites','steps','incomplete','stats'): print(k,str(d[k])[:300])
from collections import Counter
print(Counter((o['prop'],o['ok']) for o in d['obligations']))
n=0
for o in d['obligations']:
    if not o['ok'] and (len(sys.argv)<3 or o['prop'] in sys.argv[2:]):
        n+=1
        if n<60: print(o['prop'],'|',o['key'][:150],'|',o['loc'],'|',o['msg'][:100])
