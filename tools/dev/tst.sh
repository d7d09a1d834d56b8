#!/bin/bash
bash /opt/vp/build.sh >/tmp/build.log 2>&1 || { tail -30 /tmp/build.log; exit 1; }
bash /opt/vp/test.sh /tmp/o.json >/dev/null 2>&1
python3 -c "
import json;b=json.load(open('/opt/vp/BASELINE.json'))['stable'];o=json.load(open('/tmp/o.json'))['passed'];print('missing',[x for x in b if x not in o])"
