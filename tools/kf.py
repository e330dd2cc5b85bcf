"""kf.py: helpers to edit known_findings.json by hand: kf.py open PROPERTY KEY WHAT | kf.py fixed PROPERTY COMMIT WHAT"""
import json, os, sys
FN = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.json')
d = json.load(open(FN))
k, pid, key, what = sys.argv[1:5]
if k == 'open':
    e = {'property': pid, 'key': key, 'status': 'open', 'what': what}
else:
    e = {'property': pid, 'key': 'fixed:%s:%s' % (pid, key), 'status': 'fixed', 'what': 'fixed: property=%s %s %s' % (pid, key, what)}
d['findings'] = [x for x in d['findings'] if not (x['property'] == pid and x['key'] == e['key'])] + [e]
json.dump(d, open(FN, 'w'), indent=1, ensure_ascii=False)
open(FN, 'a').write('\n')
