"""addknown.py known PROP KEY WHAT | addknown.py fixed PROP COMMIT WHAT -- used by hand, never by a check"""
import json, os, sys
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.json')
L = json.load(open(p))
kind, prop, k, what = sys.argv[1:5]
L.append({'property': prop, 'key': k, 'what': what} if kind == 'known' else {'property': prop, 'fixed': 'fixed: property=%s %s %s' % (prop, k, what)})
json.dump(L, open(p, 'w'), indent=1); open(p, 'a').write('\n')
