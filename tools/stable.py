"""stable.py OUT.json: exit 1 and name the stable tests that did not pass."""
import json, sys
b = json.load(open('/opt/vp/BASELINE.json'))
o = json.load(open(sys.argv[1]))
miss = sorted(set(b['stable']) - set(o['passed']))
print(len(o['passed']), 'passed;', len(miss), 'stable tests missing')
for m in miss[:10]:
    print('  ', m)
sys.exit(bool(miss))
