import json, re, sys
d, rc, f = sys.argv[1], int(sys.argv[2]), sys.argv[3]
p = '/verif/tools/plants_status.json'
try:
    s = json.load(open(p))
except Exception:
    s = {}
t = open(f).read()
m = re.search(r'VIOLATION.*\n\s+unit (\S+), obligation (.*?): ', t)
how = 'no failing input found' if re.search('VIOLATION.*no-failing', t) else 'failing input'
s[d] = ['%s, obligation "%s"' % (m.group(1), m.group(2)[:70]), how] if rc == 1 and m else ['missed', '']
json.dump(s, open(p, 'w'), indent=0, sort_keys=True)
