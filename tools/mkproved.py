"""writes proved.json: the proof units whose obligations are all discharged on the committed tree (from evidence/)"""
import glob, json
out = set()
for f in glob.glob('/verif/evidence/C??.json'):
    out |= set(json.load(open(f))['coverage']['units_proved'])
json.dump(sorted(out), open('/verif/proved.json', 'w'), indent=0)
print(len(out))
