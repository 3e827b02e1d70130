"""writes literals.json: numeric literals of the committed source (bounded runs favour values at literals that are new)"""
import json, sys
sys.path.insert(0, '/verif')
from vc import run
json.dump(run.source_literals(), open('/verif/literals.json', 'w'), indent=0, sort_keys=True)
