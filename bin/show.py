import json,sys
d=json.load(open(sys.argv[1])); print(d['broken'], 'step', d['step'])
for s in d['trace']['steps']: print(json.dumps(s))
