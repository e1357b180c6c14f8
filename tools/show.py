import json,sys
for f in sys.argv[1:]:
    d=json.load(open(f)); c=d['case']; print(d['message'])
    if isinstance(c,dict):
        print({k:v for k,v in c.items() if k!='ops'}); [print('  ',json.dumps(o)) for o in c.get('ops',[])]
    else: print(c)
