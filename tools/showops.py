import json, sys
n = int(sys.argv[2]) if len(sys.argv) > 2 else 1
for v in json.load(open(f'/verif/evidence/replay/{sys.argv[1]}-seed1-quick.json'))[:n]:
    c = v['case']
    print(v['part'], v['index'], v['message'][:900]); print("\n".join(str(o)[:330] for o in c.get('ops', [])[-14:])); print({k: x for k, x in c.items() if k != 'ops'}, v['log'][-6:])
    w = v['witness']
    if w: print(str(w.get('traceback', w))[-1800:])
