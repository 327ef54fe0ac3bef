import json, sys, glob
for v in json.load(open(sys.argv[1]))[: int(sys.argv[2]) if len(sys.argv) > 2 else 1]:
    print(v['part'], v['index'], v['message'][:1500]); print(json.dumps(v['case'], indent=1)[:2500])
    if v['key']: print('KEY', v['key'])
    w = v['witness']; print(w.get('traceback', w) if w else '')
    print(v['log'][-12:])
