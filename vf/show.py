"""python3 vf/show.py ID [n] -- the recorded violations of the last run, short."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
v = json.load(open(os.path.join(ROOT, 'evidence', 'replay_%s.json' % sys.argv[1])))['violations']
print(len(v), 'violations')
W = int(sys.argv[3]) if len(sys.argv) > 3 else 900
for x in v[:int(sys.argv[2]) if len(sys.argv) > 2 else 4]:
    print('-' * 60)
    if x.get('rejected_step'):
        print('before  ', json.dumps(x['state_before'])[:W])
        print('call    ', json.dumps(x['rejected_step']['c'])[:W])
        print('result  ', json.dumps(x['rejected_step']['r'])[:W])
        print('after   ', json.dumps(x['rejected_step']['s'])[:W])
    else:
        print(json.dumps({k: v for k, v in x.items() if k != 'session'})[:3000])
