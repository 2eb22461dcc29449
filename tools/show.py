import json, sys
for p in sys.argv[1:]:
    e = json.load(open(f'/verif/evidence/{p}.json'))
    c = e['coverage']
    print(p, {k: v for k, v in c.items() if not isinstance(v, (list, dict))}, 'wall', e['wall_s'])
    for h in c.get('harnesses', []):
        print('  ', h)
