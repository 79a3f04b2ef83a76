import json,sys
for p in sys.argv[1:]:
    d=json.load(open(f'/verif/evidence/{p}.json'))
    print(p,d['wall_s'],d['coverage'].get('categories'))
    for s in sorted(d['coverage']['spaces'],key=lambda s:-s['wall_s'])[:9]: print('  ',s['wall_s'],s['indices'],s['space'][:150])
