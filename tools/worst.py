import json,sys,glob
for f in sorted(glob.glob('/verif/evidence/*.json')):
    e=json.load(open(f)); c=e['coverage']
    print(e['property'],e['tier'],e['wall_s'],c['evaluations'],c['distinct_nontrivial'],{k:v['trivial'] for k,v in c['families'].items() if v['trivial']},list(c['worst_error_over_tolerance'].items())[:4])
    print('     ',c['monitor_events'])
