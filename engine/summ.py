import json,sys
r=json.load(open(sys.argv[1]))
print(r['entry'],r['status'],r.get('reason'),'exec',r.get('t_exec'),'solver',r.get('solver_s'),'wall',r.get('wall_s'),'covers',r.get('covers'),'loops',len(r.get('loops_cut',[])),'trivial',r.get('trivial'),'backends',r.get('backends'))
if r.get('stack'): print('  stack',r['stack'])
if r.get('trace'): print(r['trace'])
if r.get('tainted'): print('  tainted',r['tainted'][:4])
c={}
for o in r['obligations']:
    c[o['result']]=c.get(o['result'],0)+1
    if o['result']!='unsat' or o['t']>3: print('  ',o['result'],o['kind'],o['name'],'|',o['fn'][:80],o['t'], json.dumps(o.get('model',{}).get('inputs')))
print('  ',c)
