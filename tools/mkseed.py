"""mkseed.py SPEC.py: SPEC defines id, prop, edits=[(file,old,new)], needs, breaks, demo (C++ main source), optional link"""
import sys, os, json, subprocess
V='/verif/seeded/'
g={}
exec(open(sys.argv[1]).read(), g)
def q(*a): return subprocess.run(a, cwd='/repo', capture_output=True, text=True, check=True).stdout
for s in g['SEEDS']:
    assert not q('git','status','--porcelain'), 'dirty'
    try:
        for f, old, new in s['edits']:
            p='/repo/'+f; t=open(p, newline='').read()
            crlf = '\r\n' in t
            if crlf: old=old.replace('\n','\r\n'); new=new.replace('\n','\r\n')
            assert t.count(old)==1, (s['id'], f, t.count(old))
            open(p,'w',newline='').write(t.replace(old,new))
        d=subprocess.run(['git','diff'],cwd='/repo',capture_output=True).stdout
    finally: q('git','checkout','--','.')
    o=V+s['id']; os.makedirs(o, exist_ok=True)
    open(o+'/patch.diff','wb').write(d)
    json.dump({'property':s['prop'],'needs':s['needs'],'what_it_breaks':s['breaks']}, open(o+'/meta.json','w'), indent=1)
    open(o+'/demo.cpp','w').write(s['demo'].lstrip('\n'))
    open(o+'/demo.sh','w').write('''#!/bin/bash
# exit 0: behaviour as specified; nonzero: broken.  Run in /repo after the build.
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
R=$PWD
g++ -std=c++14 -w -O1 -D_LIBCZISTATICLIB %s-I"$R/Src/libCZI" -I"$R/_build/Src/libCZI" "$D/demo.cpp" %s"$R/_build/Src/libCZI/liblibCZIStatic.a" -lzstd -lcurl -lpthread -o "$T/demo" || exit 3
cd "$T" && timeout 200 ./demo
''' % (s.get('cflags','')+(' ' if s.get('cflags') else ''), s.get('objs','')+(' ' if s.get('objs') else '')))
    print('made', s['id'])
