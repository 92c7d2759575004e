"""prints the table of planted bugs (DESIGN.md section 6) from seeded/*/meta.json and tools/caught.json"""
import os, json
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = json.load(open(H + '/tools/caught.json'))
print('| planted bug | property | what it breaks | caught by |\n|---|---|---|---|')
for d in sorted(os.listdir(H + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (H, d)))
    print('| %s | %s | %s | %s |' % (d, m['property'], m['what_it_breaks'].replace('|', '/').replace('\n', ' '), C.get(d.split('-')[0], '?')))
