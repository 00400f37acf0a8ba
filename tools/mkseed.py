#!/usr/bin/env python3
# mkseed.py <file of tools/seeds>... : writes /verif/seeded/<id>/ from the definitions in these files
import json, os, subprocess, sys, tempfile, shutil
def seed(id, prop, pkg, edits, test, needs, breaks):
    d = '/verif/seeded/' + id
    os.makedirs(d, exist_ok=True)
    diff = ''
    byfile = {}
    for f, a, b in edits:
        s = byfile.get(f) or open('/repo/' + f).read()
        assert s.count(a) == 1, (id, f, s.count(a), a)
        byfile[f] = s.replace(a, b)
    for f, s in byfile.items():
        with tempfile.NamedTemporaryFile('w', suffix='.go') as t:
            t.write(s); t.flush()
            subprocess.run(['gofmt', '-l', t.name])
            p = subprocess.run(['diff', '-u', '--label', 'a/' + f, '--label', 'b/' + f, '/repo/' + f, t.name], capture_output=True, text=True)
            diff += p.stdout
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.sh', 'w').write(open('/verif/tools/demo.tmpl').read().replace('@PKG@', pkg))
    os.chmod(d + '/demo.sh', 0o755)
    open(d + '/demo_test.go', 'w').write(test.lstrip())
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
    print(id)
for f in sys.argv[1:]:
    exec(open(f).read())
