"""mkseed.py SPEC.py: SPEC defines id, prop, needs, breaks, main and edits=[(file, old, new)]; writes /verif/seeded/<id>/"""
import sys, os, json, subprocess, shutil
ns = {}
exec(open(sys.argv[1]).read(), ns)
R = os.environ.get('MUTREPO', '/tmp/w/repo')
sh = lambda *a: subprocess.run(a, check=True, capture_output=True, text=True).stdout
if not os.path.isdir(R):
    sh('cp', '-a', '/repo', R)
for sp in ns['SEEDS']:
    sh('git', '-C', R, 'checkout', '-q', '--', '.')
    subprocess.run(['git', '-C', R, 'fetch', '-q', '/repo', 'HEAD'])
    sh('git', '-C', R, 'reset', '-q', '--hard', 'FETCH_HEAD')
    for f, old, new in sp['edits']:
        s = open(R + '/' + f).read()
        assert s.count(old) == 1, (sp['id'], f, s.count(old))
        open(R + '/' + f, 'w').write(s.replace(old, new))
    d = '/verif/seeded/' + sp['id']
    os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'w').write(sh('git', '-C', R, 'diff'))
    sh('git', '-C', R, 'checkout', '-q', '--', '.')
    shutil.copy('/verif/tools/demo.sh', d + '/demo.sh')
    open(d + '/main.rs', 'w').write(sp['main'])
    json.dump(dict(property=sp['prop'], needs=sp['needs'], what_it_breaks=sp['breaks']), open(d + '/meta.json', 'w'), indent=1)
    print(sp['id'])
