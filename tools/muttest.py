"""muttest.py FILE.py [filter]: MUTS = [(name, prop, expect 'V'|'Q', [(file, old, new)...])]; applies each to /tmp/w/repo and runs the property's check"""
import sys, subprocess, os
R = os.environ.get('MUTREPO', '/tmp/w/repo')
ns = {}
exec(open(sys.argv[1]).read(), ns)
flt = sys.argv[2] if len(sys.argv) > 2 else ''
sh = lambda *a: subprocess.run(a, check=True, capture_output=True, text=True).stdout
subprocess.run(['git', '-C', R, 'checkout', '-q', '--', '.'])
subprocess.run(['git', '-C', R, 'fetch', '-q', '/repo', 'HEAD'])
sh('git', '-C', R, 'reset', '-q', '--hard', 'FETCH_HEAD')
bad = 0
for name, props, exp, edits in ns['MUTS']:
    if flt and flt not in name:
        continue
    files = set()
    okk = True
    for f, old, new in edits:
        s = open(R + '/' + f).read()
        if s.count(old) < 1:
            print(name, 'NO MATCH in', f, s.count(old))
            okk = False
            break
        files.add(f)
        open(R + '/' + f, 'w').write(s.replace(old, new, 1))
    if okk:
        for prop in props.split():
            p = subprocess.run(['python3', '/verif/sa/check.py', prop], env=dict(os.environ, CFG_REPO=R, SAV='1'), capture_output=True, text=True)
            v = 'VIOLATION' in p.stdout
            if p.returncode not in (0, 1) or (p.returncode == 1 and not v):
                r = 'ERR ' + (p.stderr + p.stdout)[-300:]
            else:
                r = 'V' if v else 'Q'
            flag = '' if r == exp else '   <<<<<<'
            if flag:
                bad += 1
            first = [l for l in p.stdout.split('\n') if l.strip()][:1] or ['']
            print('%-22s %s want %s got %s%s  %s' % (name, prop, exp, r, flag, (first[0][:150] if flag or v else next((l for l in p.stdout.split('\n') if 'obligations,' in l), '')[:80])))
            if flag:
                for l in [l for l in p.stdout.split('\n') if l.startswith('    ')][:4]:
                    print('      ', l[:int(os.environ.get('W', '400'))])
    sh('git', '-C', R, 'checkout', '-q', '--', '.')
print('mismatches', bad)
