"""seed.py: helper to record a planted bug (used from small scripts)."""
import subprocess, json, os
def seed(id, f, old, new, meta, defs="", libs="", more=()):
    for ff, o, n in [(f, old, new)] + list(more):
        R = os.environ.get('VERIF_REPO', '/repo'); p = R + '/' + ff; s = open(p, encoding='latin-1').read(); assert s.count(o) >= 1, (id, s.count(o))
        if s.count(o) != 1: print(id, "ambiguous", s.count(o))
        open(p, 'w', encoding='latin-1').write(s.replace(o, n, 1))
    d = subprocess.run(['git', '-C', os.environ.get('VERIF_REPO', '/repo'), 'diff'], stdout=subprocess.PIPE).stdout
    subprocess.run(['git', '-C', os.environ.get('VERIF_REPO', '/repo'), 'checkout', '-q', '--', '.'])
    os.makedirs('/verif/seeded/' + id, exist_ok=True)
    open('/verif/seeded/%s/patch.diff' % id, 'wb').write(d)
    if libs is not None:
        t = open('/verif/tools/demo.sh.tmpl').read().replace('$DEFS', defs).replace('$LIBS', libs)
        open('/verif/seeded/%s/demo.sh' % id, 'w').write(t)
    if os.path.exists('/verif/seeded/%s/demo.sh' % id): os.chmod('/verif/seeded/%s/demo.sh' % id, 0o755)
    json.dump(meta, open('/verif/seeded/%s/meta.json' % id, 'w'), indent=1)
