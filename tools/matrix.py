"""Development tool, not a check: run checks against the planted bugs in scratch
copies of /repo and rewrite the table at the end of DESIGN.md.

usage: matrix.py run [BUG ...] [--checks C01,C02|all]     (default: the bug's own property)
       matrix.py table
"""
import glob, json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STORE = os.path.join(here, 'tools', 'caught.json')
# missed when planted, caught after the check was strengthened
AFTER = set(open(os.path.join(here, 'tools', 'after.txt')).read().split())


def load():
    return json.load(open(STORE)) if os.path.exists(STORE) else {}


def run(bug, checks):
    tmp = tempfile.mkdtemp(prefix='matrix-')
    try:
        shutil.copytree('/repo', tmp + '/r')
        subprocess.run(['git', 'apply', here + '/seeded/' + bug + '/patch.diff'], cwd=tmp + '/r', check=True)
        res = {}
        for c in checks:
            r = subprocess.run(['bash', here + '/run.sh', c], env=dict(os.environ, QOSY_REPO=tmp + '/r', VERIF_EVIDENCE=tmp + '/ev'),
                               capture_output=True, text=True)
            res[c] = r.returncode
        return bug, res
    except Exception as e:
        return bug, {'error': str(e)}
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    args = sys.argv[1:]
    store = load()
    if args[0] == 'run':
        sel = None
        if '--checks' in args:
            i = args.index('--checks')
            sel = args[i + 1]
            del args[i:i + 2]
        bugs = args[1:] or sorted(os.path.basename(d.rstrip('/')) for d in glob.glob(here + '/seeded/*/'))
        jobs = []
        for b in bugs:
            own = json.load(open(here + '/seeded/' + b + '/meta.json'))['property']
            cs = [own] if sel is None else ['C%02d' % i for i in range(1, 27)] if sel == 'all' else sel.split(',')
            jobs.append((b, cs))
        with ThreadPoolExecutor(3) as ex:
            for b, res in ex.map(lambda j: run(*j), jobs):
                store.setdefault(b, {}).update(res)
                own = json.load(open(here + '/seeded/' + b + '/meta.json'))['property']
                print(b, own, 'CAUGHT' if store[b].get(own) == 1 else 'MISSED', {k: v for k, v in res.items() if v}, flush=True)
                json.dump(store, open(STORE, 'w'), indent=0, sort_keys=True)
    rows = ['| bug | property | what it breaks / needs | reported by |', '|--|--|--|--|']
    for d in sorted(glob.glob(here + '/seeded/*/')):
        b = os.path.basename(d.rstrip('/'))
        m = json.load(open(d + 'meta.json'))
        hit = [c for c, v in sorted(store.get(b, {}).items()) if v == 1]
        if m['property'] in hit:
            hit.remove(m['property'])
            hit.insert(0, '**' + m['property'] + '**')
        rows.append('| {} | {} | {}; needs {} | {}{} |'.format(b, m['property'], m['what_it_breaks'].rstrip('.'), m['needs'].rstrip('.'),
                                                              ' '.join(hit) or 'MISSED', ' *(after)*' if b in AFTER else ''))
    p = here + '/DESIGN.md'
    s = open(p).read().split('<!-- table -->')[0]
    open(p, 'w').write(s + '<!-- table -->\n' + '\n'.join(rows) + '\n')


if __name__ == '__main__':
    main()
