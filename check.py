#!/usr/bin/env python3
"""check.py PROPERTY: decide one property for the code now in /repo.

Exit 0: the property held on everything explored.  Exit 1: a counterexample was found and reproduced on
the real code; the line VIOLATION names the replay script.  What was covered is written to evidence/.
"""
import os
import sys
import json
import time
import shutil
import tempfile
import atexit
import multiprocessing
import multiprocessing.connection

PY = '/opt/veriftools/pyvenv/bin/python3'
HERE = os.path.dirname(os.path.abspath(__file__))
try:
    import z3
except ImportError:
    os.execv(PY, [PY] + sys.argv)
sys.path.insert(0, os.path.join(HERE, 'engine'))
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True


def main():
    t0 = time.time()
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    import build
    import chk
    import spec
    if os.environ.get('B2_SLOW'):
        exec(open(os.environ['B2_SLOW']).read(), globals())
    import props
    shared = tempfile.mkdtemp(prefix='b2chk.')
    me = os.getpid()

    def clean():
        if os.getpid() == me:
            shutil.rmtree(shared, ignore_errors=True)
    atexit.register(clean)
    nself = spec.selftest()
    p = props.PROPS[prop]
    parts = p['parts'](tier)
    only = os.environ.get('B2_PART')
    if only:
        parts = [x for x in parts if any(o in x[0] for o in only.split(','))]
    progs = {}
    kinds = sorted(set((x[3] if len(x) > 3 else 'std') for x in parts))
    for k in kinds:
        try:
            progs[k] = build.program(std=k != 'nostd', release=k == 'release')
        except build.BuildError as x:
            print('ERROR: %s' % x)
            sys.exit(2)
    tb = time.time() - t0
    limit = float(os.environ.get('B2_LIMIT', 0)) or (600 if tier == 'quick' else 3000)
    rs = chk.run_parts(prop, parts, lambda k: progs[k], shared, seed, tier, limit)
    rs.sort(key=lambda r: r['name'])
    evd = os.environ.get('B2_EVID') or os.path.join(HERE, 'evidence')
    os.makedirs(evd, exist_ok=True)
    vio = []
    for r in rs:
        for what, desc, path in r['vio']:
            dst = os.path.join(evd, os.path.basename(path))
            shutil.copy(path, dst)
            vio.append((what, desc, dst))
    q = dict(queries=0, unsat=0, sat=0, unknown=0, linear=0, cached=0, time=0.0, slowest=0.0)
    funcs = {}
    ind = {}
    bnd = {}
    abst = {}
    for r in rs:
        for k in q:
            q[k] = max(q[k], r['q'][k]) if k == 'slowest' else q[k] + r['q'][k]
        for d, s in ((funcs, r['funcs']), (ind, r['inducted']), (bnd, r['bounded']), (abst, r['abst'])):
            for k, v in s.items():
                d[k] = d.get(k, 0) + v
    obl = [(r['name'] + ': ' + n) for r in rs for n, _ in r['obl']]
    und = [(r['name'] + ': ' + n, w) for r in rs for n, w in r['und']]
    tried = [(r['name'], w, x) for r in rs for w, x in r['tried']]
    traces = sum(r['traces'] for r in rs)
    samples = [s for r in rs for s in r['samples']][:6] or obl[:6]
    q['time'] = round(q['time'], 2)
    q['slowest'] = round(q['slowest'], 2)
    cov = dict(
        states=sum(r['states'] for r in rs),
        transitions=sum(r['ins'] for r in rs),
        traces_validated_against_impl=traces,
        samples=samples,
        states_are='basic blocks executed on symbolic states', transitions_are='LLVM instructions executed symbolically',
        obligations=len(obl) + len(und), discharged=len(obl),
        obligations_discharged=obl, undecided=und, bounds=p['bounds'] + [r['name'] + ': ' + b for r in rs for b in r['bounds']],
        outside=p.get('outside', []), parts=[dict(name=r['name'], wall_s=r['wall'], obligations=len(r['obl']), undecided=len(r['und']), notes=r['notes']) for r in rs],
        functions_encoded=sorted(short(f) for f in funcs), functions_run=sum(funcs.values()),
        loops_by_induction=ind, loops_cut_at_a_bound=bnd, hash_layer=abst, solver=q,
        counterexamples_not_reproduced=tried, spec_selftest_vectors=nself, build_s=round(tb, 2),
        ir_bytes={k: v.ir_bytes for k, v in progs.items()})
    ev = dict(property=prop, tier=tier, seed=seed, level='model_checking', coverage=cov, assumptions=p.get('assumptions', []) + props.COMMON, wall_s=round(time.time() - t0, 2), violations=len(vio))
    with open(os.path.join(evd, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for n, w in und:
        print('UNDECIDED %s (%s)' % (n, w))
    print('%s: %d obligations discharged, %d undecided, %d queries, solver %.1f s, wall %.1f s' % (prop, len(obl), len(und), q['queries'], q['time'], time.time() - t0))
    if vio:
        for what, desc, path in vio[:3]:
            print('violated: %s: %s' % (what, desc))
        print('VIOLATION property=%s replay=%s' % (prop, vio[0][2]))
        sys.exit(1)
    if not obl:
        print('ERROR: nothing could be decided')
        sys.exit(2)
    sys.exit(0)


def short(f):
    """a readable name for a mangled one"""
    import re
    if f.startswith('[F] '):
        return 'F for ' + short(f[4:])
    f = f.lstrip('@').strip('"')
    if not f.startswith('_R'):
        return f
    ids = []
    i = 2
    while i < len(f):
        m = re.match(r'(?:s[0-9A-Za-z]*_)?(\d+)_?', f[i:])
        if m and 0 < int(m.group(1)) < 60 and f[i + m.end():i + m.end() + 1].isalpha():
            n = int(m.group(1))
            w = f[i + m.end():i + m.end() + n]
            if len(w) == n:
                ids.append(w)
                i += m.end() + n
                continue
        i += 1
    return '::'.join(ids) or f


if __name__ == '__main__':
    main()
