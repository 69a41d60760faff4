"""Command line: decide one property on the current tree of /repo.

    python3 -m absint.check <PROPERTY> [--tier quick|thorough] [--repo DIR]

exit 0: held on everything analysed, 1: violation, 2: the analysis could not
be carried out at all (the headers do not compile with the harness, an entry
point disappeared, nothing was decided)."""
import argparse
import importlib
import json
import multiprocessing
import os
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLANG = '/usr/bin/clang++-18'

FAMILIES = {}


def family(prop):
    if prop in ('M05', 'B08'):
        return 'witness'
    if prop == 'M08':
        return 'mapfind'
    for pre, mod in (('C', 'queues_jobs'), ('W', 'work'), ('S', 'stackbuf'), ('R', 'circ'), ('B', 'blocks')):
        if prop.startswith(pre):
            return mod
    return 'mapped'


def tool():
    """path of the IR reader, built when missing or older than its source"""
    src = os.path.join(ROOT, 'irdump', 'irdump.cpp')
    out = os.path.join(ROOT, 'build', 'irdump')
    if os.path.exists(out) and os.path.getmtime(out) >= os.path.getmtime(src):
        return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    cfg = lambda *a: subprocess.check_output(['llvm-config-18'] + list(a), text=True).split()
    flags = [f for f in cfg('--cxxflags') if not f.startswith('-std=')]
    tmp = out + '.%d' % os.getpid()
    subprocess.check_call([CLANG, '-O1', '-std=c++17'] + flags + [src, '-o', tmp] + cfg('--ldflags') + ['-lLLVM-18'])
    os.rename(tmp, out)
    return out


class Broken(Exception):
    pass


def load_program(name, repo, scratch, defs=()):
    """compile a harness with the headers of the working tree and read the IR"""
    ll = os.path.join(scratch, name + '.ll')
    src = os.path.join(ROOT, 'harness', name + '.cpp')
    cmd = [CLANG, '-std=c++17', '-O0', '-Xclang', '-disable-O0-optnone', '-g', '-fno-discard-value-names', '-S', '-emit-llvm',
           '-I' + repo, '-I' + os.path.join(ROOT, 'harness')] + ['-D' + d for d in defs] + [src, '-o', ll]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise Broken('the harness does not compile with the headers of %s:\n%s' % (repo, r.stderr[:3000]))
    r = subprocess.run([tool(), ll], capture_output=True)
    if r.returncode:
        raise Broken('reading the IR failed: ' + r.stderr.decode()[:1000])
    from .engine import Program
    return Program(json.loads(r.stdout))


class Result:
    """what one job contributes; plain data"""

    def __init__(self, name):
        self.name = name
        self.findings = []
        self.undecided = []
        self.unconfirmed = []
        self.stats = {}
        self.done = 0
        self.functions = set()
        self.obligations = {}
        self.extra = {}
        self.samples = []

    def engine(self, e, done=0):
        for k, f in e.findings.items():
            self.findings.append(dict(property=f.prop, rule=f.rule, message=f.msg, where=f.where, entry=f.entry, path=f.trace,
                                      stack=f.stack, witness=dict(list(f.witness.items())[:12])))
        for (entry, why, where), n in e.undecided.items():
            self.undecided.append(dict(entry=entry, why=why, where=where, paths=n))
        for (prop, rule, where), (msg, why, entry) in e.unconfirmed.items():
            self.unconfirmed.append(dict(property=prop, rule=rule, where=where, message=msg, why=why, entry=entry))
        for k, v in e.stats.items():
            self.stats[k] = self.stats.get(k, 0) + v
        for s in e.functions:
            f = e.p.fns[s]
            if 'gmlc/containers' in f.get('file', ''):
                from .engine import short
                self.functions.add(short(f))
        self.done += done
        for k, n in getattr(e, 'obl', {}).items():
            self.obligations[k] = self.obligations.get(k, 0) + n


_jobs = None


def _run(i):
    name, fn = _jobs[i]
    r = Result(name)
    t = time.time()
    try:
        fn(r)
    except Exception as x:
        if isinstance(x, KeyError) and 'vanished' in str(x):
            r.extra['broken'] = 'job %s: %s' % (name, x)
            r.extra['tb'] = traceback.format_exc()
            return r
        r.undecided.append(dict(entry=name, why='analysis error %s: %s' % (type(x).__name__, x), where=traceback.format_exc().splitlines()[-3].strip() if traceback.format_exc().splitlines()[-3:] else '', paths=1))
        r.extra['tb'] = traceback.format_exc()
    r.stats['wall'] = time.time() - t
    return r


def run_jobs(jobs, procs=8):
    global _jobs
    _jobs = jobs
    if procs <= 1 or len(jobs) <= 1:
        return [_run(i) for i in range(len(jobs))]
    ctx = multiprocessing.get_context('fork')
    with ctx.Pool(min(procs, len(jobs))) as p:
        return list(p.imap_unordered(_run, range(len(jobs)), chunksize=1))


def func(where):
    """function part of a location, stable under line shifts"""
    i = where.rfind(' in ')
    return where[i + 4:] if i >= 0 else where


def known():
    p = os.path.join(ROOT, 'known-findings.json')
    if not os.path.exists(p):
        return []
    return json.load(open(p)).get('findings', [])


def main():
    sys.setrecursionlimit(20000)
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--repo', default='/repo')
    ap.add_argument('--procs', type=int, default=8)
    ap.add_argument('--evidence', default=None)
    ap.add_argument('--all', action='store_true', help='report every property of the family')
    a = ap.parse_args()
    t0 = time.time()
    prop = a.property
    from . import engine
    engine.DEADLINE[0] = t0 + float(os.environ.get('VP_BUDGET', '600'))
    mod = importlib.import_module('absint.' + family(prop))
    os.makedirs(os.path.join(ROOT, 'build'), exist_ok=True)
    scratch = tempfile.mkdtemp(prefix='run-', dir=os.path.join(ROOT, 'build'))
    try:
        prog = {h: load_program(h, a.repo, scratch) for h in mod.HARNESS}
        ctx = dict(prog=prog, tier=a.tier, repo=a.repo, scratch=scratch, prop=None if a.all else prop)
        jobs = mod.jobs(ctx)
        results = run_jobs(jobs, a.procs)
        post = getattr(mod, 'combine', None)
        extra = post(ctx, results) if post else []
    except Broken as x:
        print('BROKEN: %s' % x)
        return 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    broken = [r.extra['broken'] for r in results if 'broken' in r.extra]
    if broken:
        for b in broken[:5]:
            print('BROKEN: ' + b)
        return 2
    finds = {}
    for r in results:
        for f in r.findings:
            k = (f['property'], f['rule'], func(f['where']))
            finds.setdefault(k, f)
    for f in extra:
        finds.setdefault((f['property'], f['rule'], func(f['where'])), f)
    if a.all:
        for k, f in sorted(finds.items(), key=str):
            print('%s %s: %s\n    at %s, entry %s' % (f['property'], f['rule'], f['message'], f['where'], f['entry']))
            for t in f['path'][-8:]:
                print('        ' + t)
        und = [u for r in results for u in r.undecided]
        unc = [u for r in results for u in r.unconfirmed]
        for u in und[:20]:
            print('UNDECIDED', u)
        for r in results:
            if 'tb' in r.extra:
                print(r.extra['tb'])
        for u in unc[:20]:
            print('UNCONFIRMED', u)
        print('%d jobs, %d paths, %d done, %d findings, %d undecided, %d unconfirmed, %.1fs' % (len(results), sum(r.stats.get('paths', 0) for r in results), sum(r.done for r in results), len(finds), len(und), len(unc), time.time() - t0))
        slow = sorted(results, key=lambda r: -r.stats['wall'])[:5]
        print('slowest:', ', '.join('%s %.1fs' % (r.name, r.stats['wall']) for r in slow))
        return 0
    mine = {k: f for k, f in finds.items() if k[0] == prop}
    kn = known()
    nviol = 0
    kfs = 0
    evdir = os.path.join(ROOT, 'evidence')
    os.makedirs(os.path.join(evdir, 'replay'), exist_ok=True)
    for n, (k, f) in enumerate(sorted(mine.items(), key=str)):
        hit = None
        for e in kn:
            if e['property'] == prop and e['rule'] == f['rule'] and e['function'] == func(f['where']):
                hit = e
        if hit:
            kfs += 1
            print('KNOWN-FINDING: property=%s %s' % (prop, hit['what']))
            continue
        nviol += 1
        rp = os.path.join(evdir, 'replay', '%s-%d.json' % (prop, n))
        json.dump(f, open(rp, 'w'), indent=1, default=str)
        print('%s: %s: %s' % (f['where'], f['rule'], f['message']))
        print('   analysing %s, along the path' % f['entry'])
        for t in f['path'][-12:]:
            print('     ' + t)
        print('VIOLATION property=%s replay=%s' % (prop, rp))
    und = [u for r in results for u in r.undecided]
    unc = [u for r in results for u in r.unconfirmed if u['property'] == prop]
    for u in und[:10]:
        print('UNDECIDED: %(entry)s: %(why)s at %(where)s (%(paths)d paths)' % u)
    stats = {}
    fns = set()
    obl = {}
    done = 0
    for r in results:
        for k, v in r.stats.items():
            stats[k] = stats.get(k, 0) + v
        fns |= r.functions
        done += r.done
        for k, v in r.obligations.items():
            obl[k] = obl.get(k, 0) + v
    total = len(results)
    undj = set(u['entry'] for u in und)
    cov = dict(
        explanation=mod.EXPLAIN.get(prop) or mod.EXPLAIN['*'],
        rule=mod.RULES.get(prop) or mod.RULES.get('*', ''),
        entry_points=sorted(r.name for r in results),
        obligations=done + len(und) + len(mine),
        discharged=done,
        functions=sorted(fns),
        abstract_paths=stats.get('paths', 0),
        instructions_interpreted=stats.get('steps', 0),
        call_sites_entered=stats.get('calls', 0),
        loop_heads=stats.get('heads', 0),
        states_subsumed=stats.get('joined', 0),
        undecided=und[:50],
        unconfirmed=unc[:20],
        known_findings=kfs,
        samples=[dict(entry=r.name, paths_decided=r.done, functions=sorted(r.functions)[:6]) for r in sorted(results, key=lambda r: r.name)[:8]],
    )
    for r in results:
        for k, v in r.extra.items():
            if k.startswith('ev_'):
                cov.setdefault(k[3:], []).append(v)
    if obl:
        cov['rule_instances'] = obl
    ev = dict(property=prop, tier=a.tier if a.tier in ('quick', 'thorough') else 'quick', seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='other',
              coverage=cov, assumptions=mod.ASSUME, wall_s=round(time.time() - t0, 2), violations=nviol)
    json.dump(ev, open(a.evidence or os.path.join(evdir, prop + '.json'), 'w'), indent=1, default=str)
    print('%s: %d entry points, %d abstract paths, %d decided, %d undecided, %d violations, %.1fs' % (prop, total, stats.get('paths', 0), done, len(und), nviol, time.time() - t0))
    if nviol:
        return 1
    if done == 0 and not und:
        print('BROKEN: nothing was analysed')
        return 2
    if done == 0:
        print('UNDECIDED: the representation of the class is not understood, nothing was decided about it')
    return 0


if __name__ == '__main__':
    sys.exit(main())
