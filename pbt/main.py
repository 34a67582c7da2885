"""Command line entry: decides one property and writes its evidence file."""
import argparse
import faulthandler
import importlib
import json
import os
import signal
import subprocess
import sys
import tempfile
import time
import uuid
import zlib

from pbt import boot
from pbt.core import REPO, HarnessError, canon, execute, search

HERE = boot.HERE


def load(prop):
    boot.ensure_hypothesis()
    import openmdao
    path = os.path.abspath(openmdao.__file__)
    if not path.startswith(os.path.join(REPO, 'openmdao')):
        raise HarnessError('openmdao comes from %s, not %s' % (path, REPO))
    return importlib.import_module('pbt.props.%s' % prop.lower())


def shard_seed(seed, facet_name, shard):
    return zlib.crc32(('%d/%s/%d' % (seed, facet_name, shard)).encode())


def run_shard(args):
    faulthandler.register(signal.SIGUSR1, all_threads=True)
    mod = load(args.prop)
    out = dict(results=[], error=None)
    try:
        for facet in mod.FACETS:
            if args.facet and facet.name != args.facet:
                continue
            total = facet.quick if args.tier == 'quick' else facet.thorough
            if args.n:
                total = args.n
            n = total // args.shards + (1 if args.shard < total % args.shards else 0)
            if n == 0:
                continue
            t0 = time.time()
            res = search(facet, n, shard_seed(args.seed, facet.name, args.shard), args.deadline)
            res['wall'] = time.time() - t0
            out['results'].append(res)
            if res['failure']:
                break
    except HarnessError as err:
        out['error'] = str(err)
    with open(args.out, 'w') as f:
        json.dump(out, f)


def known_findings(prop):
    path = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [e for e in json.load(f)['findings'] if e['property'] == prop]


def facet_by_name(mod, name):
    for f in mod.FACETS:
        if f.name == name:
            return f
    raise HarnessError('no facet %s' % name)


def sweep(token):
    """Ends what stopped shards may have left running."""
    mark = ('PBT_RUN=' + token).encode()
    for pid in os.listdir('/proc'):
        if pid.isdigit() and int(pid) != os.getpid():
            try:
                with open('/proc/%s/environ' % pid, 'rb') as f:
                    if mark in f.read():
                        os.kill(int(pid), signal.SIGKILL)
            except OSError:
                pass


def save_replay(prop, facet, spec, message, seed):
    d = os.path.join(HERE, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%s-%08x.json' % (prop, facet, zlib.crc32(canon(spec).encode())))
    with open(path, 'w') as f:
        json.dump(dict(property=prop, facet=facet, spec=spec, message=message, seed=seed,
                       how='./run_check.sh %s --replay %s' % (prop, path)), f, indent=1)
    return path


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--facet')
    ap.add_argument('--n', type=int, default=0)
    ap.add_argument('--shard', type=int, default=-1)
    ap.add_argument('--shards', type=int, default=int(os.environ.get('VERIF_SHARDS', '6')))
    ap.add_argument('--deadline', type=float, default=0)
    ap.add_argument('--out')
    ap.add_argument('--labels', action='store_true')
    args = ap.parse_args()
    if args.tier not in ('quick', 'thorough'):
        args.tier = 'quick'
    if args.shard >= 0:
        return run_shard(args) or 0

    t0 = time.time()
    try:
        mod = load(args.prop)
        if args.replay:
            return replay(mod, args)
        return decide(mod, args, t0)
    except HarnessError as err:
        print('HARNESS ERROR: %s' % err)
        return 2


def replay(mod, args):
    with open(args.replay) as f:
        rec = json.load(f)
    log, failure = execute(facet_by_name(mod, rec['facet']), rec['spec'])
    print('labels: %s' % log.labels)
    if failure:
        print(failure)
        print('VIOLATION property=%s replay=%s' % (args.prop, args.replay))
        return 1
    print('case passes')
    return 0


def decide(mod, args, t0):
    prop = args.prop
    budget = 420 if args.tier == 'quick' else 3 * 3600
    deadline = t0 + budget
    violations = []
    n_eval = n_regress = n_known = 0
    rdir = os.path.join(HERE, 'regress', prop)

    # (1) listed known findings: re-demonstrated, reported, and not counted
    for e in known_findings(prop):
        if e.get('status') == 'fixed':
            continue
        n_known += 1
        log, failure = execute(facet_by_name(mod, e['facet']), e['spec'])
        if failure:
            print('KNOWN-FINDING: property=%s %s' % (prop, e['what']))

    # (2) saved minimal inputs (repaired defects, bugs planted earlier)
    if os.path.isdir(rdir) and not args.facet:
        for name in sorted(os.listdir(rdir)):
            with open(os.path.join(rdir, name)) as f:
                rec = json.load(f)
            n_regress += 1
            log, failure = execute(facet_by_name(mod, rec['facet']), rec['spec'])
            if failure:
                violations.append((rec['facet'], rec['spec'], failure, None))
                break

    # (3) generated search, sharded over processes
    results = []
    if not violations:
        with tempfile.TemporaryDirectory(prefix='pbtshards-') as tmp:
            procs = []
            token = uuid.uuid4().hex
            for i in range(args.shards):
                out = os.path.join(tmp, '%d.json' % i)
                sdir = os.path.join(tmp, 'w%d' % i)
                os.mkdir(sdir)
                cmd = [sys.executable, '-W', 'ignore', '-m', 'pbt.main', prop, '--tier', args.tier,
                       '--seed', str(args.seed), '--shard', str(i), '--shards', str(args.shards),
                       '--deadline', repr(deadline), '--out', out, '--n', str(args.n)]
                if args.facet:
                    cmd += ['--facet', args.facet]
                env = dict(os.environ, TMPDIR=sdir, PBT_RUN=token)
                log = open(os.path.join(tmp, '%d.log' % i), 'w')
                procs.append((subprocess.Popen(cmd, cwd=sdir, env=env, stdout=log, stderr=log,
                                               stdin=subprocess.DEVNULL), out, log.name))
            pending = dict(enumerate(procs))
            failed = False
            limit = deadline + 300
            while pending:
                for i, (p, out, logname) in list(pending.items()):
                    if p.poll() is None:
                        continue
                    del pending[i]
                    if not os.path.exists(out):
                        with open(logname) as f:
                            tail = f.read()[-2000:]
                        for q, _, _ in pending.values():
                            q.kill()
                            q.wait()
                        raise HarnessError('shard %d ended with %s: %s' % (i, p.returncode, tail))
                    with open(out) as f:
                        data = json.load(f)
                    if data['error']:
                        for q, _, _ in pending.values():
                            q.kill()
                            q.wait()
                        raise HarnessError(data['error'])
                    results.extend(data['results'])
                    if any(r['failure'] for r in data['results']):
                        failed = True
                if failed or time.time() > limit:
                    where = ''
                    if not failed:
                        for q, _, _ in pending.values():
                            q.send_signal(signal.SIGUSR1)      # tells where it is
                        time.sleep(1)
                        for _, _, logname in pending.values():
                            with open(logname) as f:
                                where += f.read()[-3000:]
                    for q, _, _ in pending.values():
                        q.kill()
                        q.wait()
                    if not failed and pending:
                        raise HarnessError('shards still running at the hard limit: ' + where)
                    break
                time.sleep(0.05)
            sweep(token)
        for r in results:
            if r['failure']:
                violations.append((r['facet'], r['failure']['spec'], r['failure']['message'],
                                   r['seed']))

    # evidence
    distinct = set()
    labels = {}
    per_facet = {}
    samples = []
    inconclusive = 0
    for r in results:
        n_eval += r['evaluations']
        inconclusive += r['inconclusive']
        distinct.update(r['facet'] + ':' + h for h in r['distinct'])
        pf = per_facet.setdefault(r['facet'], dict(evaluations=0, nontrivial=0, cpu_s=0.0, classes={}))
        pf['evaluations'] += r['evaluations']
        pf['nontrivial'] += len(r['distinct'])
        pf['cpu_s'] = round(pf['cpu_s'] + r['wall'], 2)
        for k, v in r['labels'].items():
            pf['classes'][k] = pf['classes'].get(k, 0) + v
        if r['samples'] and not any(s['facet'] == r['facet'] for s in samples):
            samples.append(dict(facet=r['facet'], case=r['samples'][-1]))
    for f in mod.FACETS:
        if f.name in per_facet:
            per_facet[f.name]['rule'] = f.rule
    n_eval += n_regress + n_known
    evidence = dict(
        property=prop, tier=args.tier, seed=args.seed, level='exploration',
        coverage=dict(evaluations=n_eval, distinct_nontrivial=len(distinct),
                      rule=' | '.join('%s: %s' % (f.name, f.rule) for f in mod.FACETS),
                      samples=samples, facets=per_facet,
                      replayed_regressions=n_regress, known_findings_replayed=n_known,
                      skipped_for_time=inconclusive),
        assumptions=getattr(mod, 'ASSUMPTIONS', []),
        wall_s=round(time.time() - t0, 2), violations=len(violations))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1)

    for name, pf in per_facet.items():
        print('%s/%s: %d cases, %d distinct non-trivial, %.1f s' %
              (prop, name, pf['evaluations'], pf['nontrivial'], pf['cpu_s']))
        if args.labels:
            for k, v in sorted(pf['classes'].items(), key=lambda kv: -kv[1]):
                print('      %6d %s' % (v, k))
    for facet, spec, message, seed in violations[:5]:
        path = save_replay(prop, facet, spec, message, seed)
        print('%s/%s: %s' % (prop, facet, message))
        print('VIOLATION property=%s replay=%s' % (prop, path))
    print('%s %s wall=%.1fs' % (prop, 'VIOLATED' if violations else 'held', time.time() - t0))
    return 1 if violations else 0


if __name__ == '__main__':
    sys.stdout.reconfigure(line_buffering=True)
    code = main()
    sys.stdout.flush()
    sys.exit(code)
