#!/usr/bin/env python3
"""check.py <property> [--replay FILE]

Rebuilds what the property needs from /repo's working tree, runs its monitored
workload in parallel shards, writes evidence/<property>.json. Exit 0: held on
everything explored. Exit 1 and a VIOLATION line: broken. Exit 2: no verdict.
"""
import concurrent.futures as cf
import hashlib, json, os, re, signal, struct, subprocess, sys, tempfile, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild
from props import PROPS

VERIF = vbuild.VERIF
ENV = dict(os.environ)
ENV['ASAN_OPTIONS'] = 'detect_leaks=1:abort_on_error=0:exitcode=77:allocator_may_return_null=0:detect_stack_use_after_return=1:max_allocation_size_mb=6000'
ENV['UBSAN_OPTIONS'] = 'print_stacktrace=1:exitcode=77'
ENV['TSAN_OPTIONS'] = 'exitcode=66:halt_on_error=1:second_deadlock_stack=1'
ENV['LSAN_OPTIONS'] = 'exitcode=78'
SHARD_TIMEOUT = 420
CASE_TIMEOUT = 100


def load_known():
    ks = []
    p = os.path.join(VERIF, 'known_findings.jsonl')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l:
                ks.append(json.loads(l))
    return ks


def progress(path):
    try:
        with open(path, 'rb') as f:
            b = f.read(16)
        return struct.unpack('<QQ', b.ljust(16, b'\0'))
    except OSError:
        return 0, 0


class Runner:
    def __init__(self, pid, exe, seed, thorough, td):
        self.pid, self.exe, self.seed, self.thorough, self.td = pid, exe, seed, thorough, td

    def cmd(self, frm, to, stride, out, prog, extra=()):
        c = [self.exe, '--property', self.pid, '--seed', str(self.seed), '--from', str(frm), '--to', str(to), '--stride', str(stride), '--out', out, '--progress', prog]
        if self.thorough:
            c += ['--thorough', '1']
        return c + list(extra)

    def shard(self, j, n, to, budget):
        """Runs cases j, j+n, ...; restarts after a case that killed the process."""
        res = {'evaluations': 0, 'skipped': 0, 'nontrivial': 0, 'counters': {}, 'samples': [], 'violations': [], 'sigs': set(), 'odd': []}
        frm, deaths, t0 = j, 0, time.time()
        while frm < to:
            out, prog = os.path.join(self.td, f'o{j}.{deaths}'), os.path.join(self.td, f'p{j}.{deaths}')
            left = max(5, budget - (time.time() - t0)) if budget else None
            extra = ['--budget', str(left)] if left else []
            try:
                p = subprocess.run(self.cmd(frm, to, n, out, prog, extra), capture_output=True, timeout=(left or 0) + SHARD_TIMEOUT, env=ENV, cwd=self.td)
                rc, err, timed = p.returncode, p.stderr.decode(errors='replace') + p.stdout.decode(errors='replace')[:2000], False
            except subprocess.TimeoutExpired as e:
                rc, err, timed = None, (e.stderr or b'').decode(errors='replace'), True
            if os.path.exists(out) and rc is not None:
                d = json.load(open(out))
                for k in ('evaluations', 'skipped', 'nontrivial'):
                    res[k] += d[k]
                for k, v in d['counters'].items():
                    res['counters'][k] = res['counters'].get(k, 0) + v
                res['samples'] += d['samples']
                res['violations'] += d['violations']
                res['sigs'].update(d['sigs'])
                if rc == 78 or 'LeakSanitizer' in err:
                    res['violations'].append({'idx': j, 'key': 'leak', 'msg': err[-3000:], 'case': f'shard {j} of {n}', 'shard': [frm, to, n]})
                elif rc not in (0, 1):
                    res['odd'].append(f'exit {rc}: {err[-1500:]}')
                return res
            idx, done = progress(prog)
            if not idx:
                res['odd'].append(f'harness died before any case: rc={rc} {err[-1500:]}')
                return res
            case = idx - 1
            # How many of the cases before it ran is not in a summary: count them.
            res['evaluations'] += (case - frm) // n + 1
            res['violations'].append(self.confirm(case, frm, n, err, timed, rc))
            if res['violations'][-1] is None:
                res['violations'].pop()
            deaths += 1
            if deaths > 12:
                return res
            frm = case + n
        return res

    def confirm(self, case, frm, n, err, timed, rc):
        """Runs one case again, alone."""
        out, prog = os.path.join(self.td, f'c{case}'), os.path.join(self.td, f'cp{case}')
        try:
            p = subprocess.run(self.cmd(case, case + 1, 1, out, prog), capture_output=True, timeout=CASE_TIMEOUT * (4 if self.thorough else 1), env=ENV, cwd=self.td)
            e2 = p.stderr.decode(errors='replace')
            if p.returncode == 0 and timed:
                return None  # slow machine
            if p.returncode == 0:
                if rc is not None and rc < 0 and -rc == signal.SIGKILL:
                    return None  # ended from outside (memory watchdog)
                # Depends on earlier cases of the shard; the report of the shard stands.
                return {'idx': case, 'key': 'crash:' + crash_key(err), 'msg': err[-4000:], 'case': f'after cases {frm}..{case} step {n}', 'shard': [frm, case + 1, n]}
            if p.returncode == 1 and os.path.exists(out):
                d = json.load(open(out))
                if d['violations']:
                    return d['violations'][0]
            return {'idx': case, 'key': 'crash:' + crash_key(e2), 'msg': e2[:2500] + e2[-1500:], 'case': f'case {case}'}
        except subprocess.TimeoutExpired:
            return {'idx': case, 'key': 'hang', 'msg': f'case {case} alone did not end within {CASE_TIMEOUT} s', 'case': f'case {case}'}


def crash_key(err):
    m = re.search(r'SUMMARY: (\w+): ([\w-]+)(?: (\S+))?', err)
    if m:
        f = re.search(r'in (ink::[\w:]+)', err)
        return f'{m.group(2)}:{f.group(1) if f else ""}'
    m = re.search(r'runtime error: (.{0,80})', err)
    return m.group(1) if m else 'died'


def main():
    t0 = time.time()
    args = sys.argv[1:]
    pid = args[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    spec = PROPS[pid]
    thorough = tier == 'thorough'
    replay = args[args.index('--replay') + 1] if '--replay' in args else None
    try:
        exe, st = vbuild.build(spec['harness'], spec.get('flavor', 'asan'))
    except vbuild.BuildError as e:
        print(f'{pid}: cannot build the harness against /repo:\n{e}', file=sys.stderr)
        return 2
    tb = time.time() - t0
    scratch = tempfile.mkdtemp(prefix='vcase.')
    try:
        if replay:
            r = json.load(open(replay))
            run = Runner(pid, exe, r['seed'], r.get('thorough', False), scratch)
            a, b, n = r.get('shard') or [r['idx'], r['idx'] + 1, 1]
            p = subprocess.run(run.cmd(a, b, n, os.path.join(scratch, 'o'), os.path.join(scratch, 'p'), ['--verbose', '1'] if b - a == 1 else []), env=ENV, cwd=scratch)
            print('exit', p.returncode)
            return 1 if p.returncode else 0
        cases = spec['thorough' if thorough else 'quick']
        budget = spec.get('budget', 1500) if thorough else 0
        run = Runner(pid, exe, seed, thorough, scratch)
        n = vbuild.JOBS
        with cf.ThreadPoolExecutor(n) as ex:
            parts = list(ex.map(lambda j: run.shard(j, n, cases, budget), range(n)))
    finally:
        subprocess.run(['/bin/rm', '-rf', scratch])
    tot = {k: sum(p[k] for p in parts) for k in ('evaluations', 'skipped', 'nontrivial')}
    counters, sigs, samples, viols, odd = {}, set(), [], [], []
    for p in parts:
        for k, v in p['counters'].items():
            counters[k] = counters.get(k, 0) + v
        sigs |= p['sigs']
        samples += p['samples'][:1]
        viols += p['violations']
        odd += p['odd']
    known = [k for k in load_known() if k.get('property') == pid and k.get('status') == 'known']
    new, seen_known = [], {}
    for v in sorted(viols, key=lambda v: v['idx']):
        k = next((k for k in known if k['key'] == v['key']), None)
        if k:
            seen_known[k['key']] = k
        else:
            new.append(v)
    replays = []
    for v in new[:20]:
        d = os.path.join(VERIF, 'replays')
        os.makedirs(d, exist_ok=True)
        rp = os.path.join(d, f"{pid}-{seed}-{v['idx']}.json")
        with open(rp, 'w') as f:
            json.dump({'property': pid, 'seed': seed, 'idx': v['idx'], 'key': v['key'], 'message': v['msg'], 'case': v.get('case', ''), 'shard': v.get('shard'),
                       'thorough': thorough, 'run': f'python3 /verif/tools/check.py {pid} --replay {rp}'}, f, indent=1)
        replays.append((rp, v))
    for k in known:
        print(f"KNOWN-FINDING: property={pid} {k['text']}" + ('' if k['key'] in seen_known else ' (not met in this run)'))
    minimum = spec.get('min_nontrivial', 100)
    wall = time.time() - t0
    ev = {
        'property': pid, 'tier': 'thorough' if thorough else 'quick', 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': tot['evaluations'], 'distinct_nontrivial': len(sigs), 'rule': spec['rule'],
            'samples': samples[:6], 'nontrivial_cases': tot['nontrivial'], 'skipped_cases': tot['skipped'],
            'observed': dict(sorted(counters.items())),
            'sources_built': st.get('sources'), 'objects_reused': st['hit'] + st['same-text'], 'objects_compiled': st['compiled'],
            'sanitizers': 'thread' if spec.get('flavor') == 'tsan' else 'address,leak,undefined(subset),float-cast-overflow',
        },
        'assumptions': spec.get('assumptions', []) + ['dependencies missing offline are stand-ins (DESIGN.md, section 2)'],
        'wall_s': round(wall, 2), 'violations': len(new),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for rp, v in replays[:5]:
        print(f"  [{v['key']}] case {v['idx']}: {v['msg'][:700]}\n    {v.get('case', '')[:400]}")
    for rp, v in replays[:1]:
        print(f'VIOLATION property={pid} replay={rp}')
    if new:
        print(f'{pid}: {len(new)} violating cases of {tot["evaluations"]} ({wall:.1f} s, build {tb:.1f} s)')
        return 1
    if odd:
        print(f'{pid}: no verdict: ' + odd[0], file=sys.stderr)
        return 2
    if len(sigs) < minimum:
        print(f'{pid}: no verdict: only {len(sigs)} distinct non-trivial cases', file=sys.stderr)
        return 2
    print(f"{pid}: held on {tot['evaluations']} cases, {len(sigs)} distinct non-trivial ({wall:.1f} s, build {tb:.1f} s)")
    return 0


if __name__ == '__main__':
    sys.exit(main())
