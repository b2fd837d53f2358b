#!/usr/bin/env python3
"""check.py PROPERTY: decides one property of the current tree of /repo.

Regenerates the verification crate from /repo/src, has Kani discharge every obligation of the property's
contract harnesses, and reports. Exit 0: all decided obligations hold. Exit 1: a violation (VIOLATION line).
Exit 2: nothing could be decided."""
import json, os, re, shutil, signal, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import kgen
from props import PROPS

REPO = os.environ.get('VERIF_REPO', '/repo')
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
KANI = ['cargo', 'kani', '-Z', 'unstable-options', '--no-memory-safety-checks', '--no-assertion-reach-checks']
JOBS = os.environ.get('VERIF_JOBS', '8')

def sh(cmd, cwd, timeout, out):
    """Runs `cmd` in its own process group, output to file `out`; returns the exit code or None on timeout."""
    env = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', RUST_BACKTRACE='0')
    env.pop('RUSTFLAGS', None)
    with open(out, 'w') as f:
        p = subprocess.Popen(cmd, cwd=cwd, stdout=f, stderr=subprocess.STDOUT, env=env, start_new_session=True)
        try:
            return p.wait(timeout)
        except subprocess.TimeoutExpired:
            return None
        finally:
            try: os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError: pass

CHECK = re.compile(r'^Check \d+: (\S.*?)\n\t - Status: (\w+)\n\t - Description: "(.*?)"\n(?:\t - Location: (.*?)\n)?', re.M | re.S)

def parse(text):
    """One harness' full output -> (checks, verdict, seconds)."""
    checks = [dict(name=m[1], status=m[2], desc=m[3], loc=m[4] or '') for m in CHECK.finditer(text)]
    v = re.search(r'^VERIFICATION:- (\w+)', text, re.M)
    t = re.search(r'^Verification Time: ([\d.]+)s', text, re.M)
    return checks, v[1] if v else None, float(t[1]) if t else 0.0

def is_cover(c): return '.cover.' in c['name']
def is_unwind(c): return '.unwind.' in c['name'] or 'unwinding assertion' in c['desc'] or '.recursion' in c['name']
def is_unsupported(c): return '.unsupported_construct.' in c['name'] or 'is not currently supported by Kani' in c['desc']
def in_source(c): return re.match(r'(\./)?src/', c['loc']) is not None

def judge(checks, verdict):
    """-> (verdict, reasons): 'holds', 'broken' or 'undecided'."""
    if not checks or verdict is None: return 'undecided', ['no result from the verifier (time limit or crash)']
    fails = [c for c in checks if c['status'] == 'FAILURE' and not is_cover(c)]
    unwind = [c for c in fails if is_unwind(c)]
    unsup = [c for c in fails if is_unsupported(c)]
    real = [c for c in fails if c not in unwind and c not in unsup]
    if real: return 'broken', real
    if unwind: return 'undecided', ['loop bound of the stand-in exceeded: ' + c['loc'] for c in unwind]
    if unsup: return 'undecided', ['unsupported: ' + c['desc'] for c in unsup]
    covers = [c for c in checks if is_cover(c)]
    hit = [c for c in covers if c['status'] == 'SATISFIED']
    bound = [c for c in hit if c['desc'].startswith('BOUND')]
    if verdict != 'SUCCESSFUL': return 'undecided', ['verifier says ' + verdict]
    if not [c for c in hit if c not in bound]:
        if bound: return 'undecided', ['every path runs into a bound of the stand-ins']
        return 'broken', [dict(name='completion', status='FAILURE', loc='', desc='the scenario is never completed: on every input the code under contract stops making progress')]
    return 'holds', [c['desc'] for c in bound]

class Run:
    def __init__(self, prop):
        self.prop, self.cfg = prop, PROPS[prop]
        self.dir = tempfile.mkdtemp(prefix='verif-%s-' % prop.lower())
        self.t0 = time.time()
        self.deadline = self.t0 + (800 if TIER == 'quick' else 3 * 3600)
        self.results = {}       # harness -> dict
        self.notes = []

    def left(self): return max(1, self.deadline - time.time())

    def kani(self, harnesses, limit, extra=(), out='out.txt'):
        shutil.rmtree(os.path.join(self.dir, 'result_output_dir'), ignore_errors=True)
        cmd = KANI + ['-j', JOBS, '--output-format=terse', '--output-into-files', '--harness-timeout', str(limit)] + list(extra)
        for h in harnesses: cmd += ['--harness', h]
        o = os.path.join(self.dir, out)
        rc = sh(cmd, self.dir, self.left(), o)
        t = open(o, errors='replace').read()
        self.cmd = ' '.join(cmd)
        return rc, t

    def collect(self):
        d = os.path.join(self.dir, 'result_output_dir')
        res = {}
        if os.path.isdir(d):
            for f in os.listdir(d):
                text = open(os.path.join(d, f), errors='replace').read()
                checks, verdict, secs = parse(text)
                res[f] = dict(checks=checks, verdict=verdict, secs=secs, text=text)
        return res

    def generate(self, features=()):
        kgen.generate(REPO, self.dir, [os.path.join(VERIF, 'harness', f + '.rs') for f in self.cfg['files']], features)

    def build(self):
        """Finds a rendering of the source that compiles; returns the list of harness names or None."""
        for features in ((), ('novec',), ('noplaces',), ('noplaces', 'novec'), ('async',), ('async', 'noplaces', 'novec')):
            self.generate(features)
            o = os.path.join(self.dir, 'build.txt')
            rc = sh(KANI + ['--only-codegen'] + sum((['--harness', p] for p in self.cfg['prefix']), []), self.dir, self.left(), o)
            self.build_log = open(o, errors='replace').read()
            if rc == 0:
                if features: self.notes.append('rendered with ' + ' '.join(features))
                return True
            if rc is None: return False
        return False

    def run(self):
        if not self.build():
            return self.undecidable('the verification crate does not compile from the current source', self.build_log)
        rc, log = self.kani(self.cfg['prefix'], self.cfg.get('limit', 200))
        res = self.collect()
        names = sorted(set(re.findall(r'Checking harness (\S+?)\.\.\.', log)) | set(res))
        if TIER != 'thorough': names = [n for n in names if 'deep' not in n]
        if not names: return self.undecidable('no harness was run', log)
        for n in names:
            r = res.get(n, dict(checks=[], verdict=None, secs=0.0, text=''))
            r['judged'], r['why'] = judge(r['checks'], r['verdict'])
            self.results[n] = r
        broken = [n for n in names if self.results[n]['judged'] == 'broken']
        undecided = [n for n in names if self.results[n]['judged'] == 'undecided']
        holds = [n for n in names if self.results[n]['judged'] == 'holds']
        for n in undecided: print('UNDECIDED %s: %s' % (n, '; '.join(map(str, self.results[n]['why']))[:300]))
        violations = 0
        if broken:
            violations = len(broken)
            path, confirmed = self.replay(broken)
            self.evidence(violations)
            for n in broken:
                for c in self.results[n]['why']: print('FAILED OBLIGATION %s: %s (%s)' % (n, c['desc'], c['loc']))
            print('VIOLATION property=%s replay=%s%s' % (self.prop, path, '' if confirmed else ' no-failing-input-found'))
            return 1
        self.evidence(0)
        if not holds:
            print('nothing could be decided')
            return 2
        print('%s holds on everything explored: %d harnesses, %d undecided, %.0f s' % (self.prop, len(holds), len(undecided), time.time() - self.t0))
        return 0

    def replay(self, broken):
        """Replays the counterexample of the cheapest failing harnesses natively on the same (real) code."""
        d = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, self.prop + '.txt')
        rep = ['property %s: failed obligations' % self.prop, '']
        for n in broken:
            for c in self.results[n]['why']: rep.append('%s\n    %s\n    %s\n    at %s' % (n, c['desc'], c['name'], c['loc']))
        order = sorted(broken, key=lambda n: (all(c['name'] == 'completion' for c in self.results[n]['why']), self.results[n]['secs']))
        confirmed = False
        for n in order[:3]:
            if self.left() < 60 or all(c['name'] == 'completion' for c in self.results[n]['why']): continue
            ok, text = self.playback(n)
            rep += ['', '=' * 80, 'native replay of the verifier\'s counterexample for %s: %s' % (n, 'CONFIRMED' if ok else 'not confirmed'), text]
            if ok: confirmed = True; break
        for n in order[:2]:
            rep += ['', '=' * 80, 'verifier output for ' + n, self.results[n]['text'][-20000:] if not confirmed else
                    '\n'.join('%s [%s] %s' % (c['name'], c['status'], c['desc']) for c in self.results[n]['checks'] if c['status'] != 'SUCCESS')]
        open(path, 'w').write('\n'.join(rep) + '\n')
        return path, confirmed

    def playback(self, n):
        o = os.path.join(self.dir, 'pb.txt')
        rc = sh(KANI + ['-Z', 'concrete-playback', '--concrete-playback=print', '--output-format=terse', '--harness', n, '--exact'], self.dir, min(200, self.left()), o)
        t = open(o, errors='replace').read()
        tests = re.findall(r'^```\n(.*?)^```', t, re.M | re.S)
        want = [c['desc'] for c in self.results[n]['why']]
        for k, body in enumerate(tests):
            chk = re.search(r'Check for `(\w+)`', body)
            if chk and chk[1] == 'cover': continue
            body = body.replace('Vec<Vec<u8>>', 'std::vec::Vec<std::vec::Vec<u8>>').replace('vec![', 'std::vec![')
            name = re.search(r'fn (kani_concrete_playback_\w+)', body)[1]
            body = body.replace(', %s)' % n.split('::')[-1], ', crate::%s)' % n)
            f = os.path.join(self.dir, 'src', 'lib.rs')
            saved = open(f).read()
            open(f, 'w').write(saved + '\n' + body)
            o2 = os.path.join(self.dir, 'pb2.txt')
            sh(['cargo', 'kani', 'playback', '-Z', 'concrete-playback', '--lib', '--', name], self.dir, min(200, self.left()), o2)
            t2 = open(o2, errors='replace').read()
            open(f, 'w').write(saved)
            m = re.search(r"panicked at .*?(?=\n\n|\nstack|\nnote|\nfailures)", t2, re.S)
            msg = m[0] if m else ''
            if 'test result: FAILED' in t2 and 'kani::assume' not in msg and any(same(w, msg) for w in want):
                return True, body + '\n' + msg
        return False, '\n'.join(tests)

    def undecidable(self, why, log):
        print('ERROR: %s' % why)
        print(log[-3000:])
        self.notes.append(why)
        self.evidence(0)
        return 2

    def evidence(self, violations):
        cfg, R = self.cfg, self.results
        decided = {n: r for n, r in R.items() if r['judged'] != 'undecided'}
        def count(names):
            ob = [c for n in names for c in R[n]['checks'] if not is_cover(c)]
            return len(ob), sum(c['status'] in ('SUCCESS', 'UNREACHABLE') for c in ob)
        bre = re.compile(cfg['bounded']) if cfg.get('bounded') else None
        full = [n for n in decided if not (bre and bre.search(n))]
        bnd = [n for n in decided if n not in full]
        fo, fd = count(full)
        bo, bd = count(bnd)
        funcs = sorted({m[1] for r in decided.values() for c in r['checks'] for m in [re.search(r'^(?:\./)?src/\S+?:[1-9]\d*:\d+ in function (.*)', c['loc'])] if m})
        secs = sum(r['secs'] for r in R.values())
        hit = sorted({c['desc'] for r in decided.values() for c in r['checks'] if is_cover(c) and c['status'] == 'SATISFIED' and c['desc'].startswith('BOUND')})
        cov = dict(
            harnesses_complete=len(full), harnesses_bounded=len(bnd), harnesses_undecided=sorted(n for n in R if n not in decided),
            obligations=fo, discharged=fd, bounded_obligations=bo, bounded_discharged=bd,
            bound=cfg.get('bound', ''), bounds_reached=hit,
            checker_cmd=getattr(self, 'cmd', ''), back_end='Kani 0.68 / CBMC (SAT)', solver_seconds=round(secs, 1),
            functions_under_contract=funcs, trusted_base=TRUSTED + cfg.get('trusted', []), notes=self.notes,
            assumes=scan(),
            explanation=cfg['explain'], samples=sorted(R)[:5])
        ev = dict(property=self.prop, tier=TIER, seed=SEED, level=cfg['level'], coverage=cov,
                  assumptions=ASSUMPTIONS + cfg.get('assumptions', []), wall_s=round(time.time() - self.t0, 1), violations=violations)
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f: json.dump(ev, f, indent=1)

def same(want, msg):
    want = want.strip().strip('"')
    if want in msg: return True
    # Kani describes some panics by their kind only.
    return want.startswith('This is a placeholder message') or want.split('"')[0][:40] in msg

def scan():
    """Mechanical scan for assumptions in the stand-ins and harnesses."""
    out = {}
    for root in ('shims', 'harness'):
        for d, _, fs in os.walk(os.path.join(VERIF, root)):
            for f in fs:
                if f.endswith('.rs'):
                    t = open(os.path.join(d, f)).read()
                    n, b = len(re.findall(r'\bassume\(', t)), len(re.findall(r'\bbound!\(', t))
                    if n or b: out[os.path.relpath(os.path.join(d, f), VERIF)] = dict(assume=n, bound=b)
    return out

TRUSTED = [
    'Kani 0.68, its MIR translation and CBMC 6 with its SAT solver',
    'bin/kgen.py: redirects the path root `std::` to shims/xstd, renders `async fn`/`.await` as sequential code (the future is polled until ready, its environment taking a turn at every suspension), and otherwise leaves every byte of /repo/src as it is',
    'shims/: contracts assumed of std (BTreeMap, Vec, Arc, Mutex, atomics, RefCell, thread-locals, threads, Instant, io::Error, sockets), polling, slab, parking, async-lock, concurrent-queue, rustix, tracing, futures-io',
]
ASSUMPTIONS = [
    'memory is sequentially consistent, and other threads act only at the interference points of the stand-ins (atomic accesses, locks, queue operations, parking, polling)',
    'the monotonic clock stays below 2^40 seconds',
    'the poller reports events only for interest that is armed, one-shot, and `notify` ends the current or next wait',
    'pointer-validity checks of the verifier are switched off: the stand-ins use raw pointers, the crate itself is checked by rustc (its `unsafe` code is not verified here)',
]

def main():
    if len(sys.argv) != 2 or sys.argv[1] not in PROPS:
        print('usage: check.py PROPERTY'); return 2
    r = Run(sys.argv[1])
    try: return r.run()
    finally: shutil.rmtree(r.dir, ignore_errors=True)

if __name__ == '__main__':
    sys.exit(main())
