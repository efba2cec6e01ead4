#!/usr/bin/env python3
"""Driver of the checks: `run.py check <property> [--tier quick|thorough]`, `run.py all [property..]`, `run.py setup`, `run.py replay <file>`.

K properties: Kani discharges the contracts annotated in /repo/src (harness crate in /verif/harness).
V properties: Verus discharges contracts woven into functions extracted from /repo/src (templates in /verif/verus).
Every check also runs the same predicates natively on the real code: to replay a counterexample, to look for one,
and, when the verifier gives no answer, as a bounded stand-in that is labelled as such.
"""
import json, os, re, resource, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, 'tools'))
REPO = '/repo'
WORK = os.path.join(VERIF, 'work')
HARNESS = os.path.join(VERIF, 'harness')
REPLAY = os.path.join(VERIF, 'replay')
import props as P

T0 = time.time()


def log(*a):
    print('[%6.1f]' % (time.time() - T0), *a, flush=True)


def env(**extra):
    e = dict(os.environ)
    e['HOME'] = e.get('HOME', '/root')
    e['PATH'] = '/root/.cargo/bin:/usr/local/cargo/bin:/usr/local/bin:' + e.get('PATH', '/usr/bin:/bin')
    e['CARGO_NET_OFFLINE'] = 'true'
    e['CARGO_TERM_COLOR'] = 'never'
    e.pop('RUSTC_WRAPPER', None)
    e.pop('RUSTUP_TOOLCHAIN', None)
    e.pop('RUSTFLAGS', None)
    e.update(extra)
    return e


def sh(cmd, timeout, cwd=None, **extra):
    """Runs a command in its own process group; (rc, output), rc None on timeout."""
    pre = (lambda: resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))) if cmd[0].endswith('/kh') else None
    p = subprocess.Popen(cmd, cwd=cwd, preexec_fn=pre, env=env(**extra), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         text=True, errors='replace', start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        out, _ = p.communicate()
        return None, out


# ---------------------------------------------------------------- native runs of the same predicates

class Native:
    def __init__(self):
        self.bin = None
        self.error = None
        self.lock = threading.Lock()

    def start(self):
        threading.Thread(target=self.build, daemon=True).start()

    def build(self):
        with self.lock:
            return self._build()

    def _build(self):
        if self.bin or self.error:
            return self.bin
        t = os.path.join(WORK, 'native')
        rc, out = sh(['cargo', 'build', '--offline', '--quiet'], 600, cwd=HARNESS, CARGO_TARGET_DIR=t, RUSTFLAGS='--cfg klavier_verif -Awarnings')
        b = os.path.join(t, 'debug', 'kh')
        if rc == 0 and os.path.exists(b):
            self.bin = b
        else:
            self.error = out[-6000:]
            log('native harness does not build:\n' + self.error)
        return self.bin

    def search(self, prop, seconds, seed):
        """[(harness, hex, message)], {harness: runs}"""
        if not self.build():
            return [], {}
        rc, out = sh([self.bin, 'search', prop, str(seconds), str(seed)], seconds * 4 + 120)
        found, runs = [], {}
        for l in out.splitlines():
            m = re.match(r'FOUND (\S+) (\S*) (.*)', l)
            if m:
                found.append(m.groups())
            m = re.match(r'SEARCHED (\S+) runs=(\d+) discarded=(\d+)', l)
            if m:
                runs[m[1]] = int(m[2])
        if rc is None or rc not in (0, 1):
            # The code under test brought the process down (abort, stack or memory exhaustion): find the input that does.
            log('native search ended abnormally: rc=%s\n%s' % (rc, out[-2000:]))
            t = os.path.join(WORK, 'trace-%s' % prop)
            sh([self.bin, 'search', prop, str(seconds), str(seed)], seconds * 20 + 120, KH_TRACE=t)
            if os.path.exists(t):
                h, x = open(t).read().split()
                rc, out = sh([self.bin, 'replay', h, x], 60)
                if rc is None or rc not in (0, 1, 2):
                    found.append((h, x, 'the process is brought down (rc %s): %s' % (rc, ' '.join(out.split())[-200:])))
            runs['abnormal'] = 1
        return found, runs

    def replay(self, harness, hexs):
        if not self.build():
            return None
        rc, out = sh([self.bin, 'replay', harness, hexs], 60)
        m = re.search(r'^FAIL (.*)$', out, re.M)
        return m[1] if m else None if rc in (0, 1, 2) else 'the process is brought down (rc %s)' % rc


NATIVE = Native()


# ---------------------------------------------------------------- Kani

def kani(prop, tier, pinned=None, playback=False, timeout=780):
    """Runs the harnesses of a property. Returns {harness: result dict}, raw output, build_ok."""
    spec = P.PROPS[prop]
    cmd = ['cargo', 'kani', '-Z', 'function-contracts', '-Z', 'unstable-options', '--default-unwind', '34',
           '--harness-timeout', '%ds' % (spec.get('harness_timeout', 200) if tier == 'quick' else 600)]
    if tier == 'thorough':
        cmd += ['--features', 'thorough']
    if playback:
        cmd += ['-Z', 'concrete-playback', '--concrete-playback=print', '--harness', pinned, '--exact']
    else:
        cmd += ['-j', str(spec.get('jobs', 8)), '--output-format', 'terse', '--harness', prop.lower() + '::']
    rc, out = sh(cmd, timeout, cwd=HARNESS, CARGO_TARGET_DIR=os.path.join(WORK, 'kani'))
    res, cur, at = {}, None, {}
    for l in out.splitlines():
        m = re.match(r'(?:Thread (\d+): )?Checking harness (\S+?)\.\.\.', l)
        if m:
            at[m[1]] = m[2]
            cur = m[2] if m[1] is None else cur
            res[m[2]] = dict(name=m[2], status='none', checks=0, failed=[], time=0.0, covered=None, must_not=None)
            continue
        m = re.match(r'Thread (\d+):\s*$', l)
        if m:
            cur = at.get(m[1])
            continue
        if cur is None or cur not in res:
            continue
        r = res[cur]
        m = re.match(r' \*\* (\d+) of (\d+) failed', l)
        if m:
            r['checks'] = int(m[2])
        m = re.match(r' \*\* (\d+) of (\d+) cover properties satisfied', l)
        if m:
            r['covered'] = (int(m[1]), int(m[2]))
        m = re.match(r'Failed Checks: (.*)', l)
        if m:
            r['failed'].append(m[1])
        m = re.match(r' File: "([^"]*)", line (\d+), in (.*)', l)
        if m and r['failed'] and ' at ' not in r['failed'][-1]:
            r['failed'][-1] += ' at %s:%s in %s' % (m[1], m[2], m[3])
        m = re.match(r'VERIFICATION:- (\w+)', l)
        if m:
            r['status'] = m[1]
        m = re.match(r'Verification Time: ([\d.e-]+)s', l)
        if m:
            r['time'] = float(m[1])
        if 'CBMC failed' in l or 'CBMC timed out' in l or 'out of memory' in l.lower():
            r['status'] = 'TOOL'
    return res, out, 'Checking harness' in out


TOOL_LIMIT = re.compile(r'unwinding assertion|not currently supported|unsupported|is not supported', re.I)


def classify(r):
    """ok | failed | undecided"""
    if r['status'] == 'SUCCESSFUL':
        if r['name'].split('::')[-2].endswith('_rejects') and P.is_panic_harness(r['name']):
            # The call must not return: its cover must be unreachable.
            return 'ok' if r['covered'] and r['covered'][0] == 0 else 'failed'
        if r['name'].endswith('::contract'):
            return 'ok'
        return 'ok' if r['covered'] and r['covered'][0] == r['covered'][1] else 'vacuous'
    if r['status'] == 'FAILED':
        if r['failed'] and any(TOOL_LIMIT.search(f) for f in r['failed']):
            return 'undecided'
        if not r['failed'] and r['checks'] == 0:
            return 'undecided'
        return 'failed'
    return 'undecided'


def playback_bytes(prop, tier, harness):
    res, out, _ = kani(prop, tier, pinned=harness, playback=True, timeout=400)
    found = []
    for blk in re.findall(r'let concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n\s*\];', out, re.S):
        vals = re.findall(r'^\s*vec!\[([\d, ]*)\]', blk, re.M)
        found.append(','.join(''.join('%02x' % int(x) for x in v.split(',') if x.strip()) for v in vals))
    return found


# ---------------------------------------------------------------- reporting

def violation(prop, kind, detail, reproduced):
    os.makedirs(REPLAY, exist_ok=True)
    path = os.path.join(REPLAY, '%s-%s.json' % (prop, re.sub(r'\W+', '-', kind)[:60]))
    detail = dict(property=prop, kind=kind, reproduced_on_real_code=reproduced, **detail)
    with open(path, 'w') as f:
        json.dump(detail, f, indent=1)
    return 'VIOLATION property=%s replay=%s%s' % (prop, path, '' if reproduced else ' no-failing-input-found')


def known_findings():
    p = os.path.join(VERIF, 'known-findings.txt')
    out = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) harness=(\S+) match=(\S+) (.*)', l)
            if m:
                out.append(m.groups())
    return out


def evidence(prop, tier, seed, level, coverage, assumptions, violations):
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(dict(property=prop, tier=tier, seed=seed, level=level, coverage=coverage, assumptions=assumptions,
                       wall_s=round(time.time() - T0, 1), violations=violations), f, indent=1)


def check_kani(prop, tier, seed):
    """(findings [(kind, detail, reproduced)], coverage, undecided reasons)"""
    spec = P.PROPS[prop]
    res, out, built = kani(prop, tier)
    findings, undecided = [], []
    cov = dict(obligations=0, discharged=0, harnesses={}, back_end='Kani 0.68 / CBMC (cadical unless stated in the harness)',
               checker_cmd='cargo kani -Z function-contracts --harness %s::' % prop.lower(), solver_s=0.0)
    first = None
    if not built:
        undecided.append('Kani could not build the harness: ' + '; '.join(re.findall(r'^error.*', out, re.M)[:4]))
        log(out[-3000:])
        return findings, cov, undecided
    for name, r in sorted(res.items()):
        c = classify(r)
        cov['obligations'] += max(1, r['checks'])
        cov['discharged'] += max(1, r['checks']) if c == 'ok' else 0
        cov['solver_s'] = round(cov['solver_s'] + r['time'], 2)
        cov['harnesses'][name] = dict(result=c, checks=r['checks'], s=round(r['time'], 2))
        log(c, name, '%d checks' % r['checks'], '%.1fs' % r['time'], *r['failed'][:3])
        if c in ('undecided', 'vacuous'):
            undecided.append('%s: %s %s' % (name, c, r['failed'][:2] or r['status']))
        if c == 'failed':
            base = name.split('::')[-2]
            nh = '%s::%s' % (prop, base)
            done = False
            if first is None:
                # Random search on the real code is cheaper than a second solver run; a counterexample is extracted only if it finds nothing.
                first = NATIVE.search(prop, 5, seed)[0]
            if not P.is_panic_harness(name) and not first:
                for h in playback_bytes(prop, tier, name):
                    m = NATIVE.replay(nh, h)
                    log('replay of the counterexample on the real code:', nh, h, '->', m)
                    if m:
                        findings.append((base, dict(harness=nh, input=h, message=m, obligations=r['failed'],
                                                    command='python3 /verif/run.py replay <this file>'), True))
                        done = True
                        break
            if not done:
                findings.append((base, dict(harness=nh, obligations=['%s: %s' % (name, f) for f in r['failed']] or [name + ': the call returns where it must be rejected'],
                                            verifier_output=out[-4000:]), False))
    if not res:
        undecided.append('no harness ran')
    return findings, cov, undecided


def check(prop, tier):
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    spec = P.PROPS[prop]
    os.makedirs(WORK, exist_ok=True)
    NATIVE.start()
    if spec['kind'] == 'K':
        findings, cov, undecided = check_kani(prop, tier, seed)
    else:
        import verus
        findings, cov, undecided = verus.check(prop, tier, seed, sh, log, WORK, spec)
    cov['functions_under_contract'] = spec['functions']
    cov['trusted_base'] = P.TRUSTED[spec['kind']] + spec.get('trusted', [])
    # The same predicates on the real code, natively.
    need = bool(undecided) or any(not f[2] for f in findings)
    secs = (30 if need else spec.get('search_s', 4)) if tier == 'quick' else (120 if need else 40)
    found, runs = NATIVE.search(prop, secs, seed)
    cov['native_runs'] = sum(v for k, v in runs.items() if k != 'abnormal')
    for h, x, m in found:
        log('native search found a failing input:', h, x[:200], m)
    listed = known_findings()
    lines, new = [], []
    for h, x, m in found:
        k = next((k for k in listed if k[0] == prop and k[1] == h and k[2] in m), None)
        if k:
            lines.append('KNOWN-FINDING: property=%s %s' % (prop, k[3]))
        else:
            new.append((h, x, m))
    found = new
    if found:
        # A failing input settles the matter; it stands for the obligations that failed with it.
        obl = [o for f in findings if not f[2] for o in f[1].get('obligations', [])]
        findings = [f for f in findings if f[2]]
        have = {f[1].get('harness') for f in findings}
        for h, x, m in found:
            if h not in have:
                findings.append((h.split('::')[-1], dict(harness=h, input=x, message=m, obligations=obl,
                                                         command='python3 /verif/run.py replay <this file>'), True))
    bad = [violation(prop, *f) for f in findings]
    # Report what has been reproduced first.
    bad.sort(key=lambda l: l.endswith('no-failing-input-found'))
    level = spec.get('level', 'proof')
    if undecided:
        cov['bounded_stand_in'] = dict(reason=undecided, label='bounded: random search over the real code, not counted as proved',
                                       runs=cov['native_runs'], seconds=secs)
        for u in undecided:
            log('UNDECIDED by the verifier, bounded stand-in used:', u)
    evidence(prop, tier, seed, level, cov, spec['assumptions'], len(bad))
    for l in sorted(set(lines)):
        print(l)
    if bad:
        print(bad[0])
        for l in bad[1:4]:
            log('also:', l)
        sys.exit(1)
    if undecided and not NATIVE.bin:
        print('ERROR: neither the verifier nor the native stand-in gave an answer')
        sys.exit(2)
    log('%s holds: %d/%d obligations discharged, %d native runs%s' % (
        prop, cov['discharged'], cov['obligations'], cov['native_runs'], ' (bounded where undecided)' if undecided else ''))
    sys.exit(0)


def main():
    a = sys.argv[1:]
    if a[0] == 'setup':
        for t in (['cargo', 'kani', '--version'], ['verus', '--version'], ['cvc5', '--version'], ['kissat', '--version']):
            rc, out = sh(t, 120, cwd=VERIF)
            print(t[0], 'ok' if rc == 0 else 'rc=%s' % rc, out.strip().splitlines()[:1])
        ok = NATIVE.build()
        sys.exit(0 if ok else 1)
    if a[0] == 'replay':
        d = json.load(open(a[1]))
        if 'input' not in d:
            print('no input recorded; failed obligations:', d.get('obligations'))
            sys.exit(0)
        m = NATIVE.replay(d['harness'], d['input'])
        print('FAIL ' + m if m else 'PASS')
        sys.exit(1 if m else 0)
    if a[0] == 'all':
        # For whoever maintains the machinery: every check on the current tree; fails when one alarms or is undecided.
        bad = []
        for p in a[1:] or sorted(P.PROPS):
            rc, out = sh([sys.executable, os.path.abspath(__file__), 'check', p], 1200, cwd=VERIF)
            e = json.load(open(os.path.join(VERIF, 'evidence', p + '.json')))
            u = e['coverage'].get('bounded_stand_in', {}).get('reason', [])
            print('%s rc=%s %s/%s obligations, %.0f s%s' % (p, rc, e['coverage'].get('discharged'), e['coverage'].get('obligations'), e['wall_s'],
                                                           ' UNDECIDED %s' % str(u)[:300] if u else ''), flush=True)
            if rc != 0 or u:
                bad.append(p)
        print('bad:', bad)
        sys.exit(1 if bad else 0)
    if a[0] == 'check':
        tier = os.environ.get('VERIF_TIER', 'quick')
        if '--tier' in a:
            tier = a[a.index('--tier') + 1]
        check(a[1], tier)


main()
