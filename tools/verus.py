"""V properties: contracts woven into functions extracted from the repository, discharged by Verus."""
import glob, json, os, re, time
import weave

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LIMIT = re.compile(r'resource limit|rlimit', re.I)
# Messages of the verifier about an obligation it could not discharge; any other error is about the text, not the proof.
OBLIGATION = re.compile(r'postcondition not satisfied|precondition not (?:satisfied|met)|precondition failed|assertion failed|invariant not satisfied|'
                        r'possible arithmetic underflow/overflow|possible division by zero|possible bit shift|decreases not satisfied|'
                        r'unable to prove|could not prove|cannot prove|failed (?:this|to satisfy)|loop (?:must|invariant)|constant .*overflow|'
                        r'arithmetic underflow|might not (?:be|hold|terminate)|exhaustive|unreachable|panic|index out of bounds|'
                        r'requirement not met|not satisfied', re.I)
TRUST = re.compile(r'\b(assume_specification|external_body|admit\(\)|assume\(|external_fn_specification|external_type_specification|axiom fn)')


def roots():
    g = glob.glob(os.path.expanduser('~/.cargo/registry/src/*/klavier-helper-0.1.11/src')) + glob.glob('/root/.cargo/registry/src/*/klavier-helper-0.1.11/src')
    r = {'': '/repo'}
    if g:
        r['helper'] = g[0]
    return r


def run(sh, path, rlimit, work, timeout=300, extra=()):
    rc, out = sh(['verus', path, '--output-json', '--error-format=json', '--multiple-errors', '6', '--rlimit', str(rlimit), '--num-threads', '8', '--triggers-mode', 'silent', *extra],
                 timeout, cwd=work)
    diags, js = [], []
    for l in out.splitlines():
        if l.startswith('{"$message_type"') or l.startswith('{"message"'):
            try:
                diags.append(json.loads(l))
                continue
            except ValueError:
                pass
        js.append(l)
    m = re.search(r'"verified":\s*(\d+)', out)
    e = re.search(r'"errors":\s*(\d+)', out)
    ok = re.search(r'"success":\s*(true|false)', out)
    return dict(rc=rc, diags=[d for d in diags if d.get('level') == 'error'], verified=int(m[1]) if m else None,
                errors=int(e[1]) if e else None, success=bool(ok and ok[1] == 'true'), raw=out)


def trusted(text):
    """Every unchecked assumption written in the generated file, with the name it is about."""
    out = []
    for m in TRUST.finditer(text):
        tail = text[m.start():m.start() + 600]
        n = re.search(r'assume_specification\s*(?:<[^\[]*>)?\s*\[\s*([^\]]*)\]', tail) or re.search(r'\b(?:fn|struct|enum)\s+(\w+)', tail)
        out.append('%s: %s' % (m[1], re.sub(r'\s+', ' ', n[1]).strip() if n else tail[:60]))
    return sorted(set(out))


def place(d):
    for s in sorted(d.get('spans', []), key=lambda s: not s.get('is_primary')):
        yield s['line_start']


def check(prop, tier, seed, sh, log, work, spec):
    findings, undecided = [], []
    cov = dict(obligations=0, discharged=0, back_end='Verus 0.2026.09.13 / Z3', templates={}, solver_s=0.0, assumed=[],
               checker_cmd='verus <generated file> --rlimit N, on text extracted from /repo/src by tools/weave.py on this run')
    gen = os.path.join(work, 'verus')
    os.makedirs(gen, exist_ok=True)
    w = weave.Weaver(roots())
    for tpl in spec['templates']:
        src = os.path.join(VERIF, 'verus', tpl + '.vt')
        out = os.path.join(gen, tpl + '.rs')
        try:
            text, fns, notes = w.expand(src)
            smoke = w.expand(src, smoke=True)[0]
        except (weave.Lost, OSError) as e:
            undecided.append('%s: the contract no longer fits the code: %s' % (tpl, e))
            continue
        header = ['// Generated by tools/weave.py from %s.vt; every function below is the text in the repository on this run.' % tpl]
        for f in fns:
            header.append('// %s %s:%s sha256 %s %s' % (f['name'], f['file'], f['lines'], f['sha'],
                                                       '; '.join('[%s ==> %s, %d places]' % x for x in f['local'])))
        header += ['// ' + n for n in notes]
        with open(out, 'w') as fh:
            fh.write(text + '\n' + '\n'.join(header) + '\n')
        t = time.time()
        rl = spec.get('rlimit', 60) * (1 if tier == 'quick' else 4)
        r = run(sh, out, rl, gen)
        dt = time.time() - t
        cov['solver_s'] = round(cov['solver_s'] + dt, 2)
        cov['assumed'] += ['%s: %s' % (tpl, x) for x in trusted(text)]
        info = dict(verified=r['verified'], errors=r['errors'], s=round(dt, 2), functions=['%s (%s:%s)' % (f['name'], f['file'], f['lines']) for f in fns],
                    extraction=[f['name'] + ': ' + '; '.join('%s ==> %s (%d)' % x for x in f['local']) for f in fns if f['local']] + notes)
        cov['templates'][tpl] = info
        if r['rc'] is None or r['verified'] is None:
            undecided.append('%s: the verifier gave no result: %s' % (tpl, [d['message'][:200] for d in r['diags'][:3]] or r['raw'][-400:]))
            continue
        cov['obligations'] += r['verified'] + (r['errors'] or 0)
        cov['discharged'] += r['verified']
        bad = [d for d in r['diags'] if not d['message'].startswith('aborting')]
        soft = [d for d in bad if LIMIT.search(d['message'] + json.dumps(d.get('children', []))[:400])]
        odd = [d for d in bad if d not in soft and not OBLIGATION.search(d['message'])]
        hard = [d for d in bad if d not in soft and d not in odd]
        for d in odd:
            undecided.append('%s: %s' % (tpl, d['message'][:300]))
        for d in soft:
            undecided.append('%s: the solver ran out of its limit: %s' % (tpl, d['message'][:200]))
        if hard and not odd:
            per = {}
            for d in hard:
                f = next((f for ln in place(d) for f in fns if f['first'] <= ln <= f['last']), None)
                per.setdefault(f['name'] if f else tpl + ' (lemma)', []).append(d)
            for name, ds in per.items():
                obl = ['%s: %s%s' % (name, d['message'], ''.join(' [' + re.sub(r'\s+', ' ', x['text'][0]['text'].strip()) + ']' for x in d['spans'][:2] if x.get('text'))) for d in ds]
                for o in obl:
                    log('FAILED obligation', o)
                findings.append((tpl + '-' + name, dict(obligations=obl, verifier_output='\n'.join(d.get('rendered') or '' for d in ds)[:6000]), False))
        if not bad and not r['success']:
            undecided.append('%s: the verifier reports no success and no error' % tpl)
        if not bad and r['success']:
            # Vacuity: with `assert(false)` put first in every body each function must fail, or its precondition admits nothing.
            sp = os.path.join(gen, tpl + '_smoke.rs')
            with open(sp, 'w') as fh:
                fh.write(smoke)
            s = run(sh, sp, rl, gen)
            lines = [ln for d in s['diags'] for ln in place(d)]
            dead = [f['name'] for f in fns if not any(f['first'] <= ln <= f['last'] for ln in lines)]
            info['vacuity'] = 'every precondition is satisfiable as far as the verifier can tell' if not dead else 'UNREACHABLE: %s' % dead
            if dead:
                undecided.append('%s: no input reaches %s' % (tpl, dead))
        log('%s: %s verified, %s errors, %.1fs' % (tpl, r['verified'], r['errors'], dt))
    return findings, cov, undecided
