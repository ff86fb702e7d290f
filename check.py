#!/usr/bin/env python3
"""check.py PROP: decide one property on /repo's current tree.

1. xtract rewrites /repo/src mechanically into one Verus crate with the contracts of contracts/;
2. Verus verifies the modules that the property's functions live in; an obligation counts for the
   property iff its function is in the property's scope (props.py);
3. the concrete harness runs the same property against the real crate: it is the replay search for a
   failed obligation, and the bounded stand-in for code the verifier cannot take.
Exit 0: held on everything explored. Exit 1: a VIOLATION line was printed."""
import json, os, re, shutil, subprocess, sys, tempfile, threading, time
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('YASON_REPO', '/repo')
sys.path.insert(0, HERE)
from props import PROPS
import literals

T0 = time.time()
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or '1')
BUDGET = 780 if TIER == 'quick' else 3000
XTRACT = HERE + '/xtract/target/release/xtract'
HARNESS = HERE + '/harness/target/debug/harness'
ENV = dict(os.environ, CARGO_NET_OFFLINE='true')
ENV.pop('RUSTC_WRAPPER', None)

def say(*a): print(*a, flush=True)
def left(): return BUDGET - (time.time() - T0)

def sh(cmd, timeout, cwd=None, env=None):
    try:
        r = subprocess.run(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, text=True, errors='replace')
        return r.returncode, r.stdout, r.stderr
    except subprocess.TimeoutExpired as e:
        return None, '', 'timeout'

def build_xtract():
    rc, _, err = sh(['cargo', 'build', '--offline', '--release', '-q'], 600, HERE + '/xtract')
    if rc != 0: say(err[-3000:]); sys.exit(2)

def build_harness():
    rc, _, err = sh(['cargo', 'build', '--offline', '-q'], 600, HERE + '/harness', dict(ENV, RUSTFLAGS='-Awarnings'))
    return rc == 0, err[-3000:]

# ---------------------------------------------------------------- shape of a function body
KW = {'if', 'else', 'match', 'while', 'for', 'loop', 'return', 'let', 'break', 'continue', 'unsafe', 'move', 'in', 'mut'}
def shape(tokens):
    t = tokens.split('\u2423'); out = []
    for i, x in enumerate(t):
        if x in KW or x in '{}()?' or x == ';': out.append(x)
        elif x == '>' and i and t[i-1] == '=': out.append('=>')
        elif x == '=' and i > 1 and t[i-1] == '.' and t[i-2] == '.': out.append('..=')
        elif x == '..=': out.append(x)
        elif re.match(r'[A-Za-z_]\w*$', x) and i + 1 < len(t) and t[i+1] == '(': out.append(x + '(')
        elif x == '!' and i and re.match(r'[A-Za-z_]\w*$', t[i-1]): out.append(t[i-1] + '!')
    return out

def baseline():
    d = {}
    p = HERE + '/contracts/baseline.tsv'
    if os.path.exists(p):
        for l in open(p, encoding='utf-8'):
            k, _, v = l.rstrip('\n').partition('\t'); d[k] = v
    return d

# ---------------------------------------------------------------- Verus
class Verifier:
    def __init__(self, prop, work):
        self.p, self.c, self.w = prop, PROPS[prop], work
        self.ext = {}            # functions handed over without verification in this run
        self.nohide = set()      # spec functions that nothing but a `hide` mentions (the verifier crashes on those)
        self.notes = []
        self.wall = 0.0; self.smt_ms = 0
        self.cmd = ''
    def xtract(self):
        a = [XTRACT, '--src', REPO + '/src', '--contracts', HERE + '/contracts', '--out', self.w + '/gen.rs', '--map', self.w + '/map.json']
        if os.path.exists(HERE + '/contracts/baseline.tsv'): a += ['--baseline', HERE + '/contracts/baseline.tsv']
        if self.ext:
            with open(self.w + '/ext', 'w') as f:
                for k, v in self.ext.items(): f.write(f'{k}\t{v}\n')
            a += ['--external', self.w + '/ext']
        rc, out, err = sh(a, 120)
        if rc != 0: return False, out + err
        self.map = json.load(open(self.w + '/map.json'))
        src = open(self.w + '/gen.rs').read()
        for h in self.nohide: src = re.sub(r'\bhide\((?:\w+::)*' + h + r'\);', '', src)
        if self.nohide: open(self.w + '/gen.rs', 'w').write(src)
        self.src = src.split('\n')
        self.index()
        return True, ''
    def index(self):
        # every fn of the generated file, by line: ids for extracted ones, module::name for the rest
        by_line = {f['gen_line']: f['id'] for f in self.map['functions']}
        self.fns = []; mods = []; pend = None
        rx = re.compile(r'^\s*(?:pub(?:\([^)]*\))?\s+)?(?:(?:open|closed|broadcast|uninterp|axiom|unsafe|const|exec|proof|spec|assume_specification)\s+)*fn\s+(\w+)')
        rm = re.compile(r'^(\s*)(?:pub(?:\([^)]*\))?\s+)?mod\s+(\w+)\s*\{')
        for i, l in enumerate(self.src, 1):
            m = rm.match(l)
            ind = len(l) - len(l.lstrip())
            if m and '}' not in l:
                mods = [x for x in mods if x[0] < ind] + [(ind, m.group(2))]
            m2 = rx.match(l)
            if i in by_line: pend = by_line[i]
            if m2 and pend: self.fns.append((i, pend, 'exec')); pend = None
            elif m2:
                mm = [x[1] for x in mods if x[0] < ind]
                kind = 'proof' if 'proof' in l[:m2.start(1)] else 'spec'
                self.fns.append((i, '::'.join(mm + [m2.group(1)]), kind))
    def at(self, line):
        r = None
        for ln, i, k in self.fns:
            if ln <= line + 0: r = (i, k)
            else: break
        return r
    def scope_ids(self):
        return [f['id'] for f in self.map['functions'] if any(re.fullmatch(x, f['id']) for x in self.c['scope'])]
    def modules(self):
        ids = self.scope_ids()
        ms = {f['module'] for f in self.map['functions'] if f['id'] in set(ids)}
        for l in self.c.get('lemmas', []): ms.add('::'.join(x for x in l.split('::')[:-1] if not x[0].isupper()))
        return sorted(ms)
    def run(self, rlimit, seed=None, timeout=240, extra=()):
        cmd = ['verus', self.w + '/gen.rs', '--crate-type=lib', '--multiple-errors', '4', '--num-threads', '8', '--rlimit', str(rlimit),
               '--output-json', '--time-expanded', '--error-format=json'] + list(extra)
        for m in self.modules(): cmd += ['--verify-only-module', m] if m else ['--verify-root']
        if seed is not None: cmd += ['--smt-option', f'smt.random_seed={seed}', '--smt-option', f'sat.random_seed={seed}']
        self.cmd = ' '.join(cmd).replace(self.w, '$WORK')
        t = time.time()
        rc, out, err = sh(cmd, max(20, min(timeout, left() - 60)), self.w)
        self.wall += time.time() - t
        if rc is None: return dict(kind='timeout', errors=[], json=None)
        try: js = json.loads(out)
        except Exception: js = None
        errs = []
        for l in err.split('\n'):
            if not l.startswith('{'): continue
            try: d = json.loads(l)
            except Exception: continue
            if d.get('level') != 'error' or 'aborting due to' in d['message']: continue
            sp = [s for s in d['spans'] if s['file_name'].endswith('gen.rs')]
            pick = [s for s in sp if s.get('label') and re.search(r'at the end of|at this (exit|loop|call)', s['label'])] or [s for s in sp if s['is_primary']] or sp
            where = self.at(pick[0]['line_start']) if pick else None
            errs.append(dict(msg=d['message'], code=d.get('code'), where=where, line=pick[0]['line_start'] if pick else 0,
                             text=(self.src[pick[0]['line_start'] - 1].strip() if pick else ''), rendered=d.get('rendered', '')[:4000]))
        if js and 'times-ms' in js:
            try: self.smt_ms += js['times-ms']['smt']['smt-run']
            except Exception: pass
        vr = (js or {}).get('verification-results', {})
        # an error with a rustc code, or no obligation at all: the front end stopped before the verifier ran
        ok = vr and not any(e['code'] for e in errs) and vr.get('verified', 0) + vr.get('errors', 0) > 0 and not vr.get('encountered-vir-error') and 'verified' in vr and 'times-ms' in js and 'smt' in js['times-ms']
        return dict(kind='verified' if ok else 'rejected', errors=errs, json=js, stderr=err[-6000:], all=None if ok else err)

    def verify(self):
        """-> dict: status per scope function: proved | failed | undecided (reason)"""
        ok, msg = self.xtract()
        if not ok: return dict(all='undecided', why='extraction failed: ' + msg[-500:])
        for f in self.map['functions']:
            if not f['contract'] and not f['external']: self.ext[f['id']] = 'nospec no contract'
        self.nocontract = set(self.ext)
        und = {}
        res = None
        for rnd in range(12):
            ok, msg = self.xtract()
            if not ok: return dict(all='undecided', why='extraction failed: ' + msg[-500:])
            res = self.run(40)
            if res['kind'] == 'verified': break
            if res['kind'] == 'timeout': return dict(all='undecided', why='verifier timed out')
            new = {}
            for e in res['errors']:
                if e['where'] and e['where'][1] == 'exec':
                    i = e['where'][0]
                    if i not in self.ext: new[i] = 'rejected by the verifier front end: ' + e['msg'][:200]
                    elif not self.ext[i].startswith('nospec'): new[i] = 'nospec ' + e['msg'][:200]
            gone = set(re.findall(r"use of undeclared variable fuel%gen!(?:\w+\.)*(\w+)\.'", res['all'] or '')) - self.nohide
            if not new and gone:
                self.nohide |= gone; continue
            if not new:
                # no place given (a crash of the front end, say): hand over what differs from the tree the proof was made for
                b = baseline()
                new = {f['id']: 'rejected by the verifier front end: ' + (res['stderr'] or '')[-200:].replace('\n', ' ').replace('\t', ' ')
                       for f in self.map['functions'] if f['id'] not in self.ext and not f['external'] and b.get(f['id']) != f['tokens']}
            if not new:
                return dict(all='undecided', why='the verifier rejects the generated crate: ' + '; '.join(e['msg'] + ' @ ' + e['text'] for e in res['errors'])[:800] + ('' if res['errors'] else res['stderr'][-800:]))
            for k, v in new.items(): und[k] = v.replace('nospec ', ''); self.ext[k] = v
            if left() < 200: return dict(all='undecided', why='out of time')
        else:
            return dict(all='undecided', why='the verifier front end keeps rejecting the crate')
        scope = set(self.scope_ids())
        lem = set(self.c.get('lemmas', []))
        def failing(r):
            d = {}
            for e in r['errors']:
                k = e['where'][0] if e['where'] else '?'
                d.setdefault(k, []).append(e)
            return d
        fail = failing(res)
        first = res
        rel = lambda d: {k: v for k, v in d.items() if k in scope or not any(f['id'] == k for f in self.map['functions'])}
        if rel(fail):
            for seed, rl in ((3, 80), (11, 150)):
                if left() < 250: break
                r2 = self.run(rl, seed)
                if r2['kind'] != 'verified': break
                f2 = failing(r2)
                # an obligation discharged in any attempt is discharged
                fail = {k: (f2[k] if k in f2 else None) for k in fail}
                fail = {k: v for k, v in fail.items() if v}
                if not rel(fail): break
        self.result = first
        out = dict(all=None, failed={}, undecided=dict((k, v) for k, v in und.items() if k in scope), first=first)
        for k, es in rel(fail).items():
            hard = [e for e in es if 'rlimit' not in e['msg'] and 'Resource limit' not in e['msg'] and 'could not finish' not in e['msg']]
            if k in scope and hard: out['failed'][k] = hard
            else: out['undecided'][k] = 'the solver gave no answer' if k in scope else 'lemma or specification not discharged'
        for i in scope:
            if i in self.nocontract: out['undecided'][i] = 'no contract for this function'
        ids = {f['id'] for f in self.map['functions']}
        want = set(self.c.get('expect', []))
        for o in self.map['orphans']:
            if any(re.fullmatch(x, o) for x in self.c['scope']): out['undecided'][o] = 'function named by a contract is gone'
        for o in self.map['missing']: self.notes.append(f'missing: {o}')
        for f in self.map['functions']:
            if f['id'] in scope and f['unused'] and f['id'] not in out['failed']:
                self.notes.append(f'{f["id"]}: proof hints without a place: {f["unused"]}')
        return out

# ---------------------------------------------------------------- concrete search
def harness(prop, seed, cases, secs, work):
    out = f'{work}/h{seed}.json'
    hints = f'{work}/hints.json'
    if not os.path.exists(hints): json.dump(literals.hints(REPO), open(hints, 'w'))
    if os.path.exists(out): os.unlink(out)
    rc, so, se = sh([HARNESS, prop, '--seed', str(seed), '--cases', str(cases), '--secs', str(secs), '--out', out, '--hints', hints], secs + 120)
    d = None
    if os.path.exists(out):
        try: d = json.load(open(out))
        except Exception: d = None
    if rc == 0 and d: return 'ok', d
    if rc == 1 and d: return 'fail', d
    if rc is not None and rc < 0:
        tr = f'{work}/trace'
        rc2, so, se = sh([HARNESS, prop, '--seed', str(seed), '--cases', str(cases), '--secs', str(secs), '--out', out, '--hints', hints, '--trace', tr], secs + 120)
        if rc2 is not None and rc2 < 0:
            t = open(tr, errors='replace').read()[:4000] if os.path.exists(tr) else ''
            return 'fail', dict(failure=dict(input=t, what=f'the real code ended the process with signal {-rc2}: {se[-300:]}'), evaluations=0, distinct_nontrivial=0, samples=[])
    return 'error', dict(error=f'rc={rc} {se[-500:]}')

# which of the assumed contracts the Kani harnesses of assumed/ discharge for the real libraries
KANI = {'vx_u16_from_le_slice': 'u16_from_le_slice', 'vx_u32_from_le_slice': 'u32_from_le_slice', 'vx_i32_from_le_slice': 'i32_from_le_slice',
  'vx_to_le_bytes': 'u16_to_bytes, u32_to_bytes, i32_to_bytes', 'vx_to_be_bytes': 'u16_to_bytes, u32_to_bytes, i32_to_bytes',
  'u8::is_ascii_digit': 'ascii_classes', 'u8::is_ascii_whitespace': 'ascii_classes', 'u8::is_ascii_alphabetic': 'ascii_classes',
  '<Ordering as PartialEq>::eq': 'ordering_methods', '<u32 as From<bool>>::from': 'small_conversions', '<u8 as From<bool>>::from': 'small_conversions',
  'std::mem::replace': 'small_conversions', 'usize::abs_diff': 'small_conversions', 'std::option::Option::<&T>::copied': 'small_conversions',
  'axiom_num_text': 'number_text_bounded', 'axiom_num': 'decimal_round_trip', 'compact_encode': 'decimal_round_trip, decimal_bytes_are_its_own', 'decode': 'decimal_round_trip',
  'vx_str_cmp': 'str_order_bounded', 'vx_str_lt': 'str_order_bounded', 'vx_str_gt': 'str_order_bounded', 'vx_str_le': 'str_order_bounded',
  'vx_str_ge': 'str_order_bounded', 'vx_str_len': 'str_order_bounded', 'vx_copy_within': 'copy_within_bounded', '<[T]>::to_vec': 'to_vec_bounded',
  'std::str::from_utf8': 'from_utf8_bounded', 'Yason::new_unchecked': 'yason_new_unchecked_bounded'}
for _m in ('is_eq', 'is_ge', 'is_gt', 'is_le', 'is_lt', 'is_ne', 'reverse', 'then'): KANI['std::cmp::Ordering::' + _m] = 'ordering_methods'

def kani_mark(entry):
    k = re.sub(r'^(assumed contract: |external body: (proof )?(fn|struct) )', '', entry)
    h = KANI.get(k) or KANI.get(k.split(': ')[0])
    if not h: return entry
    return f'{entry} [{"bounded check" if "bounded" in h else "discharged over the whole domain"} against the real library by Kani, harness {h}; run in the thorough tier]'

def kani_run():
    # the contracts assumed on std and decimal-rs, against the real libraries (thorough tier)
    t = time.time()
    rc, so, se = sh(['cargo', 'kani', '--output-format', 'terse', '--target-dir', HERE + '/assumed/target'], max(60, min(500, left() - 60)), cwd=HERE + '/assumed',
                    env=dict(os.environ, CARGO_NET_OFFLINE='true', RUSTFLAGS='-Awarnings'))
    res = {}; cur = None
    for l in so.split('\n'):
        m = re.search(r'Checking harness (\w+)', l)
        if m: cur = m.group(1)
        m = re.search(r'VERIFICATION:- (\w+)', l)
        if m and cur: res[cur] = m.group(1)
    return dict(harnesses=res, rc=rc, wall_s=round(time.time() - t, 1), checker_cmd='cargo kani (in /verif/assumed)', note='' if res else (se or so)[-300:])

def main():
    prop = sys.argv[1]
    if prop not in PROPS: say('unknown property', prop); sys.exit(2)
    work = tempfile.mkdtemp(prefix='yv_')
    try: rc = run(prop, work)
    finally: shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)

def known():
    out = []
    p = HERE + '/known_findings.txt'
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) match=(".*?"|\S+) (.*)', l)
            if m: out.append((m.group(1), m.group(2).strip('"'), m.group(3).strip()))
    return out

def run(prop, work):
    build_xtract()
    hok, herr = build_harness()
    if not hok: say('note: the concrete harness does not build against this tree:', herr[-400:])
    kani = {}; kt = None
    if TIER == 'thorough':
        kt = threading.Thread(target=lambda: kani.update(kani_run()), daemon=True); kt.start()
    V = Verifier(prop, work)
    v = V.verify()
    failed = v.get('failed', {}) ; und = v.get('undecided', {})
    if v.get('all'): und = {'*': v['why']}
    for k, es in failed.items():
        for e in es: say(f'failed obligation: {k}: {e["msg"]} [{e["text"][:120]}]')
    for k, w in und.items(): say(f'undecided: {k}: {w}')
    for n in V.notes: say('note:', n)
    # concrete runs
    runs = []; bad = None
    if hok:
        plan = [(SEED, 20000, 15)]
        if failed or und: plan = [(SEED, 60000, 40), (SEED + 100, 120000, 40), (SEED + 200, 120000, 40), (SEED + 300, 120000, 40)]
        if TIER == 'thorough': plan = [(SEED + 1000 * i, 400000, 90) for i in range(4)]
        for s, n, secs in plan:
            if left() < 40 and runs: break
            k, d = harness(prop, s, n, int(max(5, min(secs, left() - 30))), work)
            runs.append((s, n, k, d))
            if k == 'fail': bad = (s, n, d); break
            if k == 'error': say('note: concrete harness error', d.get('error'))
    rdir = HERE + '/evidence/replay'
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(prop + '-'): os.unlink(rdir + '/' + f)
    violations = 0; line = None; kn = []
    if kt: kt.join(max(5, left() - 20))
    V.kani = kani
    for h, r in kani.get('harnesses', {}).items():
        if r == 'FAILED': say(f'note: Kani refutes {h}')
    if bad:
        s, n, d = bad
        p = f'{rdir}/{prop}-input.json'
        json.dump(dict(property=prop, failure=d['failure'], rerun=f'{HARNESS} {prop} --seed {s} --cases {n} --secs 60 --out /dev/stdout',
                       failed_obligations={k: [e['rendered'] for e in es] for k, es in failed.items()}), open(p, 'w'), indent=1)
        say(f'failing input: {d["failure"].get("input", "")[:1500]}\n  {d["failure"].get("what", "")[:1500]}')
        line = f'VIOLATION property={prop} replay={p}'
    elif failed:
        base = baseline(); tok = {f['id']: f for f in V.map['functions']}
        firm = {}
        for k, es in failed.items():
            f = tok[k]
            b = base.get(k)
            new_helpers = [g['id'] for g in V.map['functions'] if g['id'] not in base and g['id'].rsplit('::', 1)[-1] in f['callees']]
            fresh = set(shape(f['tokens'])) - set(shape(b or ''))
            if any('precondition' in e['msg'] and any(x in e['text'] for x in fresh if x.endswith('(')) for e in es):
                # a call that was not made before, to a function whose contract may ask for more than its body needs
                und[k] = 'a function newly called here has a precondition the annotations do not provide'; continue
            # without loops, closures or hints inside the body, and without calls to functions that were not called
            # before, the proof does not depend on how the body is written
            free = f['loops'] == 0 and f['closures'] == 0 and f['nhints'] == 0 and f['contract'] and not any(x[0].islower() and x.endswith('(') for x in fresh)
            if b is None or (shape(b) != shape(f['tokens']) and not free) or new_helpers or f['unused'] or f['guessed']:
                und[k] = 'the obligation no longer goes through, but the function was restructured, so the proof may only need new annotations'
            else: firm[k] = es
        for k in failed:
            if k not in firm: say(f'undecided: {k}: {und[k]}')
        if firm:
            p = f'{rdir}/{prop}-obligation.json'
            json.dump(dict(property=prop, failed_obligations={k: [dict(message=e['msg'], at=e['text'], verifier_output=e['rendered']) for e in es] for k, es in firm.items()},
                           searched=[(s, n, k) for s, n, k, _ in runs]), open(p, 'w'), indent=1)
            line = f'VIOLATION property={prop} replay={p} no-failing-input-found'
        failed = firm
    if not line and kani.get('harnesses', {}).get('yason_new_unchecked_bounded') == 'FAILED' and hasattr(V, 'map') and 'Yason::new_unchecked' in V.scope_ids():
        p = f'{rdir}/{prop}-obligation.json'
        json.dump(dict(property=prop, failed_obligations={'Yason::new_unchecked': [dict(message='bounded check of the trusted contract refuted by Kani', harness='assumed/src/lib.rs yason_new_unchecked_bounded')]}), open(p, 'w'), indent=1)
        line = f'VIOLATION property={prop} replay={p} no-failing-input-found'
    # the inputs of the findings on record (never generated by the search above)
    for q, m, what in known():
        if q == prop and hok:
            k, d = harness('K' + prop[1:], 1, 1, 5, work)
            if k == 'fail' and m in d['failure']['input']: kn.append(what)
            else: say(f'note: the finding on record no longer fails: {what}')
    for k in kn: say(f'KNOWN-FINDING: property={prop} {k}')
    if line: violations = 1
    evidence(prop, V, v, failed, und, runs, violations, hok)
    if line: say(line); return 1
    if und: say(f'{prop}: not proved on this tree ({len(und)} undecided); bounded stand-in found no failing input')
    else: say(f'{prop}: all obligations discharged')
    return 0

def evidence(prop, V, v, failed, und, runs, violations, hok):
    c = PROPS[prop]
    funcs = []; obligations = discharged = 0; trusted = []; modules = V.modules() if hasattr(V, 'map') else []
    js = v.get('first', {}).get('json') if v.get('first') else None
    per = []
    if js:
        vr = js['verification-results']
        obligations = vr['verified'] + vr['errors']; discharged = vr['verified']
        for m in js['times-ms']['smt'].get('smt-run-module-times', []):
            for fb in m.get('function-breakdown', []): per.append(fb)
        # retries may have discharged what the first attempt did not
        discharged = max(discharged, obligations - len(failed) - len([k for k in und if k != '*']))
    if hasattr(V, 'map'):
        scope = set(V.scope_ids())
        for f in V.map['functions']:
            if f['id'] in scope: funcs.append(dict(function=f['id'], file=f['file'], line=f['line'],
                status='failed' if f['id'] in failed else 'undecided' if f['id'] in und else ('trusted: ' + f['external'] if f['external'] else 'proved')))
            if f['external'] and f['id'] not in V.nocontract and f['id'] in scope: trusted.append(f'{f["id"]}: {f["external"]}')
        txt = '\n'.join(V.src)
        for m in re.finditer(r'assume_specification(?:<[^[]*>)?\s*\[\s*((?:[^\[\]]|\[[^\]]*\])+?)\s*\]', txt): trusted.append('assumed contract: ' + re.sub(r'\s+', ' ', m.group(1)))
        ext = re.findall(r'external_body\]\s*(?:#\[[^\]]*\]\s*)*(?:pub(?:\([^)]*\))?\s+)?((?:(?:broadcast|proof|exec|unsafe|const)\s+)*(?:fn|struct)\s+\w+)', '\n'.join(l for l in V.src))
        names = {f['id'].rsplit('::', 1)[-1] for f in V.map['functions']}
        for e in ext:
            if e.split()[-1] not in names: trusted.append('external body: ' + e)
        trusted = sorted({kani_mark(t) for t in trusted})
        dropped = V.map['dropped']; rules = {}
        for f in V.map['functions']:
            for k, n in f['rules'].items(): rules[k] = rules.get(k, 0) + n
    else: dropped, rules = [], {}
    ev = sum(d.get('evaluations', 0) for _, _, k, d in runs); dn = sum(d.get('distinct_nontrivial', 0) for _, _, k, d in runs)
    samples = []
    for _, _, _, d in runs: samples += d.get('samples', [])[:3]
    rec = dict(property=prop, tier=TIER if TIER in ('quick', 'thorough') else 'quick', seed=SEED, level='proof',
      coverage=dict(obligations=obligations, discharged=discharged, checker_cmd=V.cmd, trusted_base=trusted + ['Verus 0.2026.09.13 and Z3', 'xtract (the mechanical extraction)', 'rustc'],
        back_end='Z3 through Verus', solver_ms=V.smt_ms, verifier_wall_s=round(V.wall, 1), modules=modules, functions_under_contract=funcs,
        theorems=c.get('lemmas', []), undecided=und, failed={k: [e['msg'] for e in es] for k, es in failed.items()},
        queries=[dict(function=p['function'], ms=p['time'], ok=p['success']) for p in per][:400],
        extraction_drops=dropped, extraction_rewrites=rules,
        bounded_stand_in=dict(label='bounded, not counted as proved: concrete runs of the real crate against a reference model', built=hok,
           runs=[dict(seed=s, cases=n, result=k, evaluations=d.get('evaluations', 0)) for s, n, k, d in runs]),
        evaluations=ev, distinct_nontrivial=dn, rule='cases of the concrete harness: random and boundary inputs of the property, executed on the real crate and compared with a reference model; non-trivial as counted by the harness (distinct inputs that reach the property beyond its empty case)',
        samples=samples[:6], **(dict(assumptions_checked=V.kani) if getattr(V, 'kani', None) else {})),
      assumptions=['machine integers are exact (overflow is an obligation); Vec, slice and str lengths are at most isize::MAX (language guarantee, axiom)',
        'debug assertions are obligations, except those about Vec capacity, which the extraction drops (capacity is not modelled); the concrete harness runs with debug assertions on',
        'memory allocation may fail: try_reserve may return any error, and then nothing is claimed beyond the returned error',
        'decimal-rs numbers are uninterpreted values; their encode/decode round trip is assumed by the proof and discharged for the real decimal-rs by Kani (assumed/, thorough tier)'] + V.notes,
      wall_s=round(time.time() - T0, 2), violations=violations)
    os.makedirs(HERE + '/evidence', exist_ok=True)
    json.dump(rec, open(f'{HERE}/evidence/{prop}.json', 'w'), indent=1)

if __name__ == '__main__': main()
