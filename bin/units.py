"""Stage 1: Verus on the functions cut out of /repo.

A unit is a template units/*.rs; its line `//# properties C01 C05` says which properties it decides, `//# covers` what
part of them. For each unit: extract (from /repo's current source), verify, and verify again with `assert(false)` at the
start of every body under contract, where every function has to fail (otherwise its precondition or an axiom is
contradictory and its proof is worth nothing)."""
import os, re, json, subprocess, time, glob, shutil
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = os.path.join(V, 'target')
REPO = '/repo'
RLIMIT = 60
CMD = 'verus UNIT.rs --crate-type bin --rlimit %d --output-json --time (on target/work/PROPERTY/units/UNIT.rs, written by target/extract/debug/extract from /repo and units/UNIT.rs)' % RLIMIT
DEFINITE = ('postcondition not satisfied', 'precondition not satisfied', 'assertion failed', 'invariant not satisfied', 'possible arithmetic', 'decreases not satisfied',
    'possible division by zero', 'unable to prove assertion', 'possible bit shift', 'loop invariant not', 'unreachable', 'failed precondition', 'could not prove termination',
    'split assertion failure', 'constructed value may fail', 'recommendation not met and')
NOISE = ('aborting due to', 'function body check: not all errors')

def header(path):
    t = open(path).read()
    m = re.search(r'//# properties (.*)', t)
    c = re.findall(r'//# covers (C\d\d):? (.*)', t)
    return (m.group(1).split() if m else []), dict(c)

def all_units():
    return {os.path.basename(f)[:-3]: header(f) for f in sorted(glob.glob(os.path.join(V, 'units', '*.rs'))) if header(f)[0]}

def units_of(prop): return [u for u, (ps, _) in all_units().items() if prop in ps]

def build():
    """-> error or None"""
    import fcntl
    os.makedirs(T, exist_ok=True)
    with open(os.path.join(T, 'extract.lock'), 'w') as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        p = subprocess.run(['cargo', 'build', '--offline'], cwd=os.path.join(V, 'extract'), env=dict(os.environ, CARGO_TARGET_DIR=os.path.join(T, 'extract'), CARGO_NET_OFFLINE='true'),
            stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return None if p.returncode == 0 else p.stdout.decode()[-2000:]

def trusted(text):
    """everything in a generated unit that Verus takes on faith"""
    out = []
    for m in re.finditer(r'assume_specification\s*(<[^\[]*>)?\s*\[\s*(.+?)\s*\]\s*\(', text): out.append('assumed specification of ' + re.sub(r'\s+', ' ', m.group(2)))
    for m in re.finditer(r'#\[verifier::external_body\]\s*(?:#\[[^\]]*\]\s*)*(?:pub )?(?:broadcast )?(?:proof |exec )?(fn|struct|enum) (\w+)', text):
        if m.group(2).startswith('axiom_'): out.append('axiom ' + m.group(2))
    for m in re.finditer(r'(?:pub )?(?:broadcast )?axiom fn (\w+)', text): out.append('axiom ' + m.group(1))
    for m in re.finditer(r'uninterp spec fn (\w+)', text): out.append('uninterpreted ' + m.group(1))
    for m in re.finditer(r'//# trust (.*)', text): out.append(m.group(1))
    for w in ('admit()', 'assume('):
        if re.search(r'(?<![\w])' + re.escape(w), text): out.append('USES ' + w)
    return out

def where(lines, n):
    """which function of /repo, or which lemma, line n of the generated file belongs to"""
    for i in range(min(n, len(lines)) - 1, -1, -1):
        m = re.match(r'// (\S+\.rs:\d+) (\S+)$', lines[i])
        if m: return '%s (%s)' % (m.group(2), m.group(1))
        m = re.match(r'\s*(?:pub )?(?:broadcast )?(?:proof )?fn (\w+)', lines[i])
        if m and not any(re.match(r'// \S+\.rs:\d+ ', l) for l in lines[max(0, i - 4):i]): return m.group(1)
    return '?'

def diagnostics(err, gen):
    """-> (definite failures, other errors)"""
    lines = gen.split('\n')
    bad, other = [], []
    for blk in re.split(r'\n(?=error|warning|note)', '\n' + err):
        blk = blk.strip()
        if not blk.startswith('error'): continue
        msg = re.sub(r'^error(\[\w+\])?: ', '', blk.split('\n')[0])
        if any(msg.startswith(x) for x in NOISE): continue
        at = [int(x) for x in re.findall(r'-->[^\n]*?:(\d+):\d+', blk)]
        # the place that names the function is the one inside the body: for a postcondition the last line shown
        shown = [int(x) for x in re.findall(r'^\s*(\d+) \|', blk, re.M)]
        n = max(shown) if shown else (at[0] if at else 1)
        d = dict(obligation='%s: %s' % (where(lines, at[0] if at else n), msg), output=blk[:3000])
        if not blk.startswith('error[') and any(msg.startswith(x) for x in DEFINITE): bad.append(d)
        else: other.append(d)
    return bad, other

def verus(path, vac):
    t0 = time.time()
    try:
        p = subprocess.run(['verus', os.path.basename(path), '--crate-type', 'bin', '--triggers-mode', 'silent', '--rlimit', str(RLIMIT if not vac else 3), '--output-json', '--time', '--num-threads', '2',
            '--multiple-errors', '10' if not vac else '1'], cwd=os.path.dirname(path), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=400)
        out, err = p.stdout.decode(errors='replace'), p.stderr.decode(errors='replace')
    except subprocess.TimeoutExpired: return None, 'no answer within 400 s', 400.0
    try: j = json.loads(out)
    except ValueError: j = None
    return j, err, time.time() - t0

def run_unit(prop, unit, work):
    u = dict(unit=unit, obligations=0, discharged=0, status='', smt_ms=0, wall_s=0, dropped=[], vacuity='', trusted=[], functions=[], assumed=[], failed=[], undecided=[])
    gen, rep = os.path.join(work, unit + '.rs'), os.path.join(work, unit + '.json')
    tool, tmpl = os.path.join(T, 'extract/debug/extract'), os.path.join(V, 'units', unit + '.rs')
    p = subprocess.run([tool, REPO, tmpl, gen, rep], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0:
        u['status'] = 'anchor lost'; u['undecided'].append(dict(unit=unit, why=p.stdout.decode(errors='replace').strip()[-600:])); return u
    r = json.load(open(rep)); text = open(gen).read()
    u['functions'] = r['functions']; u['dropped'] = r['changes']; u['assumed'] = r['assumed']; u['trusted'] = trusted(text)
    # vacuity, at the same time
    vac = None
    ex = ThreadPoolExecutor(1)
    vgen = os.path.join(work, unit + '_vac.rs')
    if subprocess.run([tool, REPO, tmpl, vgen, rep + '.v', '--vacuity'], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0:
        # the proofs of lemmas were checked above
        vtext = re.sub(r'(?<!#\[via_fn\]\n)(?<!#\[verifier::external_body\]\n)^((?:pub )?proof fn )', r'#[verifier::external_body] \1', open(vgen).read(), flags=re.M)
        open(vgen, 'w').write(vtext)
        vac = ex.submit(verus, vgen, True)
    j, err, wall = verus(gen, False)
    u['wall_s'] = round(wall, 1)
    if j is None or 'verification-results' not in j:
        u['status'] = 'no result'; u['undecided'].append(dict(unit=unit, why=err[:800])); return u
    vr = j['verification-results']
    bad, other = diagnostics(err, text)
    try: u['smt_ms'] = j['times-ms']['smt']['total']
    except KeyError: pass
    u['obligations'] = vr.get('verified', 0) + vr.get('errors', 0); u['discharged'] = vr.get('verified', 0)
    if vr.get('success'): u['status'] = 'verified'
    elif vr.get('encountered-vir-error') or not u['obligations']:
        u['status'] = 'outside the verifier\'s language'; u['undecided'].append(dict(unit=unit, why=(other or bad or [dict(output=err[:600])])[0]['output'][:800])); return u
    else:
        u['status'] = 'failed'
        u['failed'] = [dict(unit=unit, **b) for b in bad]
        if not bad: u['undecided'].append(dict(unit=unit, why=(other or [dict(output=err[:600])])[0]['output'][:800])); u['status'] = 'resource limit'
    if vac:
        j, err, _ = vac.result()
        n = vtext.count('proof { assert(false); }')
        vlines = vtext.split('\n')
        # a body where the solver gives up rather than proving false counts too
        gave_up = {int(x) for b in re.split(r'\n(?=error|warning|note)', '\n' + err) if 'Resource limit' in b for x in re.findall(r'-->[^\n]*?:(\d+):\d+', b)[:1]}
        ends = [i + 1 for i, l in enumerate(vlines) if l.strip() == 'proof { assert(false); }']
        hit = {min((e for e in ends if e >= g), default=0) for g in gave_up}
        hit |= {int(x) for x in re.findall(r'-->[^\n]*?:(\d+):\d+', err) if int(x) <= len(vlines) and 'assert(false)' in vlines[int(x) - 1]}
        u['vacuity'] = '%d of %d bodies reachable' % (len(hit - {0}), n)
        missed = [where(vlines, i + 1) for i, l in enumerate(vlines) if l.strip() == 'proof { assert(false); }' and (i + 1) not in hit]
        if missed and u['status'] == 'verified': u['status'] = 'vacuous'; u['undecided'].append(dict(unit=unit, why='vacuous: ' + ', '.join(missed)))
    return u

def stage(prop, tier):
    us = units_of(prop)
    res = dict(units=[], failed=[], undecided=[])
    if not us: return res
    e = build()
    if e: res['undecided'].append(dict(unit='*', why='the extractor does not build: ' + e)); return res
    work = os.path.join(T, 'work', prop, 'units')
    if os.path.isdir(work): shutil.rmtree(work)
    os.makedirs(work)
    with ThreadPoolExecutor(3) as ex:
        for u in ex.map(lambda x: run_unit(prop, x, work), us):
            res['units'].append(u); res['failed'] += u['failed']; res['undecided'] += u['undecided']
    left = unproved(work, res['units'])
    for u in res['units']: u['trusted'] += ['contract assumed of ' + a for a in left if a in {x.split(' (')[0] for x in u['assumed']}]
    return res

def unproved(work, used):
    """which of the contracts assumed in the units `used` no unit proves. A required method of a trait is proved by its implementations."""
    def ext(u):
        out = os.path.join(work, 'x_' + u)
        p = subprocess.run([os.path.join(T, 'extract/debug/extract'), REPO, os.path.join(V, 'units', u + '.rs'), out + '.rs', out + '.json'], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        return json.load(open(out + '.json'))['functions'] if p.returncode == 0 else []
    with ThreadPoolExecutor(4) as ex: proved = {f.split(' (')[0] for fs in ex.map(ext, all_units()) for f in fs}
    out = set()
    for a in {a.split(' (')[0] for u in used for a in u['assumed']} - proved:
        t, m = a.rsplit('::', 1)
        if not any(re.match(re.escape(t) + r'[</]', f) and f.endswith('::' + m) for f in proved): out.add(a)
    return sorted(out)

GENERAL = ['what the rules R1-R8 of the extraction and its type replacements change (listed per unit under "dropped") has the meaning they claim',
    'a unit assumes the contracts of the functions it does not prove itself; those no unit proves are listed in the trusted base as "contract assumed of"; the others are discharged by the checks of the properties whose units prove them',
    'the specifications vstd gives for std, and those listed as trusted', 'usize has 64 bits only where a contract says so; arithmetic is machine arithmetic, checked for overflow']
def assumptions(prop): return GENERAL if units_of(prop) else []

PROOF = {'C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C13', 'C14'}      # properties every part of which is decided by a contract (bin/mkmanifest)
def level(p):
    us = units_of(p)
    cov = '; '.join(c[p] for u in us for c in [all_units()[u][1]] if p in c)
    if p in PROOF: return ('proof', 'contracts on the functions cut out of /repo, discharged by Verus for all inputs: ' + cov + '. The oracle stage replays on the compiled code, within bounds, what the contracts say.')
    if us: return ('exploration', 'proved: ' + cov + '. The rest of the property is decided within bounds, by evaluating the same postconditions on generated cases of the compiled code.')
    return ('exploration', 'bounded: the postconditions are evaluated on generated cases of the compiled code; see DESIGN.md for why no unit covers it')
def technique(p):
    return 'contract-based deductive verification (Verus) of functions extracted from /repo; run-time evaluation of the same contracts as bounded stand-in and replay' if units_of(p) else 'run-time evaluation of contracts on the compiled code (bounded stand-in)'
