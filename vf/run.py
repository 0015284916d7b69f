#!/usr/bin/env python3
"""Contract verification driver.

usage: run.py check PID            decide one property (see props.py)
       run.py proof UNIT[:NAME]..  run single proofs, verbosely
       run.py replay FILE          replay a recorded counterexample natively
       run.py list

Every run takes the sources from /repo's working tree.
"""
import ast
import atexit
import concurrent.futures as cf
import json
import os
import re
import resource
import shutil
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VF_REPO', '/repo')
SPECS = os.path.join(VERIF, 'specs')
EVID = os.path.join(VERIF, 'evidence')
sys.path.insert(0, HERE)
import cscan  # noqa: E402

TIER = os.environ.get('VERIF_TIER', 'quick')
try:
    SEED = int(os.environ.get('VERIF_SEED', '1'))
except ValueError:
    SEED = 1
MEM = 6 << 30
PROVE_ONLY = '-p' in sys.argv


def limit():
    resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))


def sh(cmd, timeout=None, mem=True, cwd=None, env=None):
    t = time.time()
    try:
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE,
                             stderr=subprocess.STDOUT, cwd=cwd, env=env,
                             stdin=subprocess.DEVNULL,
                             preexec_fn=limit if mem else None,
                             start_new_session=True)
        out, _ = p.communicate(timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        out, _ = p.communicate()
        rc = -99
    return rc, out.decode('utf-8', 'replace'), time.time() - t


class Unit:
    def __init__(self, path):
        self.path = path
        text = open(path).read()
        m = re.search(r'/\*@(.*?)@\*/', text, re.S)
        d = ast.literal_eval(m.group(1).strip())
        self.name = os.path.basename(path)[:-2]
        self.inst = d['inst']
        self.loops = d.get('loops', {})
        self.cuts = d.get('cuts', {})
        self.assumes = d.get('assumes', [])
        self.proofs = {}
        for p in d['proofs']:
            p = dict(p)
            p['unit'] = self
            p['defs'] = d.get('defs', []) + p.get('defs', [])
            p.setdefault('link', d.get('link', []))
            if p['link'] == 'ALL':
                p['link'] = program(self.inst)
            self.proofs[p['name']] = p


def load_units():
    us = {}
    for f in sorted(os.listdir(SPECS)):
        if f.endswith('.c'):
            u = Unit(os.path.join(SPECS, f))
            us[u.name] = u
    return us


def prepare(unit, proof, bdir, annotate):
    """Copy the instrumented sources; return the list of problems."""
    problems = []
    src = os.path.join(bdir, 'SRC')
    relevant = set(proof.get('loopfns', [proof['fn']]))
    # Top-level headers lack include guards: the copies get one, such that
    # units may include them in front of the source.
    os.makedirs(src, exist_ok=True)
    for h in os.listdir(REPO):
        if h.endswith('.h') and h != 'config.h':
            with open(os.path.join(src, h), 'w') as f:
                f.write('#pragma once\n' + open(os.path.join(REPO, h)).read())
    for rel in unit.inst:
        text = open(os.path.join(REPO, rel)).read()
        orig = text
        if annotate:
            cl = {f: c for f, c in unit.loops.get(rel, {}).items()
                  if f in relevant}
            cl = {f: [adapt(rel, f, x, orig) for x in c]
                  for f, c in cl.items()}
            text, pr = cscan.inject(text, cl)
            problems += pr
            for fn, cuts in unit.cuts.get(rel, {}).items():
                if fn in relevant:
                    text, pr = cscan.cut(text, fn, cuts)
                    problems += pr
        dst = os.path.join(src, rel)
        os.makedirs(os.path.dirname(dst), exist_ok=True)
        with open(dst, 'w') as f:
            f.write(text)
    return problems


_REF = None


def ref():
    """Token snapshots of the annotated functions; only used to follow renamed
    locals, never verified."""
    global _REF
    if _REF is None:
        try:
            _REF = json.load(open(os.path.join(HERE, 'names.json')))
        except OSError:
            _REF = {}
    return _REF


def adapt(rel, fn, clause, text):
    """Follow a pure renaming of identifiers within fn."""
    if not clause:
        return clause
    r = ref().get(rel + ':' + fn)
    f = cscan.functions(text).get(fn)
    if r is None or f is None:
        return clause
    m = cscan.local_renames([(k, t) for k, t in r],
                            [(t[0], t[1]) for t in f.toks])
    if not m:
        return clause
    m = {a: b for a, b in m.items() if a != b}
    if not m:
        return clause
    return re.sub(r'[A-Za-z_]\w*', lambda g: m.get(g.group(), g.group()),
                  clause)


def includes():
    return ['-I' + HERE, '-I' + REPO, '-I' + SPECS, '-I' + HERE + '/fallback']


def defs(proof):
    return ['-DP_' + proof['name']] + ['-D' + d for d in proof['defs']]


CHECKS = ['--no-malloc-may-fail', '--json-ui']


def parse_json(out):
    """cbmc --json-ui output -> (results, messages)."""
    try:
        data = json.loads(out)
    except ValueError:
        return None, out[-2000:]
    res, msgs = None, []
    for e in data:
        if 'result' in e:
            res = e['result']
        if 'messageText' in e:
            msgs.append(e['messageText'])
    return res, '\n'.join(msgs)


def prove(proof, bdir, log):
    """Unbounded proof.  Returns (verdict, info)."""
    unit = proof['unit']
    info = {'obligations': 0, 'discharged': 0, 'failed': [], 'time': 0.0}
    problems = prepare(unit, proof, bdir, True)
    if problems:
        return 'mismatch', dict(info, why='; '.join(problems))
    gb, gb2 = os.path.join(bdir, 'a.gb'), os.path.join(bdir, 'b.gb')
    harness = proof.get('harness', 'h_' + proof['name'])
    cmd = ['goto-cc', '-DVF_PROOF'] + defs(proof) + ['-I' + bdir] + \
        includes() + ['--function', harness, unit.path, '-o', gb]
    rc, out, t = sh(cmd, 120)
    info['time'] += t
    if rc != 0:
        log(out)
        return 'mismatch', dict(info, why='goto-cc: ' + tail(out))
    cmds = [' '.join(cmd)]
    for fp in proof.get('rfp', []):
        rcmd = ['goto-instrument', '--restrict-function-pointer', fp, gb, gb]
        rc, out, t = sh(rcmd, 120)
        if rc != 0:
            log(out)
            return 'mismatch', dict(info, why='goto-instrument: ' + tail(out))
    if proof.get('mode', 'contract') == 'contract':
        icmd = ['goto-instrument', '--dfcc', harness,
                '--enforce-contract-rec' if proof.get('rec') else
                '--enforce-contract', proof['fn']]
        for r in replace_list(unit, proof):
            icmd += ['--replace-call-with-contract', r]
        if has_loops(unit, proof):
            icmd += ['--apply-loop-contracts']
        icmd += proof.get('gi', [])
        icmd += [gb, gb2]
    else:
        icmd = None
        gb2 = gb
        if proof.get('replace') or has_loops(unit, proof):
            gb2 = os.path.join(bdir, 'b.gb')
            icmd = ['goto-instrument', '--dfcc', harness]
            for r in replace_list(unit, proof):
                icmd += ['--replace-call-with-contract', r]
            if has_loops(unit, proof):
                icmd += ['--apply-loop-contracts']
            icmd += proof.get('gi', [])
            icmd += [gb, gb2]
    if icmd:
        rc, out, t = sh(icmd, 300)
        info['time'] += t
        cmds.append(' '.join(icmd))
        if rc != 0:
            log(out)
            return 'mismatch', dict(info, why='goto-instrument: ' + tail(out))
    ccmd = ['cbmc'] + CHECKS + ['--unwind', str(proof.get('punwind', 70)),
                                '--unwinding-assertions'] + \
        proof.get('cbmc', []) + [gb2]
    if os.environ.get('VF_KEEP'):
        shutil.copy(gb, os.environ['VF_KEEP'] + '.a')
        print(' '.join(icmd or []))
        shutil.copy(gb2, os.environ['VF_KEEP'])
    if os.environ.get('VF_TRACE'):
        rc, out, t = sh([c for c in ccmd if c != '--json-ui'] +
                        ['--property', os.environ['VF_TRACE'], '--trace',
                         '--compact-trace'], 400)
        print(out)
    cmds.append(' '.join(ccmd))
    info['cmd'] = ' && '.join(cmds)
    t0, early = time.time(), None
    p = subprocess.Popen(ccmd, stdout=subprocess.PIPE,
                         stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL,
                         preexec_fn=limit, start_new_session=True)
    try:
        try:
            out, _ = p.communicate(timeout=proof.get('slow', 100))
        except subprocess.TimeoutExpired:
            # Failing proofs tend to be slow: look for a failing input.
            if has_harness(proof) and not PROVE_ONLY:
                r = native_search(proof, bdir, proof.get('search_s', 20))
                if r[0] not in (None, 0, -99) and r[2] is not None:
                    early = r
                    raise
            out, _ = p.communicate(timeout=max(
                1, proof.get('timeout', 400) - (time.time() - t0)))
        rc, out = p.returncode, out.decode('utf-8', 'replace')
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        rc = -99
    info['time'] += time.time() - t0
    if early:
        return 'stopped', dict(info, why='stopped, failing input found',
                               early=early)
    if rc == -99:
        return 'timeout', dict(info, why='cbmc timed out')
    res, msgs = parse_json(out)
    if res is None or rc not in (0, 10):
        log(msgs)
        return 'mismatch', dict(info, why='cbmc: ' + tail(msgs))
    reach_ok = reach_bad = 0
    unwind_bad = []
    for r in res:
        d = r.get('description', '')
        if d.startswith('VF-REACH'):
            if r['status'] == 'FAILURE':
                reach_ok += 1
            else:
                reach_bad += 1
                info.setdefault('unreached', []).append(d)
            continue
        if d.startswith('VF-OPT') and r['status'] != 'SUCCESS':
            continue
        info['obligations'] += 1
        if r['status'] == 'SUCCESS':
            info['discharged'] += 1
        else:
            s = '%s: %s' % (r['property'], d)
            if '.unwind.' in r['property'] or 'recursion' in r['property']:
                unwind_bad.append(s)
            info['failed'].append(s)
    info['reach'] = reach_ok
    if unwind_bad and all(u.startswith('__CPROVER_contracts_')
                          for u in unwind_bad):
        # The book keeping went astray along with a failed obligation.
        rest = [f for f in info['failed']
                if not f.startswith('__CPROVER_contracts_')]
        if rest:
            info['failed'] = rest
            unwind_bad = []
    if unwind_bad:
        log('\n'.join(info['failed']))
        return 'mismatch', dict(info, why='loop without a contract: ' +
                                unwind_bad[0])
    if info['failed']:
        log('\n'.join(info['failed']))
        return 'failed', info
    if reach_bad or reach_ok == 0 or info['obligations'] == 0:
        return 'vacuous', dict(info, why='unreached: %s' %
                               info.get('unreached'))
    return 'proved', info


def has_loops(unit, proof):
    rel = set(proof.get('loopfns', [proof['fn']]))
    return any(f in rel and any(c) for d in unit.loops.values()
               for f, c in d.items())


def tail(s, n=600):
    s = s.strip()
    errs = [l for l in s.splitlines() if 'error' in l.lower()]
    return ('\n'.join(errs) or s)[-n:]


def has_harness(proof):
    b = proof.get('bounded', 'b_' + proof['name'])
    return b is not None and re.search(
        r'\b%s\(void\)' % b, open(proof['unit'].path).read()) is not None


def replace_list(unit, proof):
    """Contracts of functions which are gone are dropped."""
    have = set(proof.get('ext', []))
    for rel in unit.inst:
        have |= set(cscan.functions(open(os.path.join(REPO, rel)).read()))
    spec = open(unit.path).read()
    return [r for r in proof.get('replace', [])
            if r in have or r in cscan.functions(spec)]


def bounded(proof, bdir, log):
    """Fallback: bounded harness.  Returns (verdict, info)."""
    unit = proof['unit']
    info = {'obligations': 0, 'discharged': 0, 'failed': [], 'time': 0.0}
    b = proof.get('bounded', 'b_' + proof['name'])
    if not has_harness(proof):
        return 'none', dict(info, why='no bounded harness')
    prepare(unit, proof, bdir, False)
    if proof.get('nobmc'):
        exe, out = build_native(proof, bdir)
        if exe is None:
            return 'nocompile', dict(info, why='clang: ' + tail(out))
        return 'searchonly', dict(info, why='too large to unroll', bound=
                                  'seeded random inputs, not exhaustive')
    gb = os.path.join(bdir, 'c.gb')
    n = proof.get('n', 4)
    unwind = proof.get('unwind', n + 3)
    cmd = ['goto-cc', '-DVF_BOUNDED', '-DVF_N=%d' % n,
           '-DVF_BMAIN=' + b] + defs(proof) + \
        ['-I' + bdir] + includes() + ['--function', 'vf_bmain', unit.path,
                                      '-o', gb]
    rc, out, t = sh(cmd, 120)
    info['time'] += t
    if rc != 0:
        log(out)
        return 'nocompile', dict(info, why='goto-cc: ' + tail(out))
    for fp in proof.get('brfp', proof.get('rfp', [])):
        rcmd = ['goto-instrument', '--restrict-function-pointer', fp, gb, gb]
        sh(rcmd, 120)
    ecmd = ['cbmc'] + CHECKS + ['--no-unwinding-assertions', '--unwind',
                                str(unwind)] + proof.get('bcbmc', [])
    ccmd = ecmd + ['--trace', '--stop-on-fail', gb]
    # An assertion at the end of the harness tells whether it is reached.
    ecmd += ['--no-standard-checks', '--property', 'vf_bmain.assertion.1',
             os.path.join(bdir, 'd.gb')]
    rc, out, t = sh(ccmd, proof.get('btimeout', 240))
    info['time'] += t
    info['cmd'] = ' '.join(cmd) + ' && ' + ' '.join(ccmd)
    info['bound'] = 'sizes up to %d, loops unwound %d times' % (n, unwind)
    if rc == -99:
        return 'timeout', dict(info, why='bounded cbmc timed out')
    try:
        data = json.loads(out)
    except ValueError:
        return 'toolerror', dict(info, why=tail(out))
    vals, fails, status = {}, [], None

    def walk(e):
        for st in e:
            if st.get('stepType') == 'assignment':
                m = re.match(r'vf_rec\[(\d+)', st.get('lhs', ''))
                if m:
                    v = st.get('value', {})
                    if 'data' in v:
                        vals[int(m.group(1))] = int(re.sub('[ul]+$', '',
                                                           v['data']))
            elif st.get('stepType') == 'failure':
                fails.append('%s: %s' % (st.get('property'),
                                         st.get('reason')))
    for e in data:
        if 'cProverStatus' in e:
            status = e['cProverStatus']
        if 'trace' in e:
            walk(e['trace'])
        for r in e.get('result', []) if 'result' in e else []:
            info['obligations'] += 1
            if r['status'] == 'SUCCESS':
                info['discharged'] += 1
            elif 'trace' in r:
                walk(r['trace'])
                fails.append('%s: %s' % (r['property'], r['description']))
    if status == 'success':
        ecc = [x for x in cmd if x != gb] + [ecmd[-1], '-DVF_BEND']
        rc, out, t = sh(ecc, 120)
        rc, out, t = sh(ecmd, proof.get('btimeout', 240))
        info['time'] += t
        if rc != 10:
            return 'toolerror', dict(info, why='bounded harness is vacuous')
        return 'pass', info
    if status == 'failure':
        info['failed'] = fails
        k = max(vals) + 1 if vals else 0
        info['values'] = [vals.get(i, 0) for i in range(k)]
        return 'cex', info
    return 'toolerror', dict(info, why=tail(out))


OBJS = {}
OBJLOCK = threading.Lock()
OBJDIR = []


def program(inst):
    """Everything but the entry points and architecture specific code."""
    out = []
    for d in ('', 'libks/'):
        for f in sorted(os.listdir(os.path.join(REPO, d))):
            if (f.endswith('.c') and d + f not in inst and f not in
                    ('knfmt.c', 't.c', 'config.c') and
                    not f.startswith(('fuzz-', 'arch', 'compat-', 'test-'))):
                out.append(d + f)
    return out


def linked(lc, rel):
    """Object of a source file of /repo, compiled once per run."""
    key = ' '.join(lc) + rel
    with OBJLOCK:
        if not OBJDIR:
            OBJDIR.append(tempfile.mkdtemp(prefix='vfo.'))
            atexit.register(shutil.rmtree, OBJDIR[0], True)
        lock = OBJS.setdefault(key, [threading.Lock(), None, len(OBJS)])
    with lock[0]:
        if lock[1] is None:
            o = os.path.join(OBJDIR[0], '%d.o' % lock[2])
            rc, out, t = sh(lc + ['-c', os.path.join(REPO, rel), '-o', o],
                            120, mem=False)
            lock[1] = (rc, out, o)
        return lock[1]


def build_native(proof, bdir, n=None):
    unit = proof['unit']
    prepare(unit, proof, bdir, False)
    b = proof.get('bounded', 'b_' + proof['name'])
    exe = os.path.join(bdir, 'native%s' % (n or ''))
    nn = n or proof.get('n', 4)
    cc = ['clang', '-g', '-O1', '-fno-pie', '-w', '-fsanitize=address,undefined',
          '-fno-sanitize-recover=all', '-fno-sanitize=' +
          proof.get('nosan', 'alignment'), '-DVF_NATIVE', '-DVF_N=%d' % nn,
          '-DVF_ENTRY=' + b] + defs(proof) + ['-I' + bdir] + includes()
    o1 = os.path.join(bdir, 'u.o')
    rc, out, t = sh(cc + ['-c', unit.path, '-o', o1], 120, mem=False)
    if rc != 0:
        return None, out
    # The rest of the program, as is.
    lc = [c for c in cc if not c.startswith(('-DVF_', '-DP_')) and
          c != '-I' + bdir]
    with cf.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda rel: linked(lc, rel), proof['link']))
    for rc, out, o in res:
        if rc != 0:
            return None, out
    objs = [o for rc, out, o in res]
    rc, out, t = sh(cc + [o1] + objs + [os.path.join(HERE, 'native.c'), '-o', exe,
                          '-no-pie', '-Wl,-z,lazy',
                          '-Wl,--unresolved-symbols=ignore-all'],
                    120, mem=False)
    if rc != 0:
        return None, out
    return exe, ''


NENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:'
            'exitcode=1:allocator_may_return_null=1',
            UBSAN_OPTIONS='print_stacktrace=0:exitcode=1')


def native_values(proof, bdir, values):
    exe, out = build_native(proof, bdir)
    if exe is None:
        return None, 'native build failed: ' + tail(out)
    vf = os.path.join(bdir, 'values')
    with open(vf, 'w') as f:
        f.write('\n'.join(str(v) for v in values) + '\n')
    rc, out, t = sh([exe, '-v', vf], 60, mem=False, cwd=bdir, env=NENV)
    return rc, out


def native_search(proof, bdir, seconds):
    n = proof.get('nn', 40)
    exe, out = build_native(proof, bdir, n)
    if exe is None:
        return None, 'native build failed: ' + tail(out), None
    jobs, count = proof.get('jobs', 1), proof.get('count', 100000000)
    # A fixed number of inputs is a fixed set of inputs, whatever the seed.
    base = (1 if 'count' in proof else SEED) * 1000003
    if TIER == 'thorough' and 'count' in proof:
        count, seconds = count * 5, seconds * 5

    def one(i):
        rc, out, t = sh([exe, '-r', str(base + i * 1000000), str(count),
                         str(seconds)], seconds + 60, mem=False, cwd=bdir,
                        env=NENV)
        m = re.search(r'VF-SEED: (\d+)', out)
        return rc, out, (int(m.group(1)) if m else None)
    with cf.ThreadPoolExecutor(jobs) as ex:
        res = list(ex.map(one, range(jobs)))
    for r in res:
        if r[0] != 0:
            return r
    n = sum(int(x) for r in res for x in re.findall(r'VF-OK (\d+) runs', r[1]))
    return 0, 'VF-OK %d runs\n' % n, None


def decide(proof, verbose=False):
    """Decide one proof; returns a result dict."""
    t0 = time.time()
    lines = []

    def log(s):
        lines.append(s)
    bdir = tempfile.mkdtemp(prefix='vf.')
    res = {'unit': proof['unit'].name, 'proof': proof['name'],
           'fn': proof['fn'], 'failed': [], 'obligations': 0,
           'discharged': 0, 'how': ''}
    try:
        if proof.get('mode') == 'native':
            return decide_native(proof, bdir, res)
        v, info = prove(proof, bdir, log)
        res['verdict'] = v
        res['obligations'] = info['obligations']
        res['discharged'] = info['discharged']
        res['failed'] = info['failed']
        res['cmd'] = info.get('cmd', '')
        res['solver_s'] = round(info['time'], 2)
        res['why'] = info.get('why', '')
        res['reach'] = info.get('reach', 0)
        if PROVE_ONLY or (v == 'proved' and TIER != 'thorough'):
            res['status'] = v
            return res
        # A failing input: first a seeded search with the compiled harness,
        # then the bounded harness, whose counterexample is replayed.
        searched = False
        if has_harness(proof):
            secs = 60 if TIER == 'thorough' else proof.get('search_s', 20)
            rc, out, seed = info.get('early') or native_search(proof, bdir,
                                                               secs)
            res['search_out'] = out[-1500:]
            if rc is not None and rc != 0 and rc != -99 and seed is not None:
                res['status'] = 'violation'
                res['how'] = 'failing input found by search'
                res['seed'] = seed
                res['n'] = proof.get('nn', 40)
                res['replay_out'] = out[-9000:]
                return res
            searched = rc == 0
        bv, binfo = bounded(proof, bdir, log)
        res['bounded'] = bv
        res['bound'] = binfo.get('bound', '')
        res['solver_s'] = round(info['time'] + binfo['time'], 2)
        res['bobligations'] = binfo['obligations']
        if bv == 'cex':
            rc, out = native_values(proof, bdir, binfo['values'])
            res['values'] = binfo['values']
            res['bfailed'] = binfo['failed']
            res['replay_out'] = out[-9000:]
            res['replay_rc'] = rc
            if rc is not None and rc not in (0, 77):
                res['status'] = 'violation'
                res['how'] = 'counterexample replayed'
                return res
        if v == 'failed' or bv == 'cex':
            res['status'] = 'violation-nofail'
            return res
        if v == 'proved':
            # Thorough: the bounded harness agreed with the proof.
            res['status'] = 'proved'
            return res
        if bv == 'pass' or searched:
            res['status'] = 'bounded'
            return res
        if bv in ('nocompile', 'none'):
            res['status'] = 'detached'
            res['why'] += ' | ' + binfo.get('why', '')
            return res
        res['status'] = 'error'
        res['why'] += ' | ' + binfo.get('why', '')
        return res
    finally:
        res['wall_s'] = round(time.time() - t0, 2)
        res['log'] = '\n'.join(lines)[-6000:]
        shutil.rmtree(bdir, ignore_errors=True)


def decide_native(proof, bdir, res):
    """Stand-in for code out of the verifier's reach: seeded inputs only."""
    secs = proof.get('search_s', 6)
    if TIER == 'thorough':
        secs = max(secs, 60)
    res['verdict'] = 'native'
    res['why'] = 'out of reach of the verifier: ' + proof.get('reason', '')
    rc, out, seed = native_search(proof, bdir, secs)
    res['search_out'] = out[-1500:]
    if rc is None:
        res['status'] = 'detached'
        res['why'] = out[-600:]
    elif rc != 0 and rc != -99 and seed is not None:
        res['status'] = 'violation'
        res['how'] = 'failing input found by search'
        res['seed'] = seed
        res['n'] = proof.get('nn', 40)
        res['replay_out'] = out[-9000:]
    elif rc == 0:
        m = re.search(r'VF-OK (\d+) runs', out)
        res['status'] = 'bounded'
        res['bound'] = '%s seeded random inputs of size up to %d' % (
            m.group(1) if m else '?', proof.get('nn', 40))
    else:
        res['status'] = 'error'
        res['why'] = 'native harness did not finish: ' + out[-500:]
    return res


def run_all(proofs, jobs=8, show=None):
    out = []
    with cf.ThreadPoolExecutor(jobs) as ex:
        futs = [ex.submit(decide, p) for p in
                sorted(proofs, key=lambda p: -p.get('cost', 1))]
        for f in cf.as_completed(futs):
            r = f.result()
            if show:
                show(r)
            out.append(r)
    return out


def cmd_proof(args):
    us = load_units()
    ps = []
    for a in args:
        u, _, n = a.partition(':')
        for k, p in us[u].proofs.items():
            if not n or k == n:
                ps.append(p)

    def show(r):
        print('%-10s %s:%s %d/%d reach=%s %.1fs %s' % (
            r['status'], r['unit'], r['proof'], r['discharged'],
            r['obligations'], r.get('reach'), r['wall_s'], r.get('why', '')))
        if r['status'] != 'proved':
            for f in r['failed'][:25]:
                print('    ', f)
            for k in ('bounded', 'bfailed', 'values', 'how', 'replay_rc',
                      'replay_out', 'search_out'):
                if r.get(k):
                    print('    ', k, ':', r[k])
            if '-v' in sys.argv:
                print(r['log'])
        sys.stdout.flush()
    rs = run_all(ps, show=show)
    return 0 if all(r['status'] in ('proved', 'bounded') for r in rs) else 1


def repo_compiles(files):
    for f in files:
        if not f.endswith('.c'):
            continue
        rc, out, _ = sh(['gcc', '-fsyntax-only', '-w', '-I' + REPO, '-I' +
                         HERE + '/fallback', os.path.join(REPO, f)], 60)
        if rc != 0:
            return out
    return None


def cmd_check(pid):
    t0 = time.time()
    import props
    prop = props.PROPS[pid]
    us = load_units()
    ps = []
    for ref_ in prop['proofs']:
        u, _, n = ref_.partition(':')
        for k, p in us[u].proofs.items():
            if not n or k == n:
                if p.get('thorough') and TIER != 'thorough':
                    continue
                ps.append(p)
    os.makedirs(EVID, exist_ok=True)
    for f in os.listdir(EVID):
        if f.startswith(pid + '.') and f.endswith('.replay'):
            os.unlink(os.path.join(EVID, f))

    def show(r):
        print('%-16s %s:%s (%s) %d/%d obligations %.1fs%s' % (
            r['status'], r['unit'], r['proof'], r['fn'], r['discharged'],
            r['obligations'], r['wall_s'],
            ' -- ' + r['why'] if r.get('why') else ''))
        sys.stdout.flush()
    rs = run_all(ps, show=show)
    srcs = sorted({s for p in ps for s in p['unit'].inst})
    rc = 0
    nviol = 0
    viol = [r for r in rs if r['status'] == 'violation']
    nofail = [r for r in rs if r['status'] == 'violation-nofail']
    for r in viol + nofail:
        path = os.path.join(EVID, '%s.%s.%s.replay' % (pid, r['unit'],
                                                       r['proof']))
        with open(path, 'w') as f:
            json.dump({k: r.get(k) for k in (
                'unit', 'proof', 'fn', 'status', 'how', 'failed', 'bfailed',
                'values', 'seed', 'n', 'replay_out', 'cmd', 'log', 'bound')},
                f, indent=1)
        nviol += 1
        rc = 1
        if r['status'] == 'violation':
            print('VIOLATION property=%s replay=%s' % (pid, path))
        else:
            print('VIOLATION property=%s replay=%s no-failing-input-found' %
                  (pid, path))
    attached = [r for r in rs if r['status'] in ('proved', 'bounded')]
    errs = [r for r in rs if r['status'] == 'error']
    if rc == 0:
        bad = repo_compiles(srcs)
        if bad:
            print('ERROR: /repo does not compile:\n' + bad[-2000:])
            rc = 2
        elif not attached:
            print('ERROR: no contract could be attached')
            rc = 2
        elif errs:
            print('ERROR: undecided: ' + ', '.join(
                '%s:%s' % (r['unit'], r['proof']) for r in errs))
            rc = 3
    by = lambda s: [r for r in rs if r['status'] == s]
    assumes = sorted({a for p in ps for a in p['unit'].assumes} |
                     set(prop.get('assumes', [])) | set(props.COMMON))
    ev = {
        'property': pid, 'tier': TIER, 'seed': SEED, 'level': 'proof',
        'wall_s': round(time.time() - t0, 2),
        'violations': nviol,
        'assumptions': assumes,
        'coverage': {
            'obligations': sum(r['obligations'] for r in rs),
            'discharged': sum(r['discharged'] for r in rs
                              if r['status'] == 'proved'),
            'checker_cmd': next((r['cmd'] for r in rs if r.get('cmd')), ''),
            'trusted_base': assumes,
            'back_end': 'cbmc 6.11 (goto-instrument --dfcc), built-in SAT '
                        'back end unless a proof names another',
            'solver_s': round(sum(r.get('solver_s', 0) for r in rs), 2),
            'functions_under_contract': sorted(
                {'%s (%s)' % (r['fn'], r['unit']) for r in rs}),
            'proved': ['%s:%s' % (r['unit'], r['proof'])
                       for r in by('proved')],
            'bounded_only': [{'proof': '%s:%s' % (r['unit'], r['proof']),
                              'bound': r.get('bound'), 'why': r.get('why')}
                             for r in by('bounded')],
            'detached': [{'proof': '%s:%s' % (r['unit'], r['proof']),
                          'why': r.get('why')} for r in by('detached')],
            'reachability_covers': sum(r.get('reach', 0) for r in rs),
            'per_proof': [{k: r.get(k) for k in (
                'unit', 'proof', 'fn', 'status', 'obligations', 'discharged',
                'reach', 'solver_s', 'wall_s')} for r in rs],
        },
    }
    with open(os.path.join(EVID, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    for line in props.known(pid):
        print(line)
    return rc


def cmd_replay(path):
    d = json.load(open(path))
    us = load_units()
    proof = us[d['unit']].proofs[d['proof']]
    bdir = tempfile.mkdtemp(prefix='vf.')
    try:
        if d.get('seed') is not None:
            exe, out = build_native(proof, bdir, d['n'])
            rc, out, _ = sh([exe, '-r', str(d['seed']), '1', '60'], 60,
                            mem=False, cwd=bdir, env=NENV)
        elif d.get('values') is not None:
            rc, out = native_values(proof, bdir, d['values'])
        else:
            print('no failing input recorded; failed obligations:')
            print('\n'.join(d['failed']))
            return 1
        print(out)
        print('exit', rc)
        return rc
    finally:
        shutil.rmtree(bdir, ignore_errors=True)


def cmd_names():
    """Record the token snapshots of annotated functions (maintenance)."""
    us = load_units()
    out = {}
    for u in us.values():
        for rel, d in u.loops.items():
            fs = cscan.functions(open(os.path.join(REPO, rel)).read())
            for fn in d:
                if fn in fs:
                    out[rel + ':' + fn] = [[t[0], t[1]] for t in fs[fn].toks]
    with open(os.path.join(HERE, 'names.json'), 'w') as f:
        json.dump(out, f, sort_keys=True)
        f.write('\n')
    return 0


def main():
    a = sys.argv[1:]
    if len(a) >= 2 and a[0] == 'check':
        return cmd_check(a[1])
    if len(a) >= 2 and a[0] == 'proof':
        return cmd_proof([x for x in a[1:] if not x.startswith('-')])
    if len(a) == 2 and a[0] == 'replay':
        return cmd_replay(a[1])
    if a and a[0] == 'selftest':
        for t in ('goto-cc', 'goto-instrument', 'cbmc', 'clang', 'gcc'):
            if shutil.which(t) is None:
                print('missing', t)
                return 1
        load_units()
        return 0
    if a and a[0] == 'names':
        return cmd_names()
    if a and a[0] == 'list':
        for u in load_units().values():
            for p in u.proofs.values():
                print('%s:%s' % (u.name, p['name']), p['fn'])
        return 0
    print(__doc__)
    return 2


if __name__ == '__main__':
    sys.exit(main())
