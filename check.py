#!/opt/veriftools/pyvenv/bin/python3
"""check.py PROPERTY [--tier quick|thorough]

Compiles the harness of a property against /repo's current headers to LLVM IR,
executes it symbolically, replays counterexamples against a native sanitizer
build, writes the evidence file.  Exit 0: held; 1: VIOLATION; 2: broken check.
"""
import argparse
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
REPO = os.environ.get('VS_REPO', '/repo')


def log(*a):
    print(*a, flush=True)


CXX = ['-std=c++17', '-I', os.path.join(V, 'vs'), '-I', os.path.join(V, 'harness'), '-I', os.path.join(REPO, 'include'), '-w']


def compile_ll(src, out, defs, fp):
    t = out + '.raw.ll'
    cmd = ['clang++', '-O0', '-Xclang', '-disable-O0-optnone', '-ffp-contract=off', '-fno-discard-value-names', '-S',
           '-emit-llvm', '-ferror-limit=0', '-ftemplate-backtrace-limit=0'] + CXX + defs + ['-DVS_SYMBOLIC', src, '-o', t]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        return r.stderr
    r = subprocess.run(['opt', '-S', '-passes=sroa,simplifycfg', t, '-o', out], capture_output=True, text=True)
    if r.returncode:
        return r.stderr
    return None


def units_of(lines):
    """the entries of a harness: ranges of lines"""
    r, i = [], 0
    while i < len(lines):
        if re.match(r'[A-Z][A-Z_0-9]*\(', lines[i]):
            j = i
            if not re.search(r'[})];?\s*(//.*)?$', lines[i]) or (lines[i].startswith('ENTRY(') and '{' not in lines[i]):
                while j + 1 < len(lines) and not lines[j].startswith('}'):
                    j += 1
            r.append((i, j))
            i = j
        i += 1
    return r


def compile_unit(src, ll, defs, fp, work):
    """entries that use an operation the library no longer offers for their types are left out"""
    cur, dropped = src, []
    for _ in range(6):
        err = compile_ll(cur, ll, defs, fp)
        if not err:
            break
        b = os.path.basename(src)
        at = {int(x) - 1 for x in re.findall(r'(?:^|[\s/])%s:(\d+):' % re.escape(b), err)}
        lines = open(cur).read().split('\n')
        bad = [(i, j) for i, j in units_of(lines) if any(i <= k <= j for k in at)]
        if not bad:
            break
        for i, j in bad:
            dropped.append(lines[i][:60])
            lines[i:j + 1] = [''] * (j + 1 - i)
        d = os.path.join(work, 'part')
        os.makedirs(d, exist_ok=True)
        cur = os.path.join(d, b)
        with open(cur, 'w') as f:
            f.write('\n'.join(lines))
    return cur, err, dropped


class Native:
    def __init__(self, src, work, defs, exact=False):
        self.exe = os.path.join(work, 'native')
        self.src, self.defs, self.work = src, defs, work
        self.proc = None
        self.exact = exact

    def start(self):
        if self.proc is None:
            cmd = ['g++', '-O0', '-g', '-rdynamic', '-ffp-contract=off', '-fsanitize=address,undefined', '-fno-sanitize-recover=all'] + CXX + self.defs + \
                (['-DVS_EXACT'] if self.exact else []) + \
                [self.src, os.path.join(V, 'vs', 'vs_native.cpp'), '-o', self.exe, '-ldl', '-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=_Znwm,--wrap=_Znam']
            self.proc = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)

    def ready(self):
        self.start()
        err = self.proc.stderr.read() if self.proc.stderr and not self.proc.stderr.closed else ''
        self.proc.wait()
        return self.proc.returncode == 0, err

    def run(self, entry, path, fill=0, leaks=True, tol=None):
        env = dict(os.environ)
        env.pop('VS_FILL', None)
        env.pop('VS_TOL', None)
        if tol:
            env['VS_TOL'] = tol
        if fill or not leaks:
            env['VS_NOLEAK'] = '1' # the symbolic run decides leaks
        if fill:
            env['VS_FILL'] = str(fill)
        env['ASAN_OPTIONS'] = 'exitcode=78:detect_leaks=0:malloc_fill_byte=190:max_malloc_fill_size=268435456:allocator_may_return_null=1:abort_on_error=0:detect_stack_use_after_return=1'
        env['UBSAN_OPTIONS'] = 'halt_on_error=1:exitcode=78'
        d = tempfile.mkdtemp(dir=self.work)
        try:
            r = subprocess.run([self.exe, entry, path], capture_output=True, text=True, env=env, cwd=d, timeout=60, errors='replace')
            return r.returncode, (r.stdout + r.stderr)[-20000:]
        except subprocess.TimeoutExpired:
            return 77, 'no termination within 60 s'


def header_opts(src):
    o = {}
    for ln in open(src):
        m = re.match(r'//\s*vs:\s*(.*)', ln)
        if m:
            for kv in m.group(1).split():
                k, _, v = kv.partition('=')
                o[k] = v
    return o


def load_known():
    p = os.path.join(V, 'known-findings.txt')
    r = []
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            m = re.match(r'known: property=(\S+) entry=(\S+) match=(.*?) :: (.*)$', ln)
            if m:
                r.append(m.groups())
    return r


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--entry', action='append')
    ap.add_argument('--budget', type=float)
    ap.add_argument('--keep')
    ap.add_argument('--nproc', type=int)
    a = ap.parse_args()
    t0 = time.time()
    prop = a.prop
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    work = tempfile.mkdtemp(prefix='vs_%s_' % prop)
    try:
        rc = run(a, prop, seed, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def run(a, prop, seed, work, t0):
    from vs import explore, ir
    srcs = sorted(glob.glob(os.path.join(V, 'harness', prop + '*.cpp')))
    if not srcs:
        log('no harness for', prop)
        return 2
    defs0 = ['-DVS_THOROUGH'] if a.tier == 'thorough' else []
    # compile every unit (in parallel); a unit that does not compile is a failed unit
    import concurrent.futures as cf
    units, left_out = [], []
    with cf.ThreadPoolExecutor(8) as ex:
        futs = []
        for s in srcs:
            o = header_opts(s)
            ll = os.path.join(work, os.path.basename(s)[:-4] + '.ll')
            futs.append((s, o, ll, ex.submit(compile_unit, s, ll, defs0 + o.get('defs', '').replace(',', ' ').split(), o.get('mode') == 'fp', work)))
        for s, o, ll, f in futs:
            cur, err, dropped = f.result()
            units.append((cur, o, ll, err))
            for x in dropped:
                log('not compiled and left out: %s: %s' % (os.path.basename(s), x))
                left_out.append('not compiled and left out: %s: %s' % (os.path.basename(s), x))
    budget = a.budget or (float(os.environ.get('VS_BUDGET', '150')) if a.tier == 'quick' else 1500)
    known = [k for k in load_known() if k[0] == prop]
    tot = explore.newstats()
    entries_ev = []
    viols, notes, samples = [], left_out, []
    validated = 0
    functions = set()
    broken = []
    natives = {}
    bounds = []
    tu = time.time()
    for n, (src, o, ll, err) in enumerate(units):
        base = os.path.basename(src)
        if err:
            broken.append('%s does not compile: %s' % (base, err[:1500]))
            continue
        mod = ir.Module(ll)
        ents = [e for e in mod.funcs if e.startswith('H_')]
        if a.entry:
            ents = [e for e in ents if e in a.entry or e[2:] in a.entry]
        if not ents:
            continue
        uw = os.path.join(work, 'n%d' % n)
        os.mkdir(uw)
        nat = Native(src, uw, defs0 + o.get('defs', '').replace(',', ' ').split(), exact=o.get('mode') == 'fp')
        natives[src] = nat
        nat.start()
        cfg = dict(seed=seed, mode=o.get('mode', 'real'), steps=int(o.get('steps', '4000000' if a.tier == 'quick' else '20000000')),
                   path_s=float(o.get('path_s_' + a.tier) or o.get('path_s', '40' if a.tier == 'quick' else '240')),
                   timeout_ms=int(o.get('timeout_ms_' + a.tier) or o.get('timeout_ms', '2500' if a.tier == 'quick' else '10000')))
        left = budget - (time.time() - tu)
        res, used, el = explore.explore(ll, ents, o.get('mode', 'real'), cfg, max(8.0, left * float(o.get('share', '1'))), a.nproc)
        functions |= used
        if a.keep:
            shutil.copy(ll, a.keep)
        for e in res:
            R = res[e]
            for k, v in R['stats'].items():
                tot[k] += v
            s = R['stats']
            entries_ev.append(dict(unit=base, entry=e, mode=o.get('mode', 'real'), paths=s['paths'], ok=s['ok'], infeasible=s['infeasible'],
                                   violating=s['fault'], inconclusive=s['unsupported'] + s['limit'], unexplored=R['left'],
                                   asserts=s['asserts'], reached=s['reach'] > 0 or s['asserts'] > 0, queries=s['queries'], solver_s=round(s['z3_time'], 2)))
            log('%-34s paths %6d ok %6d viol %4d inconcl %3d left %4d asserts %7d queries %6d z3 %.1fs cpu %.1fs' % (
                e, s['paths'], s['ok'], s['fault'], s['unsupported'] + s['limit'], R['left'] + R['cut'], s['asserts'], s['queries'], s['z3_time'], R['time']))
            for x in sorted(set(R['inc']))[:6]:
                log('    inconclusive:', x[:300])
                notes.append(e + ': ' + x[:300])
            if s['ok'] and not s['asserts'] and not s['reach']:
                notes.append(e + ': vacuous, no assertion reached')
                log('    VACUOUS', e)
            viols += [(src, v) for v in R['viol']]
            import random
            rs = R['samples']
            random.Random(seed).shuffle(rs)
            samples += [(src, x) for x in rs[:2 if a.tier == 'quick' else 6]]
    if broken:
        for b in broken:
            log('BROKEN', b)
    # replay
    os.makedirs(os.path.join(V, 'replays'), exist_ok=True)
    reported = []
    known_hit = set()
    seen = {}
    unrep = []
    k = 0
    for src, v in viols:
        key = (v['entry'], re.sub(r': -?\d+ vs -?\d+$', '', v['what'])[:160])
        if seen.get(key, 0) == 'done' or seen.get(key, 0) >= 6 if seen.get(key, 0) != 'done' else True:
            continue
        if len([1 for z in seen.values() if z == 'done']) > 12:
            break
        if v['inputs'] is None:
            continue
        nat = natives[src]
        ok, err = nat.ready() if nat.proc.returncode is None else (nat.proc.returncode == 0, '')
        if not ok:
            log('native build failed', err[:2000])
            notes.append('native build failed')
            break
        first = None
        for inputs in [v['inputs']] + v.get('alts', []):
            h = hashlib.sha1((v['entry'] + '\n'.join(inputs)).encode()).hexdigest()[:10]
            path = os.path.join(V, 'replays', '%s_%s_%s.txt' % (prop, v['entry'], h))
            with open(path, 'w') as f:
                f.write('# property %s, entry %s of harness/%s (%s tier)\n# %s\n' % (prop, v['entry'], os.path.basename(src), a.tier, ' '.join(v['what'].split())))
                for c in v['pc']:
                    f.write('# path: %s\n' % ' '.join(str(c).split()))
                f.write('\n'.join(inputs) + '\n')
            rc, out = nat.run(v['entry'], path, v.get('fill', 0), tol=v.get('tol'))
            first = first or (rc, out)
            if rc not in (0, 98, 99):
                break
            os.unlink(path)
        if rc in (0, 98, 99):
            rc, out = first
            seen[key] = seen.get(key, 0) + 1
            unrep.append((v['entry'], v['what'] + ' [' + out[-200:].replace(chr(10), ' | ') + ' ' + ' '.join(v['inputs'][:6]) + ']', rc))
            continue
        with open(path, 'a') as f:
            for ln in out.split('\n'):
                if ln.startswith('VS-INPUT '):
                    f.write(ln[9:] + '\n')
            f.write('# native replay (exit %d):\n' % rc)
            for ln in out.split('\n')[:60]:
                f.write('#   %s\n' % ln)
        seen[key] = 'done'
        kf = next((x for x in known if x[1] == v['entry'] and re.search(x[2], v['what'])), None)
        if kf:
            known_hit.add(kf)
            os.unlink(path)
        else:
            reported.append((v['entry'], v['what'], path, rc))
    # validation of the symbolic executor: replay models of passing paths
    vmis = 0
    for src, x in samples[:24 if a.tier == 'quick' else 120]:
        nat = natives[src]
        ok, err = nat.ready() if nat.proc.returncode is None else (nat.proc.returncode == 0, '')
        if not ok:
            log('native build failed: ', err[:1500])
            break
        p = os.path.join(work, 'sample.txt')
        with open(p, 'w') as f:
            f.write('\n'.join(x['inputs']) + '\n')
        rc, out = nat.run(x['entry'], p, leaks=False)
        if rc == 0:
            validated += 1
        else:
            vmis += 1
            log('    validation mismatch', x['entry'], 'rc', rc, out[-300:].strip().replace('\n', ' | '), x['inputs'][:12])
            if rc not in (98, 99) and all(explore.plain(y) for y in x['inputs']):
                # the real code fails on inputs the solver produced: a concrete counterexample
                w = next((ln for ln in out.split('\n') if ln.startswith('VS-VIOLATED') or 'ERROR: ' in ln or 'runtime error' in ln), 'exit %d' % rc)
                path = os.path.join(V, 'replays', '%s_%s_sample%d.txt' % (prop, x['entry'], vmis))
                with open(path, 'w') as f:
                    f.write('# property %s, entry %s of harness/%s (%s tier)\n# native run: %s\n' % (prop, x['entry'], os.path.basename(src), a.tier, w[:300]))
                    f.write('\n'.join(x['inputs']) + '\n')
                kf = next((z for z in known if z[1] == x['entry'] and re.search(z[2], w)), None)
                if kf:
                    known_hit.add(kf)
                    os.unlink(path)
                else:
                    reported.append((x['entry'], 'native: ' + w[:300], path, rc))
    for kf in known:
        if kf in known_hit:
            log('KNOWN-FINDING: property=%s %s' % (prop, kf[3]))
        elif not a.entry:
            log('note: listed finding not observed: ' + kf[3])
    for e, w, rc in unrep[:10]:
        log('    not reproduced natively (%d): %s %s' % (rc, e, w[:400]))
        notes.append('candidate not reproduced natively: %s %s' % (e, w[:200]))
    status = 'held'
    if reported:
        status = 'violated'
    ev = dict(property=prop, tier=a.tier, seed=seed, level='model_checking',
              wall_s=round(time.time() - t0, 2),
              coverage=dict(states=tot['paths'], transitions=tot['steps'], traces_validated_against_impl=validated,
                            samples=[dict(entry=x['entry'], inputs=x['inputs'][:40], path_condition=x['pc']) for _, x in samples[:8]],
                            method='symbolic execution of LLVM IR of /repo headers + z3',
                            entries=entries_ev, assertions=tot['asserts'], functions_encoded=len(functions),
                            functions=sorted(f for f in functions if 'malg' in f)[:200],
                            queries=tot['queries'], solver_s=round(tot['z3_time'], 2), sat=tot['sat'], unsat=tot['unsat'], unknown=tot['unknown'],
                            equalities_confirmed_by_z3=tot['z3_confirmed'], equalities_by_normal_form_only=tot['norm_only'],
                            inconclusive_paths=tot['unsupported'] + tot['limit'], unexplored=sum(x['unexplored'] for x in entries_ev),
                            notes=notes[:40], validation_mismatches=vmis,
                            bounds=[ln.strip()[3:].strip() for s in srcs for ln in open(s) if ln.startswith('//B ')]),
              assumptions=[ln.strip()[3:].strip() for s in srcs for ln in open(s) if ln.startswith('//A ')],
              violations=len(reported))
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    if os.environ.get('VS_FUNCS'):
        with open(os.environ['VS_FUNCS'], 'w') as f:
            f.write('\n'.join(sorted(functions)))
    if not a.entry:
        with open(os.path.join(V, 'evidence', prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    seenp = set()
    for e, w, path, rc in reported:
        log('  %s: %s' % (e, w))
        log('VIOLATION property=%s replay=%s' % (prop, path))
    log('%s %s: %d paths, %d asserts, %d queries, %d validated, %.1fs' % (prop, status, tot['paths'], tot['asserts'], tot['queries'], validated, time.time() - t0))
    if reported:
        return 1
    if broken and (len(broken) == len(units) or True):
        return 2
    if tot['ok'] == 0:
        log('no path completed')
        return 2
    return 0


if __name__ == '__main__':
    main()
