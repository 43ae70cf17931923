"""Path exploration with a pool of worker processes."""
import multiprocessing as mp
import os
import random
import signal
import sys
import time
from . import engine, sym
from .engine import Program, Path

sys.setrecursionlimit(20000)
W = {}


def init_worker(llpath, mode, cfg):
    import resource
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    gb = 6 << 30
    resource.setrlimit(resource.RLIMIT_AS, (gb, gb))
    W['prog'] = Program(llpath, mode)
    W['cfg'] = cfg


def newstats():
    return dict(paths=0, ok=0, infeasible=0, fault=0, limit=0, unsupported=0, asserts=0, discharged=0, steps=0,
                queries=0, z3_time=0.0, sat=0, unsat=0, unknown=0, reach=0, forced_unknown=0, norm_only=0, z3_confirmed=0,
                nomodel=0)


SECOND = '@second'  # the entry runs again after a first, concrete call that left something in global memory


def base(entry):
    return entry[:-len(SECOND)] if entry.endswith(SECOND) else entry


def probe(entry):
    return entry, W['prog'].warm(entry, W['cfg']) is not None


def late(*_):
    """the path does not come to a point where the time is checked"""
    raise engine.PathEnd('unsupported', 'time')


def run_one(prog, entry, prefix, model, cfg):
    # a path stuck within one step is stopped as well; its inputs are then tried on the real code
    signal.signal(signal.SIGALRM, late)
    signal.setitimer(signal.ITIMER_REAL, cfg.get('path_s', 60) + 4, 5)
    try:
        return run_timed(prog, entry, prefix, model, cfg)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def run_timed(prog, entry, prefix, model, cfg):
    w = None
    if entry.endswith(SECOND):
        entry = base(entry)
        w = prog.warm(entry, cfg)
    p = Path(prefix, model, seed=cfg.get('seed', 1), mode=prog.mode, timeout_ms=cfg.get('timeout_ms', 3000))
    engine.DEADLINE[0] = time.time() + cfg.get('path_s', 60)
    if w is not None:
        out = prog.run_path(entry, p, cfg.get('steps', 20_000_000), w[0])
        ci = p.concrete_inputs
        p.concrete_inputs = lambda m=None: w[1] + ['--'] + ci(m)
    else:
        out = prog.run_path(entry, p, cfg.get('steps', 20_000_000))
    return p, out


def plain(x):
    """a short binary number: the native run does not round it"""
    if x[0] != 'd':
        return True
    v = float.fromhex(x[2:])
    return abs(v) < 1e6 and v * 1024 == int(v * 1024)


def work(task):
    entry, items, slice_s = task
    prog, cfg = W['prog'], W['cfg']
    t0 = time.time()
    st = newstats()
    viol, inc, samples = [], [], []
    stack = list(items)
    nuns = 0
    S = engine.ST_
    q0, zt0, a0, b0, c0 = S.queries, S.z3_time, S.sat, S.unsat, S.unknown
    tid = os.getpid()
    while stack:
        prefix, model = stack.pop()
        try:
            p, (kind, detail) = run_one(prog, entry, prefix, model, cfg)
        except MemoryError:
            st['paths'] += 1
            st['unsupported'] += 1
            inc.append('out of memory')
            continue
        st['paths'] += 1
        st['asserts'] += p.nassert
        st['discharged'] += p.discharged
        st['steps'] += engine.CT[0]
        st['forced_unknown'] += p.forced_unknown
        for k in ('norm_only', 'z3_confirmed', 'nomodel'):
            st[k] += p.tags.get(k, 0)
        stack.extend(p.alts)
        if kind == 'ok':
            st['ok'] += 1
            st['reach'] += 1 if p.reach else 0
            if len(samples) < 3 or random.random() < 0.02 and len(samples) < 12:
                try:
                    samples.append(dict(entry=base(entry), inputs=p.concrete_inputs(), decs=len(p.decs),
                                        vars=len(p.vars), pc=[repr(c)[:120] for c in p.pc[:6]], nomodel=p.tags.get('nomodel', 0)))
                except Exception as e:
                    pass
        elif kind == 'infeasible':
            st['infeasible'] += 1
        elif kind in ('fault', 'violation'):
            st['fault'] += 1
            if len(viol) < 8:
                try:
                    inputs = p.concrete_inputs()
                except Exception as e:
                    inputs = None
                alts = []
                if cfg.get('mode') == 'real' and inputs is not None:
                    try:
                        for m in p.altmodels():
                            x = p.concrete_inputs(m)
                            if x != inputs and x not in alts:
                                alts.append(x)
                    except Exception:
                        pass
                viol.append(dict(entry=base(entry), what=detail, inputs=inputs, alts=alts, tol='1e-10' if p.tags.get('narrow') else None, pc=[repr(c)[:200] for c in p.pc[:12]],
                                 nomodel=p.tags.get('nomodel', 0)))
        elif kind == 'limit':
            st['limit'] += 1
            inc.append('limit: ' + detail)
            try:
                if len(viol) < 8:
                    p.model_ok and viol.append(dict(entry=base(entry), what='no termination within the step limit', inputs=p.concrete_inputs(), limit=1, fill=1,
                                                    pc=[repr(c)[:200] for c in p.pc[:12]], nomodel=0))
            except Exception:
                pass
        else:
            st['unsupported'] += 1
            if len(inc) < 20:
                inc.append('unsupported: ' + detail)
            # the encoder cannot follow this path to its end: its inputs are tried on the real code
            if nuns < 3:
                nuns += 1
                try:
                    if not p.model_ok:
                        p.fixmodel()
                    alts = [p.concrete_inputs()]
                    if cfg.get('mode') == 'real':
                        alts += [p.concrete_inputs(m) for m in p.othermodels()]
                    alts = [x for x in alts if all(plain(y) for y in x)]
                    if alts:
                        viol.append(dict(entry=base(entry), what='beyond the encodable fragment (%s)' % detail, inputs=alts[0], alts=alts[1:], fill=1,
                                         pc=[repr(c)[:200] for c in p.pc[:12]], nomodel=0))
                except Exception:
                    pass
        for x in p.inconclusive:
            if len(inc) < 20:
                inc.append('undecided: ' + x)
        if time.time() - t0 > slice_s:
            break
    st['queries'] = S.queries - q0
    st['z3_time'] = S.z3_time - zt0
    st['sat'] = S.sat - a0
    st['unsat'] = S.unsat - b0
    st['unknown'] = S.unknown - c0
    return entry, st, viol, inc, samples, stack, sorted(prog.used), prog.ntrans


class _Mod:
    def __init__(self, mod):
        self.mod = mod
        self._statics = None


def explore(llpath, entries, mode, cfg, budget, nproc=None, log=None):
    """returns dict entry -> result"""
    nproc = nproc or min(8, os.cpu_count() or 8)
    res = {e: dict(stats=newstats(), viol=[], inc=[], samples=[], left=0, time=0.0) for e in entries}
    used = set()
    t0 = time.time()
    ctx = mp.get_context('fork')
    pool = ctx.Pool(nproc, init_worker, (llpath, mode, cfg))
    from . import ir
    if Program.statics(_Mod(ir.Module(llpath))):
        # state that survives a call: the entry is also explored as a second call
        try:
            entries = entries + [e + SECOND for e, y in pool.map_async(probe, entries, 1).get(budget / 4 + 5) if y]
        except mp.TimeoutError:
            pass
        for e in entries:
            res.setdefault(e, dict(stats=newstats(), viol=[], inc=[], samples=[], left=0, time=0.0))
    pend = {e: [([], None)] for e in entries}
    inflight = []
    ninfl = {e: 0 for e in entries}
    queue = list(entries)
    stop = False
    try:
        while True:
            now = time.time()
            if now - t0 > budget:
                stop = True
            if not stop:
                # round robin
                while len(inflight) < nproc + 2:
                    cand = [e for e in queue if pend[e]]
                    if not cand:
                        break
                    e = min(cand, key=lambda x: (ninfl[x], res[x]['time']))
                    items = pend[e]
                    tot = sum(len(x) for x in pend.values())
                    # shallow (large) subtrees first
                    k = 1 if tot < 4 * nproc else max(1, min(len(items), 1 + tot // (4 * nproc)))
                    batch, pend[e] = items[:k], items[k:]
                    sl = 0.25 if tot < 2 * nproc else 1.5
                    ninfl[e] += 1
                    inflight.append((e, time.time(), pool.apply_async(work, ((e, batch[::-1], sl),))))
            if not inflight:
                break
            done = [x for x in inflight if x[2].ready()]
            if not done:
                if stop and time.time() - t0 > budget + 20:
                    break
                time.sleep(0.004)
                continue
            for x in done:
                inflight.remove(x)
                e, ts, r = x
                ninfl[e] -= 1
                try:
                    entry, st, viol, inc, samples, left, us, nt = r.get()
                except Exception as ex:
                    res[e]['inc'].append('worker: %r' % ex)
                    res[e]['stats']['unsupported'] += 1
                    continue
                R = res[entry]
                for k, v in st.items():
                    R['stats'][k] += v
                R['time'] += time.time() - ts
                if len(R['viol']) < 40:
                    R['viol'] += viol
                R['inc'] += inc[:40 - len(R['inc'])] if len(R['inc']) < 40 else []
                if len(R['samples']) < 40:
                    R['samples'] += samples
                used.update(us)
                pend[entry] = left + pend[entry] if False else pend[entry] + left
                # enough violations: stop exploring this entry
                if len(R['viol']) >= 24:
                    R['cut'] = len(pend[entry])
                    pend[entry] = []
    finally:
        pool.terminate()
        pool.join()
    for e in entries:
        res[e]['left'] = len(pend[e]) + ninfl[e]
        res[e].setdefault('cut', 0)
    return res, used, time.time() - t0
