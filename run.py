#!/usr/bin/env python3
"""run.py <property> [quick|thorough]  -- decide one property on /repo's current tree."""
import os, re, sys, time, json, pickle, random, importlib, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
VT = '/opt/veriftools/pyvenv/bin/python3'
if os.path.exists(VT) and sys.prefix != '/opt/veriftools/pyvenv' and not os.environ.get('VERIF_REEXEC'):
    os.environ['VERIF_REEXEC'] = '1'
    os.execv(VT, [VT, '-B'] + sys.argv)
sys.path[:0] = [os.path.join(HERE, 'vlib'), os.path.join(HERE, 'checks')]
sys.setrecursionlimit(20000)
import build, oblig, native


class Env:
    """what a check may use: the IR module of the real code, the initialised
    globals, tier and seed"""

    def __init__(self, srcs, tier, seed):
        self.tier = tier
        self.seed = seed
        self._m = None
        self._img = None
        self.srcs = srcs
        self.t_ir = 0.0

    @property
    def m(self):
        if self._m is None:
            t = time.time()
            self._m = build.ir_module(self.srcs)
            self._m.demangle_all()
            self.t_ir = time.time() - t
        return self._m

    @property
    def img(self):
        if self._img is None:
            self._img = build.image()
        return self._img[0]

    @property
    def tabs(self):
        self.img
        return self._img[1]


def known():
    p = os.path.join(HERE, 'known_findings.txt')
    r = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('KNOWN '):
                # KNOWN property=<id> match=<token> :: description
                head, desc = l[6:].split(' :: ', 1)
                d = dict(x.split('=', 1) for x in head.split(' '))
                r.append((d['property'], d['match'], desc))
    return r


def native_phase(chk, seed, tier):
    """replay / bounded stand-in on the real code"""
    evals, fails, samples, native_error = 0, [], [], None
    t1 = time.time()
    try:
        for prog, cases in chk.cases(random.Random(seed), tier):
            n, f = native.run_cases(prog, cases)
            evals += n
            fails += [(prog, Simple(c.line, c.what), e) for c, e in f]
            samples += [c.line[:160] for c in cases[:1]]
    except build.BuildError as e:
        native_error = 'build: ' + str(e)[:3000]
    except Exception:
        native_error = traceback.format_exc()[-3000:]
    return evals, fails, samples, native_error, time.time() - t1


class Simple:
    def __init__(self, line, what):
        self.line, self.what = line, what


def start_native(chk, pid, seed, tier):
    """run the native phase in a child process, concurrently with the proofs"""
    if not hasattr(chk, 'cases'):
        return lambda: (0, [], [], None, 0.0)
    r, w = os.pipe()
    pidc = os.fork()
    if pidc == 0:
        os.close(r)
        try:
            out = native_phase(chk, seed, tier)
        except BaseException:
            out = (0, [], [], traceback.format_exc()[-3000:], 0.0)
        with os.fdopen(w, 'wb') as fh:
            pickle.dump(out, fh)
        os._exit(0)
    os.close(w)

    def collect():
        with os.fdopen(r, 'rb') as fh:
            data = fh.read()
        os.waitpid(pidc, 0)
        if not data:
            return 0, [], [], 'native phase ended without a result', 0.0
        return pickle.loads(data)
    return collect


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    chk = importlib.import_module(pid)
    env = Env(getattr(chk, 'SOURCES', ['inst_fields']), tier, seed)
    collect = start_native(chk, pid, seed, tier)
    results, metas, engine_error = [], [], None
    ntasks = 0
    if hasattr(chk, 'tasks'):
        try:
            tasks = chk.tasks(env)
            ntasks = len(tasks)
            for rs, meta in oblig.run_tasks(tasks, budget=max(240, 580 - (time.time() - t0)) if tier == 'quick' else 3000):
                results += rs
                metas.append(meta)
        except build.BuildError as e:
            engine_error = 'build: ' + str(e)[:3000]
        except Exception:
            engine_error = traceback.format_exc()[-3000:]
    t_proof = time.time() - t0
    refuted = [r for r in results if r.status == oblig.REFUTED]
    undecided = [r for r in results if r.status == oblig.UNDECIDED]
    # obligations that hold for enumerated sizes only: reported apart, never counted as proved
    for r in results:
        r.bounded = next((what for rx, what in getattr(chk, 'ENUMERATED', []) if re.search(rx, r.name)), False)
    proved = [r for r in results if r.status == oblig.PROVED and not r.bounded]
    bounded = {}
    for r in results:
        if r.bounded:
            b = bounded.setdefault(r.bounded, {'bound': r.bounded, 'obligations': 0, 'hold': 0})
            b['obligations'] += 1
            b['hold'] += r.status == oblig.PROVED
    nb = sum(b['obligations'] for b in bounded.values())
    evals, fails, samples, native_error, t_native = collect()
    # replay of verifier counterexamples on the real code; where an obligation
    # stays open without one, the bounded search continues with fresh seeds
    replays = [(r.name, r.witness) for r in refuted + undecided if r.witness is not None]
    if hasattr(chk, 'replay') and replays:
        try:
            byprog = {}
            for nm, w in replays[:40]:
                for prog, c in chk.replay(nm, w):
                    byprog.setdefault(prog, []).append(c)
            for prog, cs in byprog.items():
                n, f = native.run_cases(prog, cs)
                evals += n
                fails += [(prog, Simple(c.line, c.what + ' (verifier counterexample)'), e) for c, e in f]
        except Exception:
            native_error = native_error or traceback.format_exc()[-3000:]
    known_ids = [k[1] for k in known() if k[0] == pid]
    open_ = undecided + [r for r in refuted if not any(k in r.name for k in known_ids)]
    if open_ and not fails and not native_error and hasattr(chk, 'cases'):
        t1 = time.time()
        limit = min(150, max(0, 700 - (t1 - t0)))
        k = 1
        while time.time() - t1 < limit and not fails and k < 12:
            n, fails, _, err, _ = native_phase(chk, seed + 7919 * k, tier)
            evals += n
            k += 1
            if err:
                break
        t_native += time.time() - t1
    kn = [k for k in known() if k[0] == pid]
    new_fail, new_ref = [], []
    hit = set()
    for f in fails:
        h = [k for k in kn if k[1] in (f[1].what or '') or k[1] in f[1].line]
        if h:
            hit.add(h[0])
        else:
            new_fail.append(f)
    for r in refuted:
        h = [k for k in kn if k[1] in r.name]
        if h:
            hit.add(h[0])
        else:
            new_ref.append(r)
    rdir = os.path.join(HERE, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    viol = bool(new_fail or new_ref)
    line = None
    if viol:
        rp = os.path.join(rdir, pid + '.txt')
        with open(rp, 'w') as fh:
            for r in new_ref:
                fh.write('FAILED OBLIGATION: %s\nfunction: %s\nback end: %s\nverifier output: %s\n\n' % (r.name, r.fn, r.backend, r.info))
            if new_ref and getattr(chk, 'REPLAY_CMD', None):
                fh.write('REPLAY on the real code: %s\n' % chk.REPLAY_CMD)
            for prog, c, e in new_fail[:20]:
                fh.write('FAILING INPUT on the real code: (%s) %s\n  run: printf "%%s\\n" \'%s\' | %s\n  %s\n\n' % (prog, c.what, c.line, '<driver %s>' % prog, e))
        concrete = getattr(chk, 'CONCRETE', False)   # obligations evaluated on the running code itself
        line = 'VIOLATION property=%s replay=%s%s' % (pid, rp, '' if new_fail or concrete else ' no-failing-input-found')
    funcs = sorted(set(r.fn for r in results if r.fn))
    und_fn = sorted(set((r.name + ' -- ' + r.info.strip().split('\n')[-1])[:300] for r in undecided))
    inl = set()
    for m in metas:
        inl.update(m.get('inlined', ()) if isinstance(m, dict) else ())
    backends = {}
    for r in results:
        b = backends.setdefault(r.backend, {'obligations': 0, 'discharged': 0, 'seconds': 0.0})
        b['obligations'] += 1
        b['discharged'] += r.status == oblig.PROVED
        b['seconds'] = round(b['seconds'] + r.secs, 3)
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': getattr(chk, 'LEVEL', 'proof'),
        'coverage': {
            'obligations': len(results) - nb, 'discharged': len(proved),
            'bounded_obligations': list(bounded.values()),
            'checker_cmd': 'python3 run.py %s %s' % (pid, tier),
            'trusted_base': getattr(chk, 'TRUSTED', []),
            'functions_under_contract': funcs,
            'functions_under_contract_count': len(funcs),
            'real_functions_executed_inline': len(inl),
            'back_ends': backends,
            'obligation_groups': ntasks,
            'refuted': [r.name for r in refuted][:50],
            'undecided': und_fn[:50],
            'bounded_stand_in': {'label': 'bounded, not counted as proved', 'evaluations': evals, 'failures': len(fails), 'what': getattr(chk, 'BOUNDED', ''), 'samples': samples[:6], 'seconds': round(t_native, 2)},
            'proof_seconds': round(t_proof, 2),
            'engine_error': engine_error, 'native_error': native_error,
        },
        'assumptions': getattr(chk, 'ASSUMPTIONS', []),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(new_fail) + len(new_ref),
    }
    if getattr(chk, 'LEVEL', 'proof') == 'exploration':
        ev['coverage'].update({'evaluations': evals, 'distinct_nontrivial': evals, 'rule': getattr(chk, 'BOUNDED', ''), 'samples': samples})
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1)
    for k in sorted(hit):
        print('KNOWN-FINDING: property=%s %s' % (pid, k[2]))
    print('%s %s: %d obligations, %d discharged, %d for enumerated sizes (bounded, %d hold), %d refuted, %d undecided; bounded stand-in %d cases, %d failures; %.1fs' % (
        pid, tier, len(results) - nb, len(proved), nb, sum(b['hold'] for b in bounded.values()), len(refuted), len(undecided), evals, len(fails), time.time() - t0))
    for r in refuted[:10]:
        print('  refuted: %s | %s' % (r.name, r.info[:300]))
    for u in und_fn[:10]:
        print('  undecided (bounded stand-in used): %s' % u)
    for prog, c, e in fails[:5]:
        print('  failing input: %s | %s' % (c.line[:300], e[:200]))
    if engine_error:
        print('  engine: ' + engine_error[-800:])
    if native_error:
        print('  native: ' + native_error[-800:])
    if line:
        print(line)
        return 1
    if (engine_error or not results) and (native_error or not evals):
        print('nothing could be decided')
        return 2
    return 0


sys.exit(main())
