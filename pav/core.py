"""Driver shared by all checks: case streaming to worker processes, verdicts, evidence, known findings.

A check module provides
    RULE         how cases are made and what makes one non-trivial
    ASSUMPTIONS  list of strings
    REQUIRED     names of monitor counters that must be positive, else the run is inconclusive
    cases(ctx)   iterator of JSON-able cases, deterministic in (ctx.tier, ctx.seed)
    evaluate(case, mon)   runs the real code on a case and lets the monitors judge it:
                 mon.fail(msg) for a violation, mon.count(name), mon.nontrivial(key), mon.sample(x)
"""
import json, os, random, shutil, signal, sys, tempfile, time, traceback, hashlib
import multiprocessing as mp

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PAV_REPO', '/repo')
PKG = os.path.join(REPO, 'pash_annotations') + os.sep
sys.dont_write_bytecode = True
if REPO not in sys.path:
    sys.path.insert(0, REPO)

KNOWN = os.path.join(VERIF, 'known_findings.txt')
HARNESS_ERRORS = (OSError, MemoryError, TimeoutError)


class Inconclusive(Exception):
    pass


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.thorough = tier == 'thorough'

    def rng(self, tag=''):
        return random.Random(f'{self.pid}/{self.seed}/{tag}')

    def n(self, quick, thorough):
        return thorough if self.thorough else quick


class Mon:
    """What the monitors observe while one batch of cases runs."""
    def __init__(self):
        self.counters, self.fails, self.keys, self.samples = {}, [], set(), []
        self.evals = 0
        self.case = None

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def fail(self, msg):
        self.fails.append((self.case, str(msg)))

    def nontrivial(self, key):
        self.keys.add(hashlib.blake2b(repr(key).encode('utf-8', 'surrogateescape'), digest_size=8).digest())

    def sample(self, x):
        if len(self.samples) < 2:
            self.samples.append(x)

    def check(self, cond, msg):
        self.count('oracle_decisions')
        if not cond:
            self.fail(msg() if callable(msg) else msg)
        return cond


# ---- line coverage of the package, as evidence that the monitored code really ran
_lines = set()
_lines_new = set()


def start_line_monitor():
    m = sys.monitoring
    tool = m.COVERAGE_ID
    try:
        m.use_tool_id(tool, 'pav')
    except ValueError:
        return

    def on_line(code, line):
        f = code.co_filename
        if f.startswith(PKG):
            k = (f[len(PKG):], line)
            if k not in _lines:
                _lines.add(k)
                _lines_new.add(k)
        return m.DISABLE
    m.register_callback(tool, m.events.LINE, on_line)
    m.set_events(tool, m.events.LINE)


def in_repo(tb):
    return any(f.filename.startswith(PKG) for f in traceback.extract_tb(tb)[-3:])


def judge(mod, case, mon):
    mon.case = case
    mon.evals += 1
    try:
        mod.evaluate(case, mon)
    except Inconclusive as e:
        mon.count('inconclusive')
        mon.count('inconclusive:' + str(e)[:80])
    except HARNESS_ERRORS as e:
        if in_repo(e.__traceback__):
            mon.fail(f'raised {type(e).__name__}: {e}')
        else:
            mon.count('inconclusive')
            mon.count('inconclusive:' + repr(e)[:80])
    except Exception as e:       # an unexpected shape of a result, or an exception in the code under test
        last = traceback.extract_tb(e.__traceback__)[-1]
        mon.fail(f'unexpected {type(e).__name__}: {e} (at {os.path.basename(last.filename)}:{last.name})')


_mod = None


def _init(mod, parent):
    global _mod
    _mod = mod
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    start_line_monitor()
    if hasattr(mod, 'worker_init'):
        mod.worker_init()


def _batch(cases):
    mon = Mon()
    for c in cases:
        judge(_mod, c, mon)
        if len(mon.fails) > 50:
            break
    new = list(_lines_new)
    _lines_new.clear()
    return mon.evals, mon.counters, mon.fails[:50], mon.keys, mon.samples, new


def batches(it, size):
    b = []
    for c in it:
        b.append(c)
        if len(b) >= size:
            yield b
            b = []
    if b:
        yield b


def read_known(pid):
    """lines 'finding: property=ID key=KEY case=JSON what=TEXT'"""
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            if line.startswith('finding: property=%s ' % pid):
                rest = line.split(' ', 2)[2]
                case, what = rest[len('case='):].split(' what=', 1)
                out.append((json.loads(case), what.strip()))
    return out


def run(pid, mod, tier, seed, replay=None):
    t0 = time.time()
    ctx = Ctx(pid, tier, seed)
    total = Mon()
    scratch_root = tempfile.mkdtemp(prefix='pav-%s-' % pid, dir='/tmp')
    os.chmod(scratch_root, 0o711)
    os.environ['PAV_SCRATCH'] = scratch_root
    known_lines, rc = [], 0
    try:
        if hasattr(mod, 'prepare'):
            mod.prepare(ctx)
        known = read_known(pid)
        if replay is not None:
            cases = iter([replay])
        else:
            cases = mod.cases(ctx)
        budget = getattr(mod, 'BUDGET', {}).get(tier) or (300 if tier == 'quick' else 2400)
        jobs = int(os.environ.get('PAV_JOBS', '0')) or min(16, os.cpu_count() or 4)
        size = getattr(mod, 'BATCH', 20)
        lines = set()
        cut = False
        with mp.get_context('fork').Pool(jobs, initializer=_init, initargs=(mod, os.getpid())) as pool:
            # recorded findings first: the same oracle on the recorded case
            for case, what in known if replay is None else []:
                ev, cnt, fails, keys, samples, new = pool.apply(_batch, ([case],))
                for k, v in cnt.items():
                    total.count(k, v)
                if fails:
                    known_lines.append(what)
            pending = []
            gen = batches(cases, size)
            stop = False
            while True:
                while not stop and len(pending) < jobs * 3:
                    b = next(gen, None)
                    if b is None:
                        stop = True
                        break
                    if time.time() - t0 > budget:
                        stop = cut = True
                        break
                    pending.append(pool.apply_async(_batch, (b,)))
                if not pending:
                    break
                ev, cnt, fails, keys, samples, new = pending.pop(0).get(timeout=600)
                total.evals += ev
                for k, v in cnt.items():
                    total.count(k, v)
                total.fails += fails
                total.keys |= keys
                if len(total.samples) < 6:
                    total.samples += samples
                lines.update(map(tuple, new))
                if len(total.fails) >= 30:
                    stop = True
        if hasattr(mod, 'finish') and replay is None:
            mod.finish(ctx, total)
        fails = total.fails
        for what in known_lines:
            print(f'KNOWN-FINDING: property={pid} {what}')
        if fails:
            rdir = os.path.join(VERIF, 'evidence', 'replay')
            os.makedirs(rdir, exist_ok=True)
            fails.sort(key=lambda f: len(json.dumps(f[0], default=repr)) + len(f[1]))
            seen, shown = set(), 0
            for case, msg in fails:
                kind = msg.split(':')[0][:60]
                if kind in seen:
                    continue
                seen.add(kind)
                path = os.path.join(rdir, f'{pid}-{tier}-{seed}-{shown}.json')
                with open(path, 'w') as f:
                    json.dump({'property': pid, 'case': case, 'message': msg}, f, indent=1, default=repr)
                print(f'  {pid}: {msg}'[:1500])
                print(f'VIOLATION property={pid} replay={path}')
                shown += 1
                if shown >= 3:
                    break
            rc = 1
        per_file = {}
        for f, _ in lines:
            per_file[f] = per_file.get(f, 0) + 1
        cov = {
            'evaluations': total.evals,
            'distinct_nontrivial': len(total.keys),
            'rule': mod.RULE,
            'samples': total.samples[:6],
            'monitor_events': dict(sorted((k, v) for k, v in total.counters.items() if not k.startswith('inconclusive:'))),
            'inconclusive_reasons': {k[13:]: v for k, v in list(total.counters.items()) if k.startswith('inconclusive:')},
            'package_lines_executed': len(lines),
            'package_files_executed': len(per_file),
            'cut_by_time': cut,
        }
        ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': cov,
              'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])),
              'wall_s': round(time.time() - t0, 2), 'violations': len(fails),
              'known_findings_reproduced': len(known_lines)}
        if replay is None:
            os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
            with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
                f.write(shrink(ev))
            missing = [k for k in getattr(mod, 'REQUIRED', ['oracle_decisions']) if not total.counters.get(k)]
            inc = total.counters.get('inconclusive', 0)
            if rc == 0 and (missing or total.evals == 0 or inc > max(5, 0.05 * total.evals)):
                print(f'INCONCLUSIVE property={pid}: monitors not reached: {missing}, inconclusive cases {inc}/{total.evals} '
                      f'{cov["inconclusive_reasons"]}')
                rc = 2
        print(f'{pid} {tier} seed={seed}: {total.evals} cases, {len(total.keys)} distinct non-trivial, '
              f'{total.counters.get("oracle_decisions", 0)} oracle decisions, {len(fails)} violations, '
              f'{len(lines)} package lines, {time.time() - t0:.1f} s')
        return rc
    finally:
        shutil.rmtree(scratch_root, ignore_errors=True)


def shrink(ev):
    def cut(x, n):
        if isinstance(x, str):
            return x if len(x) <= n else x[:n] + '...'
        if isinstance(x, dict):
            return {k: cut(v, n) for k, v in list(x.items())[:200]}
        if isinstance(x, (list, tuple)):
            return [cut(v, n) for v in list(x)[:100]]
        return x
    for n in (2000, 600, 200):
        s = json.dumps(cut(ev, n), indent=1, default=repr)
        if len(s) < 50000:
            return s + '\n'
    ev['coverage']['samples'] = ['(too long)']
    return json.dumps(cut(ev, 200), default=repr) + '\n'


# ---- structural dump of any object of the code under test (independent of its own __eq__/__repr__)
def dump(o, depth=0):
    import enum
    if depth > 40:
        raise RecursionError('dump')
    if o is None or isinstance(o, (bool, int, float, str, bytes)):
        return (type(o).__name__, o)
    if isinstance(o, enum.Enum):
        return ('enum', type(o).__name__, o.name)
    if isinstance(o, (list, tuple)):
        return (type(o).__name__,) + tuple(dump(x, depth + 1) for x in o)
    if isinstance(o, dict):
        return ('dict',) + tuple(sorted(((dump(k, depth + 1), dump(v, depth + 1)) for k, v in o.items()), key=repr))
    if isinstance(o, (set, frozenset)):
        return ('set',) + tuple(sorted((dump(x, depth + 1) for x in o), key=repr))
    if hasattr(o, '__dict__'):
        # attributes marked private (such as remembered results) are no part of the value unless there are no others
        keys = [k for k in vars(o) if not k.startswith('_')] or list(vars(o))
        return (type(o).__name__,) + tuple(sorted(((k, dump(vars(o)[k], depth + 1)) for k in keys), key=repr))
    slots = [n for k in type(o).__mro__ for n in ([k.__slots__] if isinstance(k.__dict__.get('__slots__', ()), str) else k.__dict__.get('__slots__', ()))]
    if slots:
        return (type(o).__name__,) + tuple((n, dump(getattr(o, n, None), depth + 1)) for n in sorted(slots))
    r = repr(o)
    return (type(o).__name__, r if ' at 0x' not in r else '')
