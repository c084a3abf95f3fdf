"""C12: annotating is pure."""
import json, os, random, subprocess, sys, threading
from . import api, core, gen, purity, spec, words, parcheck as pc

RULE = ('command lines of all commands (and unknown and unsupported ones) in groups of 25, two in five differing little from one before; for each group everything the library answers '
        '(parse, both annotations, application, inferred parallelizers, built mappers and aggregators) is recorded as a structural dump, with '
        'dumps of all arguments before and after each call; then recomputed after destroying the earlier results, in other orders, from 8 '
        'threads switching every microsecond, and in new processes with other hash seeds and working directories. Non-trivial: a group '
        'with annotations was recomputed; counted by distinct (line, way of recomputation)')
ASSUMPTIONS = ['results are used as a client may: through their lists and methods']
REQUIRED = ['oracle_decisions', 'argument_snapshots', 'recomputed_after_changes', 'recomputed_in_threads', 'recomputed_in_processes', 'changed_results',
            'threads', 'processes', 'annotated_before']
BATCH = 1
GROUP = 25


def invocation(rng):
    r = rng.random()
    if r < .06:
        return rng.choice(['unknown -a b', 'ls -l', 'grep', 'tr', 'sort --nope', "'x y' z", 'uniq a b c', 'mv', 'sed', 'cat -Q', 'xargs']).split(' ')
    if r < .5:
        cmd = rng.choice(pc.CMDS)
        fl = gen.rand_flags(rng, cmd, 3)
        ops = pc.operands(rng, cmd, [k for k, _ in fl])
    else:
        cmd = rng.choice(spec.ANNOTATED_IO)
        fl = gen.rand_flags(rng, cmd, 4)
        ops = gen.operands(rng, cmd, [k for k, _ in fl])
    return gen.spell(rng, cmd, fl, ops)


def line(rng):
    return words.line_of(rng, invocation(rng))


def near(rng, ws):
    """an invocation that differs little: what a table of earlier answers with too coarse a key confuses"""
    ws = list(ws)
    for _ in range(rng.choice([1, 1, 2])):
        r, i, j = rng.random(), rng.randrange(len(ws)), rng.randrange(len(ws))
        if r < .3 and i and j:
            ws[i], ws[j] = ws[j], ws[i]
        elif r < .38 and i:             # texts that some normalization of words would make equal
            w = ws[i]
            ws[i:i + 1] = rng.choice([[w.swapcase()], [' ' + w], [w + ' '], [w.replace(' ', '  ')], [w.replace(' ', '\t')], [w.strip()],
                                      w.split() or [w], [w + ' ' + ws[j]], [w.lstrip('-')], ['-' + w], [w.replace('=', ' ')], [w.rstrip('/')]])
        elif r < .6 and i:
            ws[i] = rng.choice(ws) if rng.random() < .3 else ws[i] + rng.choice(['', 'x', '1', '/'])
        elif r < .75 and i:
            del ws[i]
        elif r < .9 and i:
            ws.insert(i, ws[i])
        else:
            ws[0] = rng.choice(pc.CMDS + spec.ANNOTATED_IO)
    return ws


def lines(rng, n):
    out = []
    while len(out) < n:
        if len(out) < n - 1 and rng.random() < .1:      # one word of a line differs by blanks (or case) only
            ws = list(rng.choice(out)) if out and rng.random() < .5 else invocation(rng)
            i = rng.randrange(1, len(ws) + 1)
            a, b = rng.sample(['a b', 'a  b', 'a\tb', 'A b', ' a b', 'a b ', 'a\nb', 'a/b', 'a//b', './a/b', 'a\u00a0b'], 2)
            out += [ws[:i] + [w] + ws[i:] for w in (a, b)]
            continue
        out.append(near(rng, rng.choice(out[-4:])) if out and rng.random() < .4 else invocation(rng))
    return [words.line_of(rng, ws) for ws in out]


def cases(ctx):
    rng = ctx.rng()
    for i in range(ctx.n(100, 2500)):
        ls = lines(rng, GROUP)
        ls += rng.sample(ls, 5)            # the same line more than once
        yield ['group', ls, rng.randrange(1 << 30), 'threads' if i % 2 else 'order']
    for i in range(ctx.n(24, 300)):
        yield ['process', lines(rng, GROUP * 6), rng.randrange(1 << 30)]


def record(mon, l, ref):
    ev = []
    out, objs = purity.answers(l, ev)
    for stage, arg, same in ev:
        mon.count('argument_snapshots')
        mon.check(same, lambda: f'{stage} changes {arg}: {l!r}')
    if l in ref:
        differ(mon, l, ref[l], out, 'again')
    ref.setdefault(l, out)
    return objs


def differ(mon, l, want, got, how):
    mon.check(got == want, lambda: f'different answer {how}: {l!r} in {[k for k in want if got.get(k) != want[k]] or list(got)}')


def evaluate(case, mon):
    rng = random.Random(case[2])
    ref = {}
    if case[0] == 'process':
        history(mon, rng)
    kept = [record(mon, l, ref) for l in case[1]]
    if case[0] == 'process':
        return process(case, mon, rng, ref)
    for o in kept:
        mon.count('changed_results', purity.vandalize(rng, o))
    ls = list(ref)
    for _ in range(2):
        rng.shuffle(ls)
        for l in ls:
            out, objs = purity.answers(l)
            differ(mon, l, ref[l], out, 'after earlier results were changed')
            mon.count('recomputed_after_changes')
            if len(out) > 3:
                mon.nontrivial((l, 'order'))
            purity.vandalize(rng, objs)
    if case[3] == 'threads':
        threads(mon, rng, ls, ref)
    mon.sample({'line': ls[0], 'answers': {k: str(d)[:120] for k, d in list(ref[ls[0]].items())[:4]}})


def threads(mon, rng, ls, ref):
    res, errs = [], []
    start = threading.Barrier(8)

    def work(order):
        start.wait()
        for l in order:
            try:
                res.append((l, purity.answers(l)[0]))
            except Exception as e:
                errs.append((l, repr(e)))
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        ts = []
        for _ in range(8):
            order = ls[:]
            rng.shuffle(order)
            ts.append(threading.Thread(target=work, args=(order,)))
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(old)
    mon.count('threads', 8)
    for l, e in errs:
        mon.fail(f'raises with threads: {l!r} {e}')
    for l, out in res:
        mon.count('recomputed_in_threads')
        differ(mon, l, ref[l], out, 'with threads')
        mon.nontrivial((l, 'threads'))


def history(mon, rng):
    """much is annotated before: flags and options of all commands with operand lists of many lengths"""
    for cmd in sorted(spec.CMDS):
        for g in spec.CMDS[cmd].groups:
            if rng.random() < .35:
                head = cmd + ' ' + g.key + (' 1' if g.is_option else '')
                for n in rng.sample(range(14), 14):
                    l = head + ' f' * n
                    inv = api.parse(l)
                    if rng.random() < .3:
                        api.io_info(inv), api.par_info(inv)
                    mon.count('annotated_before')


def process(case, mon, rng, ref):
    cwd = os.path.join(os.environ['PAV_SCRATCH'], 'cwd%d' % rng.randrange(1 << 40))
    os.makedirs(cwd)
    # things a lookup relative to the working directory would find: data files, modules, the files the command lines name
    names = sorted({l.split()[0] for l in ref if l.split()} & set(spec.CMDS)) + ['_default_data_for_commands']
    decoys = ['pash_annotations', 'sort', 'f1', 'new', 'out1', '-', '_default_data_for_commands.json'] + [n + '.json' for n in names]
    decoys += ['command_flag_option_info/data/' + n + '.json' for n in names] + ['data/' + n + '.json' for n in names]
    for n in decoys:
        if rng.random() < .85:
            os.makedirs(os.path.dirname(os.path.join(cwd, n)), exist_ok=True)
            with open(os.path.join(cwd, n), 'w') as f:
                f.write('{"command": "x", "flag": [["-zzz"]], "option": []}')
    for n in ('f2', 'd', 'f3'):
        if rng.random() < .5:
            os.makedirs(os.path.join(cwd, n))
    env = {'PATH': '/usr/bin:/bin', 'PYTHONHASHSEED': str(rng.randrange(1, 1 << 32)), 'PYTHONDONTWRITEBYTECODE': '1', 'HOME': cwd,
           'LC_ALL': rng.choice(['C', 'C.UTF-8']), 'PYTHONUTF8': '1', 'PAV_REPO': core.REPO, 'PYTHONPATH': core.VERIF}
    for k, v in (('POSIXLY_CORRECT', '1'), ('GREP_OPTIONS', '-i'), ('GREP_COLORS', 'x'), ('TMPDIR', cwd), ('PASH_TOP', cwd), ('LANG', 'de_DE.UTF-8'),
                 ('COLUMNS', '20'), ('USER', 'x'), ('PWD', '/'), ('IFS', 'a'), ('DEBUG', '1'), ('ANNOTATIONS', cwd), ('TERM', 'dumb')):
        if rng.random() < .5:
            env[k] = v
    p = subprocess.run([sys.executable, '-B', *rng.choice([[], [], ['-O'], ['-OO']]), '-m', 'pav.purity', core.VERIF, str(rng.random())], input=json.dumps(list(ref)).encode(), cwd=cwd,
                       env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
    if p.returncode:
        mon.fail('raises in a new process: ' + p.stderr.decode('utf-8', 'replace')[-300:])
        return
    mon.count('processes')
    got = dict(json.loads(p.stdout))
    for l in ref:
        mon.count('recomputed_in_processes')
        want = purity.digest(ref[l])
        mon.check(got.get(l) == want, lambda: f'different answer in a new process: {l!r} in {[k for k in want if (got.get(l) or {}).get(k) != want[k]]}')
        mon.nontrivial((l, 'process'))
