"""C07: declared streams are really used."""
from . import iocheck as io, spec

RULE = ('(a) every annotated command x flags/options (none, singles, pairs, random lists) x operand shapes against a reference model: no '
        'stream or file is declared that the model does not have; (b) successful real runs of the standard tools under observation: each '
        'declared streaming input is read, each declared streaming output file is written, a declared standard input is consumed. '
        'Non-trivial: at least one stream is declared; counted by distinct command line')
ASSUMPTIONS = ['GNU coreutils/grep/sed/diffutils/findutils and mawk as installed', 'xargs -a (the started command inherits standard input) and '
               'invocations that may stop before their input ends (grep -q, grep file selection, sed q, head of nothing) are not run in (b)']
REQUIRED = ['oracle_decisions', 'model_streams', 'runs', 'runs_succeeded', 'stream_inputs_confirmed', 'stdin_confirmed',
            'stream_outputs_confirmed']
BATCH = 40
EARLY = {'grep': {'-q', '--include', '--exclude', '--exclude-from', '--exclude-dir', '-d', '-D', '-m'}, 'xargs': {'-a'},
         'sort': {'-c', '-C', '--files0-from', '--random-source'}, 'diff': {'-S', '-q'}, 'comm': set()}


def cases(ctx):
    w = ['sort', 'uniq', 'tee', 'cat', 'grep', 'comm', 'head', 'tail', 'wc', 'cut', 'sed', 'awk', 'diff', 'tr']
    for c in io.run_cases(ctx, 6, .25 if not ctx.thorough else 3, ctx.n(4000, 100000), weights=w):
        yield c
    yield from io.model_cases(ctx, ctx.n(8000, 200000))


def evaluate(case, mon):
    line = case[1]
    if case[0] == 'model':
        flags, ops, exp, view = io.model_and_actual(line)
        if exp is None or view is None:
            return
        fl, op = io.typed(view)
        got, want = fl + op, exp['flags'] + exp['operands']
        names = [a for _, a in flags] + ops
        if not mon.check(len(got) == len(want), lambda: f'number of words: {line!r}'):
            return
        for g, w, n in zip(got, want, names):
            mon.count('model_streams', int(w in ('STREAM_INPUT', 'STREAM_OUTPUT')))
            mon.check(w != 'ARG' or g == 'ARG', lambda: f'plain word declared as a file: {line!r}: {n!r} declared {g}')
            mon.check(g not in ('STREAM_INPUT', 'STREAM_OUTPUT') or g == w,
                      lambda: f'invented stream: {line!r}: {n!r} is {w} but declared {g}')
        mon.check(exp['in'] or view['in'] is None, lambda: f'standard input invented: {line!r} declares {view["in"]}')
        mon.check(exp['out'] or view['out'] is None, lambda: f'standard output invented: {line!r} declares {view["out"]}')
        mon.nontrivial(line)
        return
    ws = io.split(line)
    flags, ops = spec.classify(ws[0], ws[1:])
    keys = [g.key for g, _ in flags]
    if EARLY.get(ws[0], set()) & set(keys) or (ws[0] == 'diff' and len(set(ops)) < len(ops)) or ops.count('-') > 1:
        mon.count('not_run')
        return
    flags, ops, view, r = io.observe(line)
    if view is None:
        mon.count('no_info')
        return
    mon.count('runs')
    ok_rc = (0, 1) if ws[0] in ('grep', 'diff') else (0,)
    if r.rc not in ok_rc:
        mon.count('runs_failed')
        return
    mon.count('runs_succeeded')
    dec = io.declared(view)
    used = False
    for k, n, a in dec:
        if k == 'file' and a == 'STREAM_INPUT':
            f = io.norm(n)
            used = True
            if not (f in r.before and r.before[f][0] == 'file') and not any(x.startswith(f + '/') for x in r.read):
                continue
            mon.count('stream_inputs_confirmed')
            mon.check(f in r.read or any(x.startswith(f + '/') for x in r.read),
                      lambda: f'declared streaming input not read: {line!r}: {n!r}; {io.summary(r)}')
        elif k == 'file' and a == 'STREAM_OUTPUT':
            used = True
            mon.count('stream_outputs_confirmed')
            mon.check(io.norm(n) in r.opened_w, lambda: f'declared streaming output not written: {line!r}: {n!r}; {io.summary(r)}')
    if any(d[0] == 'std' and d[1] == 'STDIN' and d[2] == 'STREAM_INPUT' for d in dec):
        used = True
        mon.count('stdin_confirmed')
        mon.check(r.stdin_used, lambda: f'declared standard input not consumed: {line!r}; {io.summary(r)}')
    if ws[0] in ('mv', 'rm', 'mkfifo'):
        mon.check(view['out'] is None or '-v' in keys, lambda: f'standard output invented: {line!r}')
    if used:
        mon.nontrivial(line)
        if len(dec) > 2:
            mon.sample({'line': line, 'declared': repr(dec), 'observed': io.summary(r)})
