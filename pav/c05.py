"""C05: everything a command reads is declared as an input."""
from . import iocheck as io, spec, real

RULE = ('(a) every annotated command x flags/options (none, singles, pairs, random lists) x operand shapes against a reference model of '
        'its inputs; (b) real runs of the standard tools in scratch directories while inotify and the stdin pipe record what is read. '
        'Non-trivial: information was provided and something is (or was observed to be) read; counted by distinct command line')
ASSUMPTIONS = ['GNU coreutils/grep/sed/diffutils/findutils and mawk as installed', 'optspec.json for option argument types (probed by C03)',
               'commands started by xargs are outside the property']
REQUIRED = ['oracle_decisions', 'model_inputs', 'runs', 'runs_reading_files', 'runs_reading_stdin', 'reads_observed']
BATCH = 40


def cases(ctx):
    yield from io.run_cases(ctx, 6, .25 if not ctx.thorough else 3, ctx.n(3000, 100000))
    yield from io.model_cases(ctx, ctx.n(8000, 200000))


def evaluate(case, mon):
    line = case[1]
    if case[0] == 'model':
        flags, ops, exp, view = io.model_and_actual(line)
        if exp is None or view is None:
            return
        fl, op = io.typed(view)
        got, want = fl + op, exp['flags'] + exp['operands']
        names = [a for _, a in flags] + ops
        if not mon.check(len(got) == len(want), lambda: f'number of words: {line!r}'):
            return
        nt = False
        for g, w, n in zip(got, want, names):
            if w in io.INPUTS:
                nt = True
                mon.count('model_inputs')
                mon.check(g in io.INPUTS, lambda: f'input not declared: {line!r}: {n!r} is {w} but declared {g}')
                mon.check(g == w or w != 'STREAM_INPUT' or g not in io.INPUTS,
                          lambda: f'streaming input not declared as such: {line!r}: {n!r} declared {g}')
        if exp['in']:
            nt = True
            mon.count('model_inputs')
            mon.check(view['in'] == ('std', 'STDIN', 'STREAM_INPUT'), lambda: f'standard input not declared: {line!r} reads it, declared {view["in"]}')
        if nt:
            mon.nontrivial(line)
        return
    flags, ops, view, r = io.observe(line)
    if view is None:
        mon.count('no_info')
        return
    mon.count('runs')
    mon.count('runs_succeeded', int(r.rc == 0))
    mon.count('runs_reading_files', int(bool(r.read)))
    mon.count('runs_reading_stdin', int(r.stdin_used))
    mon.count('reads_observed', len(r.read))
    dec = io.declared(view)
    names = {io.norm(n): a for k, n, a in dec if k == 'file' and a in io.INPUTS}
    containers = {n for n, a in names.items() if a == 'CONTAINER_FOR_INPUT'}
    listed = {io.norm(x) for c in containers for x in str(real.CONTENT.get(c, '')).split('\0')}
    if ('std', 'STDIN', 'CONTAINER_FOR_INPUT') in dec:
        listed |= set(r.read)
    for f in r.read:
        ok = f in names or f in listed or any(f.startswith(n + '/') for n in names)
        # a file the command itself has just written (or replaced) may be looked at again
        ok = ok or (f in r.touched and any(k == 'file' and io.norm(n) == f for k, n, a in dec if a in io.OUTPUTS))
        mon.check(ok, lambda: f'read but not declared: {line!r} reads {f!r}; declared inputs {sorted(names)}; {io.summary(r)}')
    if r.stdin_used:
        mon.check(any(d[0] == 'std' and d[1] == 'STDIN' and d[2] in io.INPUTS for d in dec),
                  lambda: f'standard input read but not declared: {line!r}; {io.summary(r)}')
    if r.read or r.stdin_used:
        mon.nontrivial(line)
        if len(view['operands']) > 1:
            mon.sample({'line': line, 'declared': repr(dec), 'observed': io.summary(r)})
