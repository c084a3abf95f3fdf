"""C06: everything a command writes is declared as an output."""
from . import iocheck as io, spec

RULE = ('(a) every annotated command x flags/options (none, singles, pairs, random lists) x operand shapes against a reference model of '
        'its outputs; (b) real runs of the standard tools in scratch directories, comparing the directory before and after, with inotify '
        'and captured standard output. Non-trivial: something is (or was observed to be) written; counted by distinct command line')
ASSUMPTIONS = ['GNU coreutils/grep/sed/diffutils/findutils and mawk as installed', 'optspec.json for option argument types (probed by C03)',
               'scripts of sed and awk which write files, and mv/rm told to report or ask, are recorded findings and not generated']
REQUIRED = ['oracle_decisions', 'model_outputs', 'runs', 'runs_writing_files', 'runs_writing_stdout', 'writes_observed']
BATCH = 40


def cases(ctx):
    w = ['sort', 'uniq', 'tee', 'mv', 'rm', 'mkfifo'] * 3 + io.TOOLS
    yield from io.run_cases(ctx, 6, .25 if not ctx.thorough else 3, ctx.n(4000, 100000), weights=w)
    yield from io.model_cases(ctx, ctx.n(8000, 200000))


def evaluate(case, mon):
    line = case[1]
    if case[0] == 'model':
        flags, ops, exp, view = io.model_and_actual(line)
        if view is None:
            return
        if exp is None:
            ws = io.split(line)
            if ws[0] == 'sed':
                mon.check('-i' not in [g.key for g, _ in flags], lambda: f'in-place editing not refused: {line!r}')
            return
        fl, op = io.typed(view)
        got, want = fl + op, exp['flags'] + exp['operands']
        names = [a for _, a in flags] + ops
        if not mon.check(len(got) == len(want), lambda: f'number of words: {line!r}'):
            return
        nt = False
        for g, w, n in zip(got, want, names):
            if w in io.OUTPUTS:
                nt = True
                mon.count('model_outputs')
                mon.check(g == w, lambda: f'output not declared: {line!r}: {n!r} is {w} but declared {g}')
            elif w == 'OTHER_INPUT' and io.split(line)[0] == 'mv':
                mon.check(g in ('OTHER_INPUT', 'OTHER_OUTPUT'), lambda: f'moved file not declared: {line!r}: {n!r} declared {g}')
        if exp['out']:
            nt = True
            mon.count('model_outputs')
            mon.check(view['out'] == ('std', 'STDOUT', 'STREAM_OUTPUT'), lambda: f'standard output not declared: {line!r}, declared {view["out"]}')
        if nt:
            mon.nontrivial(line)
        return
    flags, ops, view, r = io.observe(line)
    if view is None:
        mon.count('no_info')
        return
    mon.count('runs')
    mon.count('runs_succeeded', int(r.rc == 0))
    mon.count('runs_writing_files', int(bool(r.touched)))
    mon.count('runs_writing_stdout', int(bool(r.out)))
    mon.count('writes_observed', len(r.touched))
    dec = io.declared(view)
    outs = {io.norm(n) for k, n, a in dec if k == 'file' and a in io.OUTPUTS}
    moved = {io.norm(n) for k, n, a in dec if k == 'file' and a == 'OTHER_INPUT'}
    for f in r.touched:
        ok = f in outs or any(f.startswith(o + '/') or (f.startswith(o) and len(f) - len(o) <= 6 and f[len(o)] in '~.') for o in outs)
        if not ok and (f in moved or any(f.startswith(o + '/') for o in moved)):
            ok = f not in r.after                  # moved away
        mon.check(ok, lambda: f'written but not declared: {line!r} changes {f!r}; declared outputs {sorted(outs)}; {io.summary(r)}')
    if r.out:
        mon.check(any(d[0] == 'std' and d[1] == 'STDOUT' and d[2] in io.OUTPUTS for d in dec),
                  lambda: f'standard output written but not declared: {line!r}; {io.summary(r)}')
    if r.touched or r.out:
        mon.nontrivial(line)
        if r.touched and len(view['operands']) > 1:
            mon.sample({'line': line, 'declared': repr(dec), 'observed': io.summary(r)})
