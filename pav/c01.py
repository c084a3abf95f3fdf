"""C01: parse() vs. the words real shells pass and a reference left-to-right classification of them."""
import itertools
from . import spec, words, api
from .core import Inconclusive

RULE = ('word lists are built per command from every known spelling, clusters, attached arguments, unknown options, -, --, empty and '
        'odd words, then rendered as shell text in random quoting; sh and bash decide which words the text stands for. '
        'Non-trivial: at least one flag/option or operand after the command name; counted by distinct word list')
ASSUMPTIONS = ['plain shell words only (no expansions, globs, operators, comments, line continuations)',
               'optspec.json is the reference for which spellings are known (probed against the tools by C03)']
REQUIRED = ['oracle_decisions', 'shell_agreed', 'flags_seen', 'options_seen', 'attached_seen', 'clusters_seen', 'operands_seen']
BATCH = 4

ODD = ['', '-', '--', ' ', 'a b', "it's", '"q"', '\\', 'a\\b', '\\n', '\n', 'a\nb', '\t', '$HOME', '`x`', '*', '?', '[a]', '~', '#c', 'a#b',
       ';', '|', '&', '<f', '>f', '(', ')', '!', '{a,b}', '{}', 'x=1', '=', 'é', '日本', '-é', '--é=1', '---', '--=', '-=', '- ', '-\n', 'f1',
       'file.txt', './-x', '/etc/passwd', '1', '-1', '-12', '+2', '%', '^a.*b$', 's/a/b/g', '{print $1}', 'a' * 300, "'", "''", '\\\\',
       '--unknown', '--unknown=3', '-Ω', '--help=x', '\u00a0', 'a\rb', '\x0b', '"', '""', 'a"b\'c']
UNKNOWN = ['ls', 'foo', 'Grep', 'grepp', 'gre', '/usr/bin/grep', '_default_data_for_commands', 'sortx', 'cat.json', 'cat.json/x', 'x' * 300,
           'a b', 'set_diff', 'bigrams_aux', 'test_one', 'é', '-', '-n', 'paste', 'bigram_aux_map', 'nl', 'rev', 'tac', '[', 'CAT']


def pool(c):
    return [n for g in c.groups for n in g.names]


def rand_word(rng, c):
    r = rng.random()
    fl = [n for g in c.flags for n in g.names]
    op = [n for g in c.options for n in g.names]
    if r < .25 and fl:
        return rng.choice(fl)
    if r < .45 and op:
        return rng.choice(op)
    if r < .55 and op:
        o = rng.choice(op)
        arg = rng.choice(['5', 'x', '', 'a b', '=', '-1', "'", '-', 'f1', '=x'])
        return (o + '=' + arg) if o.startswith('--') else o + arg
    if r < .68:
        sh = [n[1] for n in fl + op if len(n) == 2]
        if sh:
            return '-' + ''.join(rng.choice(sh) for _ in range(rng.randint(1, 4))) + rng.choice(['', '', '', '3', 'x', '-', '='])
    if r < .8:
        return rng.choice(ODD)
    if r < .9:
        return rng.choice(['f1', 'f2', 'a.txt', '3', 'pat', 'x y'])
    return ''.join(rng.choice('ab-= \'"\\n#$.é\t') for _ in range(rng.randint(0, 6)))


def lists(ctx):
    rng = ctx.rng('lists')
    cmds = list(spec.CMDS)
    for cn in cmds:
        c = spec.CMDS[cn]
        yield [cn]
        for g in c.groups:
            for n in g.names:
                yield [cn, n]
                yield [cn, n, 'f1', 'f2']
                yield [cn, n, '-']
                yield [cn, n, n, 'f1']
                yield [cn, n, '', 'f1']
                yield [cn, 'f1', n, 'f2']
                yield [cn, n, '--', 'f1']
                for arg in ('=5', '5', '=', '=a=b', '=-', '-', ' '):
                    yield [cn, n + arg, 'f1']
                if n.startswith('--'):
                    yield [cn, n[:-1], 'f1']
                    yield [cn, n + 'x', 'f1']
                    yield [cn, n[1:], 'f1']
                else:
                    yield [cn, '-' + n, 'f1']
        sh = [n for g in c.groups for n in g.shorts]
        for a, b in itertools.product(sh, sh):
            yield [cn, '-' + a[1] + b[1], 'f1', 'f2']
            if ctx.thorough or rng.random() < .1:
                yield [cn, '-' + a[1] + b[1] + '7', 'f1']
                yield [cn, '-' + a[1] + b[1]]
        for w in ODD:
            yield [cn, w]
            yield [cn, w, 'f1', '-x']
            if c.options:
                o = rng.choice([n for g in c.options for n in g.names])
                yield [cn, o, w, 'f1']
                yield [cn, o + ('=' if o.startswith('--') else '') + w, 'f1']
            if c.flags:
                yield [cn, rng.choice([n for g in c.flags for n in g.names]), w, 'f1']
    for cn in UNKNOWN:
        for ws in ([], ['-n'], ['-n', 'f1'], ['--lines=3', 'f1'], ['f1', '-r'], ['', 'x'], ['-']):
            yield [cn] + ws
    for cn in cmds:                     # names which are nearly those of a command
        some = [g.names[0] for g in spec.CMDS[cn].groups][:3] + ['-n']
        for near in (cn + ' ', ' ' + cn, cn + '\n', '\t' + cn, cn + '/', './' + cn, '/bin/' + cn, '/' + cn, '//' + cn, cn.upper(), cn.title(), cn + '.exe', cn + '.json',
                     '../data/' + cn, './/' + cn, 'x/../' + cn, '\\' + cn, cn + '-', cn.replace('_', '-') + '_', cn + '1', cn[:-1]):
            if near not in spec.CMDS and near:
                yield [near] + some + ['f1']
                yield [near, rng.choice(some)]
    for _ in range(ctx.n(100000, 2000000)):
        cn = rng.choice(cmds) if rng.random() < .95 else rng.choice(UNKNOWN)
        c = spec.CMDS.get(cn, spec.EMPTY)
        yield [cn] + [rand_word(rng, c) for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 6, 9] if rng.random() < .97 else [12, 17, 30]))]


def cases(ctx):
    rng = ctx.rng('quoting')
    batch = []
    for wl in lists(ctx):
        batch.append([wl, words.line_of(rng, wl)])
        if len(batch) == 100:
            yield batch
            batch = []
    if batch:
        yield batch


def evaluate(case, mon):
    if case and isinstance(case[0], str):
        case = [case]
    lines = [l for _, l in case]
    for shell in ('sh', 'bash'):
        got, err = words.shell_words(lines, shell)
        if got != [w for w, _ in case]:
            bad = next((i for i, (g, (w, _)) in enumerate(zip(got, case)) if g != w), None)
            raise Inconclusive(f'{shell} does not agree with the rendering: {case[bad] if bad is not None else err[:100]!r}')
        mon.count('shell_agreed', len(lines))
    mon.evals += len(case) - 1
    for wl, line in case:
        mon.case = [wl, line]
        try:
            inv = api.parse(line)
        except Exception as e:
            mon.fail(f'parse raised {type(e).__name__}: {e} on {line!r}')
            continue
        cmd, fl, ops = api.view_inv(inv)
        exp, exp_ops = spec.classify(wl[0], wl[1:])
        mon.count('flags_seen', sum(not g.is_option for g, _ in exp))
        mon.count('options_seen', sum(g.is_option for g, _ in exp))
        mon.count('operands_seen', len(exp_ops))
        consumed = wl[1:len(wl) - len(exp_ops)]
        if len(exp) and sum(1 + g.is_option for g, _ in exp) > len(consumed):
            mon.count('attached_seen')
            mon.count('clusters_seen', int(any(len(w) > 2 and w[0] == '-' and w[1] != '-' for w in consumed)))
        if len(wl) > 1:
            mon.nontrivial(wl)
        if len(wl) > 4:
            mon.sample({'line': line, 'words': wl, 'parsed': repr((cmd, fl, ops))})
        mon.check(cmd == wl[0], lambda: f'command name: {line!r} -> {cmd!r}')
        mon.check(ops == exp_ops, lambda: f'operands: {line!r} -> {ops!r}, expected {exp_ops!r}')
        ok = len(fl) == len(exp) and all(f[0] in g.names and (len(f) == 2) == g.is_option and (not g.is_option or f[1] == a)
                                         for f, (g, a) in zip(fl, exp))
        mon.check(ok, lambda: f'flags and options: {line!r} -> {fl!r}, expected {[(g.names, a) for g, a in exp]!r}')
