"""C08: unknown or unsupported invocations are refused, never guessed; supported ones are not."""
import signal
from . import iocheck as io, spec, words, api, gen, c01

RULE = ('arbitrary word lists (as for C01: known and unknown spellings, clusters, odd and hostile words, unknown commands) and all annotated '
        'commands x flags/options x operand shapes, and lines of up to some thousand characters made of repeated parts; nothing may raise or take long, and information is given exactly if the reference model says so. '
        'Non-trivial: distinct command lines')
ASSUMPTIONS = ['the reference model (iomodel.py) decides which invocations are supported']
REQUIRED = ['oracle_decisions', 'refused', 'provided', 'par_provided', 'par_refused', 'unknown_commands', 'long_lines', 'strings_seen']
BATCH = 60
LIMIT = 8         # seconds of computing, for all answers about one line


def cases(ctx):
    rng = ctx.rng()
    for cn in c01.UNKNOWN + ['bigram_aux_map', 'bigram_aux_reduce', 'export', 'None', 'Interface', 'Grep', '']:
        for ws in ([], ['-n'], ['f1'], ['-n', 'f1', 'f2'], ['--lines=3', 'f1']):
            yield ['line', words.line_of(rng, [cn] + ws)]
    yield from (['line', l] for _, l in io.model_cases(ctx, ctx.n(20000, 400000)))
    yield from (['long', l] for l in long_lines(ctx))
    for i, wl in enumerate(c01.lists(ctx)):
        if ctx.thorough or i % 3 == 0:
            yield ['line', words.line_of(rng, wl)]


REPEATED = {
    'sed': ['s/a/b/', 's/a/b/;', ' s/[a/]/b/', 'p;', 'p ;', ' p', '\np\n', '/a/p;', '/a/ ! p ;', '/a/{p;}', '{p}', '{', '}', ';', ' ', 'y/a/b/;', 'y/a', 's/', 's/[]a]', 's/[^]a]x/y/;',
            '/[a', '/a/ ', 'a x\n', 'i\\\n x\n', 'b;', 'b x;', ' b \n', ':a;', 't\n', 's/a/\\\n/;', '\\/', '[]', '[^]', 's;a;b;;', '\t', 'P G l '],
    'tr': ['a-z', '\\n', '\\0-\\377', '[:space:]', '[a*5]', '\\', '-', '[', '[=a=]', '\\12'],
    'grep': ['a*', '(a|', '[a', '\\(', '.*', 'a'],
    'sort': ['1,', '2n', '.', 'R'],
    '': ['-', '--', '=', 'a', '-x', ' ', "'", '\\', '{}', '0', ',', 'x=', '-f', '-n', '\n'],
}


def long_lines(ctx):
    """lines of many equal parts, which take long if some part can be read in several ways"""
    rng = ctx.rng('long')
    for cn in list(spec.CMDS) + ['unknown']:
        c = spec.CMDS.get(cn, spec.EMPTY)
        parts = REPEATED.get(cn, []) * 3 + REPEATED['']
        names = [n for g in c.groups for n in g.names] or ['-z']
        for _ in range(ctx.n(14, 200) * (25 if cn == 'sed' else 4 if cn in ('tr', 'grep', 'sort') else 1)):
            unit = ''.join(rng.choice(parts) for _ in range(rng.choice([1, 1, 2, 3])))
            w = unit * rng.choice([25, 40, 400, 1500]) + rng.choice(['', '', 'x', '!', '}', 'N', '\n', '/', ' '])
            if cn == 'sed' and rng.random() < .5:
                w = rng.choice(['s/a/b/', '/', 's/', 'y/']) + w
            kind = rng.choice(['operand', 'operand', 'arg', 'arg', 'cluster', 'operands', 'flags'])
            if kind == 'operands':
                ws = [rng.choice(names)] + [rng.choice([unit, 'f%d' % i]) for i in range(rng.choice([50, 700]))]
            elif kind == 'flags':
                ws = [rng.choice(names) for _ in range(rng.choice([50, 700]))]
            elif kind == 'cluster':
                ws = ['-' + ''.join(rng.choice([n[1] for n in names if len(n) == 2] or ['z']) for _ in range(rng.choice([60, 2000])))]
            elif kind == 'arg':
                o = [n for g in c.options for n in g.names] or ['--zz']
                ws = [x for _ in range(rng.choice([1, 2])) for x in (rng.choice(['-e'] * 2 + o) if cn == 'sed' else rng.choice(o), w)]
            else:
                ws = [rng.choice(names) for _ in range(rng.choice([0, 0, 1]))] + [w] * rng.choice([1, 2])
            yield words.line_of(rng, [cn] + ws, 'single')


class TooLong(BaseException):
    pass


def too_long(*_):
    raise TooLong()


def evaluate(case, mon):
    if case[0] == 'long':
        mon.count('long_lines')
    old = signal.signal(signal.SIGVTALRM, too_long)
    signal.setitimer(signal.ITIMER_VIRTUAL, LIMIT)
    try:
        answers(case, mon)
    except TooLong:
        mon.fail(f'no answer after {LIMIT} s of computing: {case[1][:300]!r}, {len(case[1])} characters')
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, old)


def answers(case, mon):
    line = case[1]
    ws = io.split(line)
    try:
        inv = api.parse(line)
    except Exception as e:
        mon.check(False, f'parse raised {type(e).__name__}: {e} on {line!r}')
        return
    try:
        info = api.io_info(inv)
    except Exception as e:
        mon.check(False, f'input-output annotation raised {type(e).__name__}: {e} on {line!r}')
        return
    try:
        par = api.par_info(inv)
    except Exception as e:
        mon.check(False, f'parallelizability annotation raised {type(e).__name__}: {e} on {line!r}')
        return
    if info is not None:
        try:
            info.apply_input_output_info_to_command_invocation(inv)
            info.has_other_outputs()
        except Exception as e:
            mon.check(False, f'applying the information raised {type(e).__name__}: {e} on {line!r}')
    if par is not None:
        try:
            par.unpack_info()
            mon.count('strings_seen')
            repr(par), repr(info), repr(inv)
        except Exception as e:
            mon.check(False, f'reading the parallelizability information raised {type(e).__name__}: {e} on {line!r}')
    mon.nontrivial(line)
    cmd = ws[0]
    flags, ops = spec.classify(cmd, ws[1:])
    from . import iomodel
    exp = iomodel.expected(cmd, flags, ops)
    mon.count('refused', int(exp is None))
    mon.count('provided', int(exp is not None))
    if cmd not in spec.ANNOTATED_IO:
        mon.count('unknown_commands')
    mon.check(exp is not None or info is None, lambda: f'not refused: {line!r} got input-output information {info!r}'[:600])
    mon.check(exp is None or info is not None, lambda: f'refused: {line!r} got no input-output information')
    if cmd not in spec.ANNOTATED_PAR:
        mon.check(par is None, lambda: f'not refused: {line!r} got parallelizability information')
    elif iomodel.option_among_operands(cmd, ops):
        mon.count('par_refused')
        mon.check(par is None, lambda: f'not refused: {line!r} got parallelizability information in spite of an unknown or late option')
    elif exp is not None and (cmd != 'tr' or ops):
        mon.count('par_provided')
        mon.check(par is not None, lambda: f'refused: {line!r} got no parallelizability information')
    if exp is None and cmd in spec.ANNOTATED_IO and len(ws) > 3:
        mon.sample({'line': line, 'refused': True})
