"""C22: announced combinations of adjacent lines are right."""
from . import gen, lower, parcheck as pc, real
from .parcheck import Broken

RULE = ('uniq and tr x flags/options (none, singles, pairs, random lists) in random spellings, on texts of 2-9 lines with repeated, nearly '
        'equal and blank lines, cut at every line boundary and into random 3-5 chunks; for each offered parallelizer with an adjacent-lines '
        'aggregator (which has no implementation), the mapper is executed on every chunk and the results are combined by a reference '
        'implementation of the kind of aggregator: the last line of one and the first line of the next result are joined (merge) or given to '
        'the original command (seq), from left to right, from right to left and balanced; compared with the real sequential run. For a function '
        'of the two lines that is only a placeholder (func), what it has to return is taken from the sequential output, and has to be the same '
        'for the same two lines in all texts and cuts. Non-trivial: two or more non-empty results were combined and the sequential output is '
        'not empty; counted by distinct (line, text, cut)')
ASSUMPTIONS = ['a placeholder for a function (adj_lines_func) may become any function of the two lines',
               'whether joined lines end in a newline at the very end of the output is not decided', 'chunks and their results are not empty']
REQUIRED = ['oracle_decisions', 'kind_seq', 'kind_merge', 'kind_func', 'combined', 'consec', 'round_robin', 'multi_cuts', 'not_offered', 'same_lines_again']
BATCH = 6
POOL = ['a', 'a', 'a', 'A', 'b', 'B', 'ab', 'aB', 'b a', 'a a', 'c a', ' a', '  a', '', '', 'b b a', 'x', '1', 'aa', 'aab', 'caa', ' ', 'b  a', 'a\tb', '\ta']


def cases(ctx):
    rng = ctx.rng('c22')
    for cmd, k1, k2 in (('uniq', ctx.n(24, 300), ctx.n(5, 60)), ('tr', ctx.n(40, 600), ctx.n(24, 400))):
        for fl in gen.pairs(cmd, pc.exclude(cmd)):
            for _ in range(k1 * 2 if not fl else k1 if len(fl) == 1 else k2):
                yield case(rng, cmd, fl)
        for _ in range(ctx.n(500, 20000)):
            yield case(rng, cmd, gen.rand_flags(rng, cmd, 5, pc.exclude(cmd)))


def case(rng, cmd, fl):
    line = pc.cmd_line(rng, cmd, fl, pc.operands(rng, cmd, [k for k, _ in fl]))
    few = rng.sample(POOL, rng.choice([1, 2, 2, 3, 5]))
    runs = []
    for _ in range(3):
        text = [rng.choice(few) for _ in range(rng.randint(2, 9))]
        k = len(text)
        cuts = [[i] for i in range(1, k)]
        if rng.random() < .7:
            cuts = rng.sample(cuts, min(3, len(cuts))) + [sorted(rng.sample(range(1, k), min(k - 1, rng.randint(2, 4))))]
        runs.append([text, cuts])
    return ['adjacent', line, runs]


def fold(parts, shape, join):
    if shape == 'left':
        acc = parts[0]
        for p in parts[1:]:
            acc = join(acc, p)
        return acc
    if shape == 'right':
        acc = parts[-1]
        for p in reversed(parts[:-1]):
            acc = join(p, acc)
        return acc
    while len(parts) > 1:
        parts = [join(*parts[i:i + 2]) if i + 1 < len(parts) else parts[i] for i in range(0, len(parts), 2)]
    return parts[0]


def lines(x):
    ls = x.split(b'\n')
    return [l + b'\n' for l in ls[:-1]] + [ls[-1]] * bool(ls[-1])


def kind_of(p):
    a = p.get_aggregator_spec()
    return 'seq' if a.is_aggregator_spec_adj_lines_seq() else 'merge' if a.is_aggregator_spec_adj_lines_merge() else \
        'func' if a.is_aggregator_spec_adj_lines_func() else None


def evaluate(c, mon):
    _, line, runs = c
    st = pc.Setup(line)
    if not st.ok:
        mon.count('not_applicable')
        return
    pars = [p for p in st.parallelizers if kind_of(p)]
    if not pars:
        mon.count('not_offered')
        return
    for p in pars:
        sp = p.get_splitter()
        mon.count('consec' if sp.is_splitter_consec_chunks() else 'round_robin' if sp.is_splitter_round_robin() else 'other_splitter')
        mon.count('kind_' + kind_of(p))
        function = {}
        for text, cuts in runs:
            with real.Scratch() as s:
                if not run(mon, st, pc.Machine(s, st.names), p, kind_of(p), function, line, text, cuts):
                    return


def run(mon, st, m, p, kind, function, line, text, cuts):
    data = pc.enc(text)
    want, rc = pc.sequential(m, st, data)
    if rc:
        mon.count('sequential_fails')
        return False

    def join(x, y):
        mon.count('combined', int(bool(x and y)))
        xs, ys = lines(x), lines(y)
        if not xs or not ys:
            return x + y
        if kind == 'merge':
            return x.removesuffix(b'\n') + y
        mid = m.val[pc.map_pieces(m, st, p, [xs[-1] + ys[0]])[0][0]]
        return b''.join(xs[:-1]) + mid + b''.join(ys[1:])
    for cut in cuts:
        pieces = pc.cut(text, cut)
        if kind == 'func' and len(pieces) > 2:
            continue
        mon.count('multi_cuts', int(len(pieces) > 2))
        try:
            parts = [m.val[o] for o, _ in pc.map_pieces(m, st, p, pieces)]
            if kind == 'func':
                needed(mon, function, parts, want, line, data, cut)
                continue
            for sh in ['left', 'right', 'balanced'][:3 if len(pieces) > 2 else 1]:
                got = fold(list(parts), sh, join)
                ok = got == want if kind == 'seq' else got.removesuffix(b'\n') == want.removesuffix(b'\n')
                mon.check(ok, lambda: f'output differs: {line!r} on {data!r} cut at {cut} ({sh}): {got!r}, sequentially {want!r}')
        except (Broken, AssertionError) as e:
            mon.check(False, f'cannot be executed: {line!r} cut at {cut}: {type(e).__name__} {e}')
            return False
        if want and sum(map(bool, parts)) > 1:
            mon.nontrivial((line, data, tuple(cut)))
    if want and len(pieces) > 2:
        mon.sample({'line': line, 'text': data.decode('latin1'), 'cuts': cuts, 'output': want.decode('latin1')[:200]})
    return True


def needed(mon, function, parts, want, line, data, cut):
    """what a function of the two adjacent lines has to return here, against what it had to return before"""
    xs, ys = map(lines, parts)
    if not xs or not ys:
        return
    head, tail = b''.join(xs[:-1]), b''.join(ys[1:])
    fits = want.startswith(head) and want.endswith(tail) and len(head) + len(tail) <= len(want)
    mon.check(fits, lambda: f'no function of adjacent lines gives {want!r} from {parts}: {line!r} on {data!r} cut at {cut}')
    if not fits:
        return
    mid = want[len(head):len(want) - len(tail)]
    mon.count('same_lines_again', int((xs[-1], ys[0]) in function))
    before, old = function.setdefault((xs[-1], ys[0]), (mid, data))
    mon.check(before == mid, lambda: f'{xs[-1]!r}, {ys[0]!r} have to give {mid!r} on {data!r} and {before!r} on {old!r}: {line!r}')
    if want:
        mon.nontrivial((line, data, tuple(cut)))
