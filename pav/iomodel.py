"""Reference model of what an invocation of an annotated command reads and writes.

expected(cmd, flags, operands) -> None (must be refused) or
  {'flags': [None | 'ARG' | access], 'operands': ['ARG' | access], 'in': bool, 'out': bool}
Written from the tools' documentation; validated against the real tools by the execution part of C05-C07.
"""
from . import spec

S, SO, OI, OO, CI = 'STREAM_INPUT', 'STREAM_OUTPUT', 'OTHER_INPUT', 'OTHER_OUTPUT', 'CONFIG_INPUT'


def option_among_operands(cmd, ops):
    """unknown options, options after operands, --"""
    looks = lambda o: o.startswith('-') and o != '-'
    return cmd in spec.OPTIONS_ANYWHERE and any(looks(o) for o in ops) or cmd in spec.OPTIONS_FIRST and bool(ops) and looks(ops[0])


def expected(cmd, flags, ops):
    """flags: list of (Group, arg)"""
    if cmd not in spec.ANNOTATED_IO or option_among_operands(cmd, ops):
        return None
    keys = [g.key for g, _ in flags]
    has = lambda *k: any(x in keys for x in k)
    n = len(ops)
    fl = [None if not g.is_option else (g.access or 'ARG') for g, _ in flags]
    r = lambda o, i, out: {'flags': fl, 'operands': o, 'in': i, 'out': out}
    if cmd in ('cat', 'cut', 'head', 'tail'):
        return r([S] * n, n == 0, True)
    if cmd == 'comm':
        return r([S, S], False, True) if n == 2 else None
    if cmd == 'diff':
        return r([S] * n, False, True)
    if cmd in ('grep', 'sed', 'awk'):
        prog = 0 if has(*{'grep': ['-e', '-f'], 'sed': ['-e', '-f'], 'awk': ['-f', '-e', '-E']}[cmd]) else 1
        if n < prog:
            return None
        if cmd == 'grep' and has('-r', '-R', '-d') and n == prog:
            return None
        if cmd == 'sed' and has('-i'):
            return None
        return r(['ARG'] * prog + [S] * (n - prog), n == prog, not (cmd == 'grep' and has('-q')))
    if cmd in ('sort', 'custom_sort'):
        return r([S] * n, n == 0 and not has('--files0-from'), not has('-o'))
    if cmd == 'wc':
        return None if has('--files0-from') else r([S] * n, n == 0, True)
    if cmd == 'uniq':
        return None if n > 2 else r([S, SO][:n], n == 0, n < 2)
    if cmd == 'tee':
        return r([SO] * n, True, True)
    if cmd in ('tr', 'custom_tr', 'xargs'):
        return r(['ARG'] * n, True, True)
    if cmd == 'seq':
        return r(['ARG'] * n, False, True)
    if cmd == 'mv':
        t = keys.count('-t')
        if t > 1 or (t == 0 and n == 0):
            return None
        return r([OI] * n if t else [OI] * (n - 1) + [OO], False, False)
    if cmd in ('rm', 'mkfifo'):
        return r([OO] * n, False, cmd == 'rm' and has('-v'))
    if cmd == 'set_diff':
        return r([CI], True, True) if n == 1 else None
    if cmd == 'alt_bigram_aux_reduce':
        return r([S] * n, False, True)
    # col, alt_bigrams_aux, bigrams_aux, test_one, test_two: filters
    return r([S] * n, True, True)


def shapes(cmd, keys):
    """operand lists to try: all interesting counts and forms"""
    pre = []
    if cmd == 'grep' and not {'-e', '-f'} & set(keys):
        pre = [['o'], ['f1'], ['-']]
    elif cmd == 'sed' and not {'-e', '-f'} & set(keys):
        pre = [['s/a/X/'], ['p']]
    elif cmd == 'awk' and not {'-f', '-e', '-E'} & set(keys):
        pre = [['{print $1}'], ['1']]
    base = [[], ['f1'], ['f1', 'f2'], ['f1', 'f2', 'f3'], ['-'], ['f1', '-'], ['-', 'f2'], ['a b', 'd/g'], ['f1', 'f1'],
            ['f1', '-x'], ['--zzz'], ['--', 'f1'], ['f1', '--', 'f2'], ['', 'f1'], [''], ['f1', ''], ['f1', '-', 'f2'], ['f1', 'f2', 'f3', 'd/g']]
    out = list(base)
    for p in pre:
        out += [p + b for b in base]
    return out
