"""Common part of C09 and C10: executing offered parallelizers on real text and comparing with the sequential command."""
import os, random, subprocess
from . import spec, gen, words, api, real, lower, partable, pexec, iocheck
from .core import Inconclusive
from .pexec import Broken, Machine

POOL = ['apple,1 x', 'Apple,1 x', 'box,3 a', 'box,3 a', '', '', '  lead', '10', '9', '1K', '2M', 'JAN 3', 'Feb 1', 'v1.10', 'v1.9', 'foo:bar:baz',
        'a\tb', 'aaa', 'boo', 'zoo o', 'x,', '-1', '+5', '1e3', 'nodelim', 'b.b', 'ab', '.', ' ', 'AbC', '"q', "it's", 'a b c', 'ooo,ooo', '007',
        'x' * 70, 'tail ', 'mar', 'b', 'a', '_a', 'o\\n']
POOL_X = ['w1', 'w2', 'a,b', 'foo', 'x', 'one', 'b', 'f1', 'zz', '12']        # xargs: one plain word per line
POOL_B = ['the', 'cat', 'the', 'dog', 'a', 'b b', 'x']                        # bigrams: a word per line, no empty ones
CMDS = ['grep', 'cut', 'tr', 'sed', 'sort', 'xargs', 'custom_sort', 'custom_tr', 'set_diff', 'alt_bigrams_aux', 'bigrams_aux', 'col', 'uniq']
# outside the domain: see known_findings.txt and DESIGN.md
EXCLUDE = {
    'cut': {'-z', '-M'}, 'sed': {'-i'}, 'grep': {'-V', '--help'},
    'xargs': {'-o', '-p', '-P', '-n', '-L', '-l', '-I', '-i', '-x', '-s'}, 'col': {'-V', '-H'},
}
SED_LINEWISE = ['s/a/X/', 's/o/0/g', 's|a|b|', 'p', 's/^/> /', 'y/ab/xy/', 's/\\(b\\)/[\\1]/', 's/x$//', '/a/s/a/A/', 'l', 's/,/;/2', 'G', '/a/!s/$/;/',
                's/[/]/x/', 's/a/x\\\ny/', 'a foo', '/x/ i\\ foo', 'c x', '', 's,a\\,b,c,2p', ':a;s/a/b/;ta', '/b/{s/o/0/;p}', 's/[^]/]*/X/', 'P']
# scripts that look at the position in the input or at other lines, or stop early: nothing may be offered
SED_STATEFUL = ['1d', '$d', '2,3d', '2q', '1s/a/X/', '$s/a/X/', '2p', '$!d', '/a/q', '/a/,/b/d', '/a/,+1d', '/o/{n;d}', '1!G;h;$!d', 'H;x;d',
                '$=', '1~2d', 'n;d', '0~2s/a/X/', '$!N;P;D', ' 1d', ' $d', '2,$s/o/0/', '5,1p', '/o/,$d', '1{p;d}', '/a/Q', 'q', '2y/a/b/', '$p', 'x;d',
                '=', '/a/,/b/p', 'N', 's/a/b/;2q', '/a/,/b/s/a/X/', 'h;G', 'x', 'n', 's/a/b/;n', 'p;$!N', ':a;N;ba', '/a/{N;s/\\n/ /}', '/a/ , /b/ s/o/0/',
                '\\%a%,/b/p', '{1p}', '/a/0,3p', 's/a/b/\n1p', 'H;g', 'y/a/b/;N', '2!p', '/[,]/,/b/p', 'i x\n2q', 's/a/X/;t\nq', 'a\n=', '/a/i\n2q', 'c\n1d', 'a\\\n\n1d', 'i\\ \nq', 's[[[w out1;s[a[b[',  '/a/b\nq', 't\nN', '/o/!b\n$!N', '/a/T \nn;d', 's/o/0/\nt\nQ', '/b/b\n\n1d', 's|/|;|;$!N', '/a/!{=}']


SED_TOKENS = ['s/a/b/', 's/o/0/g', 's/[a-c]/x/2', 's/a*/-/g', 'y/abc/xyz/', 'p', 'P', 'l', 'l 3', 'G', 't', 'T', 'b', 't x', 'b x', 'a foo', 'i\\\nbar', 'c zz',
              'd', 'q', 'Q', 'n', 'N', 'h', 'H', 'g', 'x', '=', 'F', 'z', 'w out1', 'r f2', 's/a/b/w out1', 's/a/b/m', 's/^/q/M', 's/b/c/I', 's/\\n/;/',
              's/a/\\n/', 's//X/', '#n', '# c', '1', '$', '/a/', '/b/I', '\\,b,', '/a/,/b/', '2,', '!', '{', '}', ';', ' ', '\n', 'a', 'a\\', '0~2', '+1', 's', 'y', '/',
              'a text\\\nmore', 'R f1', 'q5', 's/a/b/3g', 's/[]]/x/', 's/[^]]/y/', 's/[[:alpha:]]/Z/', '[', '[^']


def odd_script(rng):
    """commands and pieces of commands with unusual delimiters, one after another; most are no scripts at all"""
    def odd():
        d, k = rng.choice('[]^$.*a;}{ #|,sy1!&(pgb-'), rng.choice('ssy/')
        body = lambda: ''.join(rng.choice(['a', 'b', 'o', '[a]', '[^]]', '[]', '[', '\\' + d, d, '\\\\', '.', '\\n', ';', '}', '[[:digit:]]', '[/]', 'p', '1', 'q', ' '])
                               for _ in range(rng.randint(0, 3)))
        if k == '/':
            return '/' + body() + '/' + rng.choice(['', 'I', '!', ' ', 'M!']) + rng.choice(['p', 's/a/x/', '{p}', 'q', '='])
        return k + d + body() + d + body() + d + rng.choice(['', 'g', 'p', '2', 'I', 'gp', ' ', 'm'])
    s = ''.join((odd() if rng.random() < .3 else rng.choice(SED_TOKENS)) + rng.choice(['', ';', ';', '\n', ' ']) for _ in range(rng.randint(1, 4)))
    return s + '\n: x' if ' x' in s else s         # no loops: they may not end


def sed_script(rng):
    r = rng.random()
    if r < .45:
        return rng.choice(SED_LINEWISE)
    if r < .75:
        return rng.choice(SED_STATEFUL)
    if r < .82:
        return odd_script(rng)
    # several commands, possibly with addresses; stateful or not is for the code to tell
    parts = []
    for _ in range(rng.randint(1, 3)):
        c = rng.choice(['p', 's/a/X/', 's/o/0/2', 'y/ab/ba/', 'G', 'l', 's;a;,;', 's/b/&\\n/', 's/\\//;/', 's/[,;]/-/g', 's/x/}/', 's/[}a]/{/g', 't', 'T', 'b', 't e', ': e', ':q;s/oo/o/;tq', 's/a/b/I;t', 's/[]a]/-/', 's/[^]o]/./2'] * 2 + ['N', 'n', 'x', 'h', 'H', 'g', '=', 'd', 'q', 'P', 'b'])
        if rng.random() < .4:
            c = rng.choice(['/a/', '/o/!', '/[,/]/', '/^$/', '/\\./'] * 2 + ['1', '$', '2,3', '/a/,/b/', '1!', '/a/,+1', '1~2', '$!', '0,/a/']) + rng.choice(['', ' ']) + c
        parts.append(c)
    if any(p.endswith('t e') for p in parts):
        parts.append(': e')
    s = rng.choice([';', ' ; ', '\n', '\n', ';\n']).join(parts)
    return '{' + s + '}' if rng.random() < .1 else s


XARGS_PER_ITEM = [('-n', '1'), ('-L', '1'), ('-l', None), ('-I', '{}'), ('-i', None)]
TR = [['a', 'b'], ['a-z', 'A-Z'], ['[:lower:]', '[:upper:]'], ['abc', 'x'], [' ', '_'], ['a-m', 'n-z'], [',', '\\n'], [' ', '\\012'], ['o', '0'],
      ['[:space:]', 'x'], ['x', '\n']]
TR1 = [['a'], ['a-z'], ['[:upper:]'], [' '], ['o'], ['\\n'], [','], ['[:space:]'], ['\n'], ['abc']]


TR_ITEMS = ['a', 'o', 'x', ' ', ',', '\\n', '\n', '\\012', '\\12', '\\123', '\\t', '\\\\n', 'a-z', 'A-Z', '0-9', '\\t-\\r', '\\1-\\37', '[:space:]', '[:alpha:]',
            '[:cntrl:]', '[:digit:]', '-', '\\\\', 'b', '1', '.', ' -~', '\\0', '\\000-\\011', '[:punct:]', '[', ']', '\\r', '\\v', '\\f', '\\a', '\\b', '\\13', '\\14', 'n', '\\x', '\\v-\\r', '\\a-\\b', '\\11', '!-~']


# texts on which one particular order differs from the others, with many ties
THEMES = [['10', '9', '+5', '-1', '007', '7', '7 ', ' 7', '1e1', '1e3', '0x1f', '31', '', 'x', '.5', '0.5', '12abc'],
          ['1K', '2M', '1024', '3', '1G', '2k', '900', '0', '-1K', '1Ki', '1.5M'],
          ['JAN', 'feb', 'Mar 3', 'mar', ' dec', 'foo', '', 'SEP', 'sepia', 'JUN 1', 'Jun'],
          ['v1.10', 'v1.9', 'v1.09', 'a1', 'a10', 'a2', 'a1.tar', 'a1.0', 'b', 'v2~rc', 'v2'],
          ['b', 'B', 'a', 'A', 'aB', 'Ab', 'AB', 'ab', 'b ', 'Ba', '_', '^'],
          ['a-b', 'ab', 'a b', 'a.c', '"ac', '-ad', 'a_b', '...', 'aa', '!ab', 'a,b', '(b)'],
          ['a\x01b', 'ab', 'a\x7fc', '\x02c', 'aa', 'a\tb', 'c', '\x01', 'é', 'e'],
          ['  b', ' a', 'a', 'b', '   c', '\ta', ' \tb', 'c ', '  ', '']]


FITTING = {'n': 0, 'g': 0, 'h': 1, 'M': 2, 'V': 3, 'f': 4, 'd': 5, 'i': 6, 'b': 7}


def theme(rng, line=''):
    opts = [FITTING[c] for w in line.split()[1:] for c in w.split('=')[0] if c in FITTING and not w.startswith('--')]
    opts += [i for n, i in (('--ignore-n', 6), ('--ignore-l', 7), ('--dict', 5), ('--ignore-c', 4), ('version', 3), ('month', 2), ('human', 1), ('numeric', 0))
             if n in line]
    if opts and '-k' not in line and rng.random() < .7:
        return THEMES[rng.choice(opts)]
    return THEMES[rng.randrange(len(THEMES))] if rng.random() < .5 else fields(rng)


def fields(rng):
    """lines of two to four fields, from few values each"""
    sep = rng.choice([' ', ' ', ',', ':', '\t', '  '])
    cols = [rng.sample(rng.choice(THEMES), 3) for _ in range(rng.choice([2, 3, 3, 4]))]
    return [sep.join(rng.choice(c) for c in cols[:rng.choice([len(cols)] * 4 + [1])]) for _ in range(14)]


def rand_keys(rng):
    """several sort keys and a few ordering options"""
    random_key = rng.random() < .15
    mods = lambda: ''.join(rng.sample('bdfgiMhnrV' + 'R' * 4 * random_key, rng.choice([0, 0, 0, 1, 1, 2])))
    out = []
    for _ in range(rng.choice([1, 2, 2, 3])):
        f = rng.randint(1, 3)
        k = str(f) + rng.choice(['', '', '', '.1', '.2', '.3']) + mods()
        if rng.random() < .6:
            k += ',' + str(rng.randint(f, 4)) + rng.choice(['', '', '.1', '.2']) + mods()
        out.append(('-k', k))
    if rng.random() < .5:
        out.append(('-t', rng.choice([' ', ',', ':', '\t', '-', 'b'])))
    for _ in range(rng.choice([0, 0, 1, 1, 2])):
        out.append(rng.choice([('-b', None), ('-d', None), ('-f', None), ('-g', None), ('-i', None), ('-M', None), ('-h', None), ('-n', None), ('-r', None),
                               ('-V', None), ('--sort', rng.choice(['numeric', 'month', 'version', 'human-numeric', 'general-numeric']))]))
    rng.shuffle(out)
    return out


NEWLINES = ['\\n', '\n', '\\012', '\\12', '\\t-\\r', '[:space:]', '[:cntrl:]', '\\1-\\37', '\\11-\\13', 'a\\12', '\\12b', '\\0-\\12', '\\n-\\n']


def rand_set(rng):
    if rng.random() < .3:
        return rng.choice(NEWLINES if rng.random() < .8 else ['\\0', '\\000', 'a\\0', '\\0-\\7', '\\013-\\177'])
    return ''.join(rng.choice(TR_ITEMS) for _ in range(rng.choice([1, 1, 2, 3])))


def exclude(cmd):
    return EXCLUDE.get(cmd, set()) | {'--help', '--version'}


def operands(rng, cmd, keys):
    stream = rng.choice([[], [], ['f1'], ['-']])
    if cmd == 'grep':
        return ([] if {'-e', '-f'} & set(keys) else [rng.choice(['a', '^b', 'o', 'x.*', '[ab]', '$', '^$', '\\.', '1', 'zzz'])]) + stream
    if cmd == 'sed':
        return ([] if {'-e', '-f'} & set(keys) else [sed_script(rng)]) + stream
    if cmd == 'tr' and rng.random() < .4:
        d, s, c = '-d' in keys, '-s' in keys, '-c' in keys
        n = 1 if d and not s else 1 if s and not d and rng.random() < .5 else 2
        return [rand_set(rng) for _ in range(n)]
    if cmd == 'tr':
        d, s, c = '-d' in keys, '-s' in keys, '-c' in keys
        if d and s:
            return rng.choice(TR)
        if d or (s and rng.random() < .5):
            return rng.choice(TR1)
        ops = rng.choice(TR)
        return [ops[0], ops[1]] if not (c and ops[1].startswith('[')) else [ops[0], 'Q']
    if cmd == 'custom_tr':
        return rng.choice(TR[:7])
    if cmd == 'set_diff':
        return ['f3']
    if cmd == 'xargs':
        return rng.choice([['echo'], ['echo', 'pre'], ['echo', '{}']])
    if cmd in ('cut', 'sort', 'custom_sort', 'uniq'):
        return stream
    return []


def content(rng, cmd, n=None, line=''):
    pool = POOL_X if cmd == 'xargs' else POOL_B if 'bigram' in cmd else POOL
    if cmd in ('sort', 'custom_sort') and rng.random() < .7:
        pool = theme(rng, line)
    n = n or rng.randint(2, 9)
    ls = [rng.choice(pool) for _ in range(n)]
    if cmd == 'tr' and rng.random() < .5:
        ls = [rng.choice(['', '', 'aa', x]) for x in ls]
    if cmd == 'set_diff' or cmd == 'uniq':
        ls = [rng.choice(ls + ['alpha', 'gamma', 'beta']) for _ in ls]
    if rng.random() < .3:
        i = rng.randrange(n)
        ls.insert(i, ls[i])
    return ls


def invocation(rng, cmd, fl):
    if cmd == 'cut':
        if not {'-b', '-c', '-f'} & {k for k, _ in fl}:
            fl = fl + [rng.choice([('-f', '1'), ('-c', '2-3'), ('-b', '1'), ('-f', '2-')])]
        if '-f' in {k for k, _ in fl} and rng.random() < .6 and not {'-d'} & {k for k, _ in fl}:
            fl = fl + [('-d', rng.choice([',', ':', ' '] if rng.random() < .9 else ['\n', '', '\\n', '\t']))]
    if cmd == 'xargs':
        fl = fl + [rng.choice(XARGS_PER_ITEM)]
        fl = [('--delimiter', rng.choice(['\\n', '\\n', '\n', ',', 'o', '\\t'])) if k == '--delimiter' else (k, a) for k, a in fl]
    if cmd == 'sed' and rng.random() < .05:
        fl = fl + [('-e', None)] * rng.randint(2, 5)
    fl = [(k, sed_script(rng) if cmd == 'sed' and k == '-e' else a) for k, a in fl]
    if 'sort' in cmd and rng.random() < .1:      # in random order, must not be parallelized
        fl = [(k, 'random'[:rng.randint(1, 6)] if k == '--sort' else '1R' if k == '-k' else a) for k, a in fl]
    ops = operands(rng, cmd, [k for k, _ in fl])
    return cmd_line(rng, cmd, fl, ops)


def invocations(ctx, tag, k0, k1, p2, n_random):
    """lines of the commands with parallelizability annotations; k0/k1 per plain/one-flag list, probability p2 per pair"""
    rng = ctx.rng(tag)
    for cmd in CMDS:
        few = len(gen.cmd_of(cmd).groups) < 12
        for fl in gen.pairs(cmd, exclude(cmd)):
            n = k0 * (9 if cmd in BUILT else 3) if not fl else k1 * (3 if few else 1) if len(fl) == 1 else int(p2) + (rng.random() < p2 % 1)
            if cmd in ('tr', 'cut') and len(fl):
                n = max(n, 2 if cmd == 'cut' else 12)
            for _ in range(n):
                yield rng, cmd, invocation(rng, cmd, fl), len(fl)
    for _ in range(n_random):
        cmd = rng.choice(['grep', 'cut', 'tr', 'sed', 'sort', 'sort', 'sort', 'xargs', 'custom_sort', 'custom_tr'])
        if cmd == 'sort' and rng.random() < .6:
            yield rng, cmd, invocation(rng, cmd, rand_keys(rng)), 3
            continue
        yield rng, cmd, invocation(rng, cmd, gen.rand_flags(rng, cmd, 4, exclude(cmd))), 3


SCANNED = ['grep', 'grep', 'cut', 'tr', 'sed', 'sort', 'sort', 'xargs', 'custom_sort']


def scans(ctx, n, per3):
    """cases for surprising: seeds of random lists, and all triples of flags and options of each command"""
    rng = ctx.rng('scan')
    for _ in range(n):
        yield ['scan', rng.randrange(1 << 40), 100]
    for _ in range(per3):
        for cmd in dict.fromkeys(SCANNED):
            keys = [g.key for g in gen.cmd_of(cmd).groups if g.key not in exclude(cmd)]
            for i, a in enumerate(keys):
                for b in keys[i + 1:]:
                    yield ['scan', rng.randrange(1 << 40), cmd, a, b]


def listed(rng, what):
    """(command, flags and options) to scan"""
    if isinstance(what[0], int):
        for _ in range(what[0]):
            cmd = rng.choice(SCANNED)
            yield cmd, gen.rand_flags(rng, cmd, rng.choice([2, 3, 3, 4, 6]), exclude(cmd))
        return
    cmd, a, b = what
    c = gen.cmd_of(cmd)
    keys = [g.key for g in c.groups if g.key not in exclude(cmd)]
    for k in keys[keys.index(b):]:
        three = [a, b, k]
        rng.shuffle(three)
        yield cmd, [(x, rng.choice(spec.args_of(c.by_key[x])) if c.by_key[x].is_option else None) for x in three]


def surprising(mon, seed, *what):
    """of many lists of flags and options, the invocations that are offered what the reference table does not require"""
    rng = random.Random(seed)
    for cmd, fl in listed(rng, what):
        line = invocation(rng, cmd, fl)
        par = api.par_info(inv_of(line))
        mon.count('scanned')
        if par is None:
            continue
        ws = iocheck.split(line)
        f, ops = spec.classify(BUILT.get(cmd) if ws[0].startswith('built:') else cmd, ws[1:])
        req, comm = partable.required(cmd, [(g.key, a) for g, a in f if g.key != '-Z'], ops)     # -Z matters with flags that are out by themselves
        req += [('unwrap',) + r[1:] for r in req if comm and r[0] == 'consec']
        if all(partable.kind(p) in req for p in par.unpack_info()[0] if p.are_all_parts_implemented()):
            continue
        if rng.random() < {'sed': .12, 'tr': .3}.get(cmd, 1):       # these have more than the table knows
            mon.count('surprising')
            yield rng, cmd, line, 3


BUILT = {'custom_sort': 'sort'}        # no data on flags and options, so invocations with them are put together by hand


def inv_of(line):
    """the parsed line; for 'built:custom_sort ...' the flags, options and operands of the line for sort under that name"""
    ws = iocheck.split(line)
    if not ws[0].startswith('built:'):
        return api.parse(line)
    name = ws[0][6:]
    x = api.parse(words.line_of(None, [BUILT[name]] + ws[1:], 'single'))
    return api.CommandInvocationInitial(name, x.flag_option_list, x.operand_list)


def cmd_line(rng, cmd, fl, ops):
    """text of an invocation; for commands without data sometimes with the flags and options of the command they are like"""
    if cmd in BUILT and rng.random() < .7:
        like = BUILT[cmd]
        fl = gen.rand_flags(rng, like, rng.choice([1, 1, 2, 3]), exclude(like))
        if rng.random() < .2:
            fl = fl + [rng.choice([('--sort', 'random'[:rng.randint(1, 6)]), ('-k', '1R'), ('-k', '2,2nR')])]
        elif rng.random() < .3:
            fl = rand_keys(rng)
        w = gen.spell(rng, like, fl, operands(rng, like, [k for k, _ in fl]))
        return words.line_of(rng, ['built:' + cmd] + w[1:])
    return words.line_of(rng, gen.spell(rng, cmd, fl, ops))


class Setup:
    def __init__(self, line):
        self.line = line
        self.ws = iocheck.split(line)
        built = self.ws[0].startswith('built:')
        self.ws[0] = self.ws[0].replace('built:', '')
        self.inv = inv_of(line)
        self.info, self.cio = api.applied(self.inv)
        if self.info is None and built:     # options need data: use those of the other command
            self.info, self.cio = api.applied(api.CommandInvocationInitial(BUILT[self.ws[0]], self.inv.flag_option_list, self.inv.operand_list))
            if self.cio is not None:
                self.cio.cmd_name = self.ws[0]
        self.par = api.par_info(self.inv)
        self.ok = self.info is not None and self.par is not None
        if not self.ok:
            return
        self.low, self.names, self.next = lower.lower(self.cio)
        v = lower.view(self.low)
        self.ins, self.outs = lower.streams(v, 'STREAM_INPUT'), lower.streams(v, 'STREAM_OUTPUT')
        self.ok = len(self.ins) == 1 and len(self.outs) == 1
        self.parallelizers = self.par.unpack_info()[0]

    def fresh(self):
        self.next += 1
        return self.next


def sequential(m, st, data):
    """output and status of the original words on the whole input"""
    src = st.names[st.ins[0]]
    dst = st.names[st.outs[0]]
    cmd = pexec.STANDIN.get(st.ws[0], st.ws[0])
    args = st.ws[1:]
    if cmd in pexec.MODELS:
        read = lambda n: m.files[n]
        return pexec.MODELS[cmd](args, read, data)[0], 0
    if cmd not in pexec.ALLOWED:
        raise Inconclusive('not installed: ' + cmd)
    if src[0] == 'file':
        m.put(src[1], data)
    kw = dict(user=real.UID, group=real.UID, extra_groups=[]) if real.can_drop() else {}
    try:
        p = subprocess.run([cmd] + args, input=data if src[0] == 'std' else b'', stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           cwd=m.s.root, env=real.ENV, timeout=5, **kw)
    except subprocess.TimeoutExpired:
        # a script that does not end: nothing to compare with
        return b'', 124
    out = p.stdout
    if dst[0] == 'file':
        with open(os.path.join(m.s.root, dst[1]), 'rb') as f:
            out = f.read()
    return out, p.returncode


def map_pieces(m, st, par, pieces):
    """[(output var, [aux vars])] of the mapper on each piece"""
    res = []
    for p in pieces:
        a, b = st.fresh(), st.fresh()
        aux = [st.fresh() for _ in range(par.get_info_mapper_aggregator())]
        m.val[a] = p
        mapper = par.get_actual_mapper(st.low, a, b, list(aux))
        if mapper is None:
            raise Broken('there is no mapper')
        v = lower.view(mapper)
        if lower.streams(v, 'STREAM_INPUT') != [a] or lower.streams(v, 'STREAM_OUTPUT') != [b] + aux:
            raise Broken(f'mapper reads or writes other streams than {a} -> {[b] + aux}: {v}')
        m.execute(mapper)
        res.append((b, aux))
    return res


def combine(m, st, par, x, y):
    o = st.fresh()
    aux = [st.fresh() for _ in x[1]]
    if x[1]:
        agg = par.get_actual_2_ary_aggregator_with_aux(x[0], list(x[1]), y[0], list(y[1]), o, list(aux))
    else:
        agg = par.get_actual_aggregator(st.low, [x[0], y[0]], o)
    if agg is None:
        raise Broken('there is no aggregator')
    run_agg(m, agg, [x[0]] + x[1] + [y[0]] + y[1], [o] + aux)
    return o, aux


def run_agg(m, agg, ins, outs):
    v = lower.view(agg)
    if lower.streams(v, 'STREAM_INPUT') != ins or lower.streams(v, 'STREAM_OUTPUT') != outs:
        raise Broken(f'aggregator reads or writes other streams than {ins} -> {outs}: {v}')
    if v['cmd'] == 'cat' and not v['flags'] and v['operands'] == [('var', i) for i in ins] and v['out'] == outs[0]:
        m.val[outs[0]] = b''.join(m.val[i] for i in ins)
    else:
        m.execute(agg)


def aggregate(m, st, par, parts, shape):
    spec_ = par.get_aggregator_spec()
    if spec_.is_aggregator_spec_custom_2_ary():
        if len(parts) == 1:
            return m.val[parts[0][0]]
        if shape == 'left':
            acc = parts[0]
            for p in parts[1:]:
                acc = combine(m, st, par, acc, p)
        elif shape == 'right':
            acc = parts[-1]
            for p in reversed(parts[:-1]):
                acc = combine(m, st, par, p, acc)
        else:
            lvl = list(parts)
            while len(lvl) > 1:
                lvl = [combine(m, st, par, *lvl[i:i + 2]) if i + 1 < len(lvl) else lvl[i] for i in range(0, len(lvl), 2)]
            acc = lvl[0]
        return m.val[acc[0]]
    o = st.fresh()
    agg = par.get_actual_aggregator(st.low, [b for b, _ in parts], o)
    if agg is None:
        raise Broken('there is no aggregator')
    run_agg(m, agg, [b for b, _ in parts], [o])
    return m.val[o]


def enc(lines):
    return ''.join(l + '\n' for l in lines).encode()


def cut(lines, cuts):
    b = [0] + sorted(set(cuts)) + [len(lines)]
    return [enc(lines[i:j]) for i, j in zip(b, b[1:])]
