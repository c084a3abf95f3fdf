"""Generation of invocations (as lists of (group key, argument)) and of their equivalent spellings."""
from . import spec

FILES = ['f1', 'f2', 'f3', 'f1', 'f2', '-', 'd/g', 'n1']
PATTERNS = ['a', '^b', 'o', 'x.*', 'zzz', '[ab]', '$', 'f1']
SED_SCRIPTS = ['s/a/X/', 's/o/0/g', 's|a|b|', '/a/d', '2q', 'p', 's/^/> /']
TR_SETS = ['a', 'a-z', 'b', ' ', '\\n', 'abc', '[:upper:]', '[:lower:]', 'A-Z', '\\t']


def operands(rng, cmd, keys):
    """plausible operands for a command given the keys of its flags and options"""
    n = rng.choice([0, 0, 1, 1, 1, 2, 2, 3]) if rng.random() < .97 else rng.randint(4, 14)
    fs = [rng.choice(FILES) for _ in range(n)]
    if cmd == 'grep':
        return ([] if '-e' in keys or '-f' in keys else [rng.choice(PATTERNS)]) + fs
    if cmd == 'sed':
        return ([] if '-e' in keys or '-f' in keys else [rng.choice(SED_SCRIPTS)]) + fs
    if cmd == 'awk':
        return ([] if {'-f', '-e', '-E'} & set(keys) else [rng.choice(['{print $1}', 'NR==1', '/a/', '{n++} END {print n}'])]) + fs
    if cmd in ('comm', 'diff'):
        return [rng.choice(FILES) for _ in range(rng.choice([2, 2, 2, 2, 1, 3]))]
    if cmd in ('tr', 'custom_tr'):
        k = 1 if '-d' in keys and '-s' not in keys else 1 if ('-s' in keys and rng.random() < .5) else 2
        return [rng.choice(TR_SETS) for _ in range(k)]
    if cmd == 'uniq':
        return fs[:2] if rng.random() < .9 else fs
    if cmd == 'xargs':
        return rng.choice([[], ['echo'], ['echo', 'x'], ['wc', 'f1'], ['cat']])
    if cmd == 'seq':
        return rng.choice([['3'], ['1', '4'], ['1', '2', '9'], ['2', '1'], []])
    if cmd in ('mv',):
        return [rng.choice(['f1', 'f2', 'f3', 'd', 'new', 'd/g']) for _ in range(rng.choice([1, 2, 2, 2, 3, 0]))]
    if cmd in ('rm', 'mkfifo', 'tee'):
        return [rng.choice(['f1', 'f2', 'new', 'd/new', 'd/g', 'd']) for _ in range(rng.choice([0, 1, 1, 2, 3]))]
    if cmd == 'set_diff':
        return [rng.choice(['f1', 'f2'])] if rng.random() < .9 else fs
    if cmd in ('col', 'alt_bigrams_aux', 'bigrams_aux', 'test_one', 'test_two'):
        return []
    return fs


def cmd_of(name):
    return spec.CMDS.get(name, spec.EMPTY)


def rand_flags(rng, cmd, kmax=4, exclude=()):
    c = cmd_of(cmd)
    gs = [g for g in c.groups if g.key not in exclude]
    if not gs:
        return []
    out = []
    for _ in range(rng.randint(0, kmax) if rng.random() < .97 else rng.randint(kmax, 14)):
        g = rng.choice(gs) if rng.random() < .6 or not c.options else rng.choice([x for x in c.options if x.key not in exclude] or gs)
        out.append((g.key, rng.choice(spec.args_of(g)) if g.is_option else None))
    return out


def canonical_words(cmd, flags, ops):
    c = cmd_of(cmd)
    w = [cmd]
    for k, a in flags:
        w.append(k)
        if c.by_key[k].is_option:
            w.append(a)
    return w + list(ops)


# short flags which take what follows in the same word as an (optional) argument
OPTIONAL_ARG = {'xargs': {'-e', '-i', '-l'}, 'sed': {'-i'}, 'awk': {'-d', '-D', '-L', '-o', '-O', '-p'}}


def spell(rng, cmd, flags, ops, style=None):
    """one random equivalent spelling, as words"""
    c = cmd_of(cmd)
    known = set(c.flag_of) | set(c.option_of)
    w = [cmd]
    cluster = None        # short flags collected so far
    def flush():
        nonlocal cluster
        if cluster:
            word = '-' + cluster
            if len(cluster) > 1 and word in known:
                w.extend('-' + ch for ch in cluster)
            else:
                w.append(word)
        cluster = None
    for k, a in flags:
        g = c.by_key[k]
        name = rng.choice(g.names) if style != 'long' or not g.longs else rng.choice(g.longs)
        if style == 'short' and g.shorts:
            name = rng.choice(g.shorts)
        short = len(name) == 2 and name[0] == '-'
        if not g.is_option:
            if short and rng.random() < .6:
                cluster = (cluster or '') + name[1]
                if name in OPTIONAL_ARG.get(cmd, ()):      # what follows in the same word would be its argument
                    flush()
                continue
            flush()
            w.append(name)
        else:
            if short:
                pre = cluster if cluster and rng.random() < .6 else None
                if pre is None:
                    flush()
                word = '-' + (pre or '') + name[1]
                if pre and any(('-' + pre[:i]) in known and i > 1 for i in range(len(pre) + 1)):
                    flush()
                    word, pre = name, None
                if pre and word in known:
                    flush()
                    word = name
                cluster = None
                if a != '' and rng.random() < .5 and (word + a) not in known:
                    w.append(word + a)
                else:
                    w += [word, a]
            else:
                flush()
                if name.startswith('--') and rng.random() < .5:
                    w.append(name + '=' + a)
                else:
                    w += [name, a]
    flush()
    return w + list(ops)


def pairs(cmd, exclude=()):
    """all flag lists of length 0, 1, 2 (first argument sample)"""
    c = cmd_of(cmd)
    gs = [g for g in c.groups if g.key not in exclude]
    one = lambda g, i=0: (g.key, spec.args_of(g)[i % len(spec.args_of(g))] if g.is_option else None)
    yield []
    for g in gs:
        for i in range(len(spec.args_of(g)) if g.is_option else 1):
            yield [one(g, i)]
    for g in gs:
        for h in gs:
            yield [one(g), one(h, 1)]
