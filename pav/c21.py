"""C21: option data generated from manual pages is well-formed and complete."""
import json, os, random, re, shutil, subprocess, sys
from . import c20, core, gen, spec, words

RULE = ('manual pages made from random option tables in the documented patterns (-f, -F, --flag, -o ARG, -o=ARG, --opt ARG, --opt=ARG, --opt[=ARG], '
        'several spellings per line), with descriptions and other lines around them, are converted by the real script (and by manpage-to-json.sh with '
        'a stand-in for man); the data must be that table; added to a copy of the package, it must parse lines in random spellings; the --help texts '
        'of installed tools must give data of the same form. Non-trivial: a table with a flag or option; counted by distinct page')
ASSUMPTIONS = ['only the patterns that the script documents, each spelling in one line only', 'arguments are words of capital letters']
REQUIRED = ['oracle_decisions', 'pages', 'flags_found', 'options_found', 'several_spellings', 'mixed_lines', 'through_man', 'parsed_with', 'real_help',
            'repeated_lines', 'other_lines', 'empty_pages']
BATCH = 4
DIR = os.path.join(core.REPO, 'pash_annotations/parser/command_flag_option_info')
TOOLS = ['cat', 'ls', 'sort', 'grep', 'sed', 'tail', 'head', 'cut', 'uniq', 'wc', 'mv', 'rm', 'cp', 'diff', 'find', 'xargs', 'tee', 'tr', 'comm', 'paste', 'join',
         'nl', 'od', 'split', 'shuf', 'seq', 'stat', 'touch', 'tar', 'gzip', 'date', 'du', 'df', 'env', 'fmt', 'fold', 'install', 'ln', 'mkdir', 'mkfifo', 'pr']
OTHER = ['', 'NAME', 'SYNOPSIS', '       sort [OPTION]... [FILE]...', 'DESCRIPTION', 'OPTIONS', '       Mandatory arguments to long options are mandatory',
         '       Exit status is 0 -- or not', '   Grouping', '       and -x is not documented here', 'AUTHOR', '       A. U. Thor <a@b.c>']
WORDS = ['do', 'not', 'print', 'the', 'Lines', 'of', 'each', 'FILE;', 'see', 'below', 'like', 'sort,', 'but', '(default)', "isn't", '100%', 'Use']


def cases(ctx):
    rng = ctx.rng()
    for t in TOOLS:
        yield ['help', t]
    for _ in range(ctx.n(260, 8000)):
        yield ['page', rng.randrange(1 << 40)]


def table(r):
    letters = list('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ')
    r.shuffle(letters)
    base = ['all', 'number', 'key', 'sort', 'zero', 'field', 'color', 'quiet', 'suffix', 'lines', 'null', 'help', 'version', 'x', 'output', 'files', 'width']
    longs = ['--' + p + b for b in base for p in ('', 'no-', 'with-all-')]
    r.shuffle(longs)
    out = []
    for _ in range(r.choice([0, 1, 2, 4, 8, 12])):
        short, long = r.choice([(1, 0), (1, 1), (1, 1), (1, 1), (0, 1), (2, 1), (1, 2), (0, 2), (2, 0)])
        names = [('-' + letters.pop()) for _ in range(short)] + [longs.pop() for _ in range(long)]
        if short and names[0].lower() not in [n for _, ns, _ in out for n in ns] and r.random() < .1:
            names[0] = '-' + r.choice(['name', 'print', 'type', 'exec', 'iname']) + names[0][1].lower()    # as find has
        if r.random() < .15:        # like another one but for dashes
            n = r.choice(names + [n for _, ns, _ in out for n in ns])
            near = r.choice(['--' + n.strip('-').lower(), '-' + n.strip('-').lower(), '--' + n.strip('-').replace('-', '').lower()])
            if near not in names + [n for _, ns, _ in out for n in ns] and near[1] not in letters:
                names.append(near)
        arg = r.choice(['NUM', 'FILE', 'N', 'SIZE', 'KEYDEF', 'WHEN', 'LIST', 'A']) if r.random() < .5 else None
        out.append((arg, names, r.random() < .3))
    flat = [n for _, ns, _ in out for n in ns]
    return out if len(set(flat)) == len(flat) else table(r)


def text_of(r, tab, mon):
    """(page as man shows it, lines with options)"""
    page, opts = [], []
    noise = lambda k: [r.choice(OTHER) for _ in range(r.randint(0, k))]
    page += noise(6)
    for arg, names, optional in tab:
        shown = set(names) if arg is None else {n for n in names if r.random() < .6} | {names[-1]}
        ph = []
        for n in names:
            if arg is None or n not in shown:
                ph.append(n)
            else:
                ph.append(n + r.choice(['[=%s]'] if optional and len(n) > 2 else [' %s', '=%s', ' %s'] if not n.startswith('--') else ['=%s', '=%s', ' %s']) % arg)
        if arg is not None and len(shown) < len(names):
            mon.count('mixed_lines')
        line = (',  ' if r.random() < .05 else ', ').join(ph) + ('  ' if r.random() < .05 else '')
        if r.random() < .3 and arg is None:
            line += '      ' + ' '.join([r.choice(['do', 'Print', 'like'])] + [r.choice(WORDS) for _ in range(4)])
        opts.append(line)
        page.append(' ' * 7 + line)
        for _ in range(r.randint(0, 2)):
            page.append(' ' * 14 + ' '.join(r.choice(WORDS + ['-a', '--all', '-z,']) for _ in range(6)))
        page += noise(1)
        mon.count('other_lines', len(page) > len(opts))
        if r.random() < .06:                    # mentioned again
            page.append(' ' * 7 + line)
            opts.append(line)
            mon.count('repeated_lines')
    return page, opts


def convert(mon, text):
    p = subprocess.run([sys.executable, '-B', os.path.join(DIR, 'args-to-json.py')], input=text.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                       env={'PATH': '/usr/bin:/bin', 'PYTHONUTF8': '1', 'PYTHONDONTWRITEBYTECODE': '1'}, timeout=60)
    if not mon.check(p.returncode == 0, lambda: f'the converter fails: {text!r}: {p.stderr.decode("utf-8", "replace")[-300:]}'):
        return None
    return well_formed(mon, p.stdout, text)


def well_formed(mon, raw, text):
    try:
        data = json.loads(raw)
    except ValueError:
        mon.fail(f'no JSON for {text!r}: {raw[:300]!r}')
        return None
    ok = isinstance(data, dict) and isinstance(data.get('flag'), list) and isinstance(data.get('option'), list)
    ok = ok and all(isinstance(g, list) and g and all(isinstance(n, str) and n.startswith('-') for n in g) for g in data['flag'])
    ok = ok and all(isinstance(g, list) and len(g) > 1 and all(isinstance(n, str) for n in g) and all(n.startswith('-') for n in g[:-1]) and
                    not g[-1].startswith('-') for g in data['option'])
    if not mon.check(ok, lambda: f'data not of the documented form for {text!r}: {data}'):
        return None
    flat = [n for g in data['flag'] for n in g] + [n for g in data['option'] for n in g[:-1]]
    mon.check(len(set(flat)) == len(flat), lambda: f'a spelling is given twice for {text!r}: {data}')
    return data


def evaluate(case, mon):
    if case[0] == 'help':
        return real_help(case[1], mon)
    r = random.Random(case[1])
    tab = table(r)
    page, opts = text_of(r, tab, mon)
    text = '\n'.join(page) + '\n'
    want = {'flag': [n for a, n, _ in tab if a is None], 'option': [n + [a] for a, n, _ in tab if a is not None]}
    mon.count('pages')
    mon.count('empty_pages', not tab)
    via = r.choice(['lines', 'lines', 'man'])
    if via == 'lines':
        data = convert(mon, ''.join(o + '\n' for o in opts))
    else:
        data = through_man(mon, r, text)
    if data is None:
        return
    if mon.check(data == want, lambda: f'data {data} instead of {want} for {opts}'):
        mon.count('flags_found', len(want['flag']))
        mon.count('options_found', len(want['option']))
        mon.count('several_spellings', sum(len(n) > 1 for _, n, _ in tab))
        if tab:
            mon.nontrivial(text)
        if tab and r.random() < .25:
            parse_with(mon, r, case[1], data, tab)
    mon.sample({'page': page[:20], 'data': data})


def through_man(mon, r, text):
    d = os.path.join(os.environ['PAV_SCRATCH'], 'man%d' % r.randrange(1 << 40))
    os.makedirs(d)
    try:
        with open(d + '/page', 'w') as f:
            f.write(text)
        with open(d + '/man', 'w') as f:
            f.write(f'#!/bin/sh\n[ "$1" = zztool ] && cat {d}/page\n')
        os.chmod(d + '/man', 0o755)
        p = subprocess.run(['bash', os.path.join(DIR, 'manpage-to-json.sh'), 'zztool'], cwd=DIR, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60,
                           env={'PATH': d + ':/usr/bin:/bin', 'PYTHONUTF8': '1', 'PYTHONDONTWRITEBYTECODE': '1', 'LC_ALL': 'C.UTF-8'})
        mon.count('through_man')
        if not mon.check(p.returncode == 0, lambda: f'manpage-to-json.sh fails: {text!r}: {p.stderr.decode("utf-8", "replace")[-300:]}'):
            return None
        return well_formed(mon, p.stdout, text)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def parse_with(mon, r, seed, data, tab):
    """the data, added to a copy of the package, says how lines are parsed"""
    name = 'zzman'
    raw = {'flag': data['flag'], 'option': [[g[:-1], g[-1]] for g in data['option']]}
    root = os.path.join(os.environ['PAV_SCRATCH'], 'plugman%d' % seed)
    cmd = {'name': name, 'rep': 'ZzMan', 'raw': raw, 'json': True, 'entry': False, 'io': None, 'par': None}
    spec.CMDS[name] = spec.Cmd(name, {'flag': [n for a, n, _ in tab if a is None], 'option': [[n, a] for a, n, _ in tab if a is not None]})
    try:
        c20.install(root, [cmd])
        jobs = []
        for ws in c20.lines_for(r, cmd, 30):
            cl, ops = spec.classify(name, ws[1:])
            jobs.append((words.line_of(r, ws), [name, [[g.key] if a is None else [g.key, a] for g, a in cl], ops]))
        env = {'PATH': '/usr/bin:/bin', 'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONUTF8': '1', 'PAV_REPO': root, 'PYTHONPATH': core.VERIF}
        p = subprocess.run([sys.executable, '-B', '-m', 'pav.plug'], input=json.dumps({'lines': [[l, None] for l, _ in jobs], 'old': []}).encode(),
                           env=env, cwd=root, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=200)
    finally:
        del spec.CMDS[name]
        shutil.rmtree(root, ignore_errors=True)
    if not mon.check(p.returncode == 0, lambda: 'the package fails with generated data: ' + p.stderr.decode('utf-8', 'replace')[-300:]):
        return
    for (l, e), g in zip(jobs, json.loads(p.stdout)[0]):
        mon.count('parsed_with')
        mon.check(g.get('parse') == e, lambda: f'with generated data {data}, {l!r} is parsed as {g} instead of {e}')


def real_help(tool, mon):
    try:
        p = subprocess.run([tool, '--help'], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=60,
                           env={'PATH': '/usr/bin:/bin', 'LC_ALL': 'C.UTF-8'})
    except OSError:
        return
    lines = [l.strip() for l in p.stdout.decode().splitlines() if re.match(r' +-', l)]
    if not lines:
        return
    data = convert(mon, ''.join(l + '\n' for l in lines))
    if data is None:
        return
    mon.count('real_help')
    text = '\n'.join(lines)
    for g in [g for g in data['flag']] + [g[:-1] for g in data['option']]:
        for n in g:
            mon.check(re.search(r'(?<![\w-])' + re.escape(n) + r'(?![\w-])', text) is not None, lambda: f'{n} is not an option of {tool}: {data}')
        mon.check(any(all(re.search(r'(?<![\w-])' + re.escape(n) + r'(?![\w-])', l) for n in g) for l in lines),
                  lambda: f'{g} are not described together for {tool}')
    mon.nontrivial(('help', tool))
