"""Rendering word lists as shell text in varied quoting, and asking real shells which words a text stands for."""
import subprocess

SAFE = set('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-+=:,./@%^')
INNER = SAFE | set('#!]}')        # stand for themselves unless they start a word
# characters a shell would expand or interpret are always quoted


def raw_ok(s, inside):
    """may s be written without quotes (inside: something of the word comes before it)?"""
    plain = lambda ch, first: ch in SAFE or ord(ch) > 160 or (not first and ch in INNER)
    return all(plain(ch, i == 0 and not inside) for i, ch in enumerate(s))


def q_single(s):
    return "'" + s + "'"


def q_double(s):
    out = '"'
    for ch in s:
        if ch in '"\\':
            out += '\\' + ch
        else:
            out += ch
    return out + '"'


def q_back(s):
    return ''.join(ch if ch in SAFE else '\\' + ch for ch in s)


def quote(rng, w, style=None):
    """one shell word standing for w"""
    if w == '':
        return rng.choice(["''", '""', "''\"\""])
    style = style or rng.choice(['plain', 'plain', 'single', 'double', 'back', 'mixed', 'mixed'])
    can_single = "'" not in w
    can_double = not any(c in w for c in '$`!') and '\\\n' not in w
    can_back = '\n' not in w
    if style == 'plain' and raw_ok(w, False):
        return w
    if style in ('plain', 'single') and can_single:
        return q_single(w)
    if style == 'double' and can_double:
        return q_double(w)
    if style == 'back' and can_back:
        return q_back(w)
    # pieces
    out, i = '', 0
    while i < len(w):
        n = rng.randint(1, max(1, min(4, len(w) - i)))
        p = w[i:i + n]
        i += n
        opts = []
        if raw_ok(p, bool(out)):
            opts += ['raw', 'raw']
        if "'" not in p:
            opts.append('s')
        if not any(c in p for c in '$`!\n\\'):
            opts.append('d')
        if '\n' not in p:
            opts.append('b')
        if not opts:
            p = w[i - n]
            i = i - n + 1
            opts = ['d'] if p == "'" else ['s']
        o = rng.choice(opts)
        out += p if o == 'raw' else q_single(p) if o == 's' else q_double(p) if o == 'd' else q_back(p)
    return out


def line_of(rng, words, style=None):
    sep = lambda: rng.choice([' ', ' ', ' ', '  ', '\t', ' \t '])
    s = rng.choice(['', '', '', ' ', '\t']) if style is None else ''
    for i, w in enumerate(words):
        s += (sep() if style is None else ' ') * (i > 0) + quote(rng, w, style)
    return s + (rng.choice(['', '', '', ' ', '  ']) if style is None else '')


def shell_words(lines, shell='sh'):
    """the words each line stands for, according to the real shell (all lines in one script)"""
    script = 'w() { printf \'%s\\0\' "$#" "$@"; }\n' + ''.join('w ' + l + '\n' for l in lines)
    r = subprocess.run([shell], input=script.encode('utf-8', 'surrogateescape'), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                       timeout=60, env={'PATH': '/usr/bin:/bin', 'LC_ALL': 'C.UTF-8'}, cwd='/')
    f = r.stdout.decode('utf-8', 'surrogateescape').split('\0')
    out, i = [], 0
    while i < len(f) - 1:
        n = int(f[i])
        out.append(f[i + 1:i + 1 + n])
        i += 1 + n
    return out, r.stderr.decode('utf-8', 'replace')
