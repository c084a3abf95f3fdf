"""Executing invocations over stream variables: real tools in a scratch directory, models for commands that are not installed."""
import os, subprocess
from . import real, lower
from .core import Inconclusive


class Broken(Exception):
    """the invocation cannot be executed as it is wired"""


# ---- models of the commands that come with PaSh, not with this repository
def m_set_diff(args, read, stdin):
    keep = set(read(args[0]).split(b'\n'))
    return b''.join(l for l in stdin.splitlines(True) if l.rstrip(b'\n') not in keep), {}


def m_col(args, read, stdin):
    out = []
    for l in stdin.splitlines(True):
        r = []
        for ch in l.decode('latin1'):
            if ch == '\b':
                if r:
                    r.pop()
            else:
                r.append(ch)
        out.append(''.join(r).encode('latin1'))
    return b''.join(out), {}


def m_alt(args, read, stdin):
    ls = stdin.splitlines(True)                     # summary: first line, last line, pairs across lines, count
    return b'|'.join([b'S', ls[0].strip() if ls else b'', ls[-1].strip() if ls else b'', b'%d' % len(ls)]) + b'\n', {}


def m_alt_reduce(args, read, stdin):
    parts = [read(a).strip().split(b'|') for a in args]
    if any(len(p) != 4 for p in parts):
        raise Broken(f'alt_bigram_aux_reduce got {parts}')
    n = sum(int(p[3]) for p in parts)
    full = [p for p in parts if int(p[3])]
    return b'|'.join([b'S', full[0][1] if full else b'', full[-1][2] if full else b'', b'%d' % n]) + b'\n', {}


def bigrams(ls):
    return b''.join(a + b' ' + b + b'\n' for a, b in zip(ls, ls[1:]))


def m_bigrams(args, read, stdin):
    return bigrams(stdin.split(b'\n')[:-1]), {}


def m_bigram_map(args, read, stdin):
    i, o, h, t = args
    ls = read(i).split(b'\n')[:-1]
    return b'', {o: bigrams(ls), h: ls[0] + b'\n' if ls else b'', t: ls[-1] + b'\n' if ls else b''}


def m_bigram_reduce(args, read, stdin):
    i1, h1, t1, i2, h2, t2, o, h, t = args
    join = b''
    if read(t1) and read(h2):
        join = read(t1).strip() + b' ' + read(h2).strip() + b'\n'
    return b'', {o: read(i1) + join + read(i2), h: read(h1) or read(h2), t: read(t2) or read(t1)}


MODELS = {'set_diff': m_set_diff, 'col': m_col, 'alt_bigrams_aux': m_alt, 'alt_bigram_aux_reduce': m_alt_reduce,
          'bigrams_aux': m_bigrams, 'bigram_aux_map': m_bigram_map, 'bigram_aux_reduce': m_bigram_reduce}
STANDIN = {'custom_sort': 'sort', 'custom_tr': 'tr'}
ALLOWED = {'grep', 'cut', 'tr', 'sed', 'sort', 'xargs', 'uniq', 'cat'}


class Machine:
    """a scratch directory, memory of streams (variable -> bytes) and of fixed files"""
    def __init__(self, scratch, names):
        self.s, self.names, self.val, self.memo, self.runs = scratch, names, {}, {}, 0
        self.files = {k: (c if isinstance(c, bytes) else c.encode()) for k, c in real.CONTENT.items()}

    def put(self, name, data):
        p = os.path.join(self.s.root, name)
        with open(p, 'wb') as f:
            f.write(data)
        os.chmod(p, 0o666)

    def execute(self, c):
        """run the invocation; output streams become values"""
        v = lower.view(c)
        occ = lower.occurring(v)
        for x in occ:
            if v['access'].get(x) is None:
                raise Broken(f'variable {x} without access in {v}')
        if len(set(occ)) < len(occ):
            raise Broken(f'variable used twice in {v}')
        outs = [x for x in occ if v['access'][x] == 'STREAM_OUTPUT']
        ins = [x for x in occ if v['access'][x] == 'STREAM_INPUT']
        missing = [x for x in ins if x not in self.val]
        if missing:
            raise Broken(f'reads streams nobody wrote: {missing} in {v}')
        if v['out'] is not None and v['out'] not in outs or v['in'] is not None and v['in'] not in ins:
            raise Broken(f'implicit stream of the wrong kind in {v}')

        def word(w):
            if w[0] == 'arg':
                return w[1]
            if w[0] != 'var':
                raise Broken(f'word {w} in {v}')
            x = w[1]
            if x in ins:
                return f'in{ins.index(x)}'
            if x in outs:
                return f'out{outs.index(x)}'
            d = self.names.get(x)
            if d is None:
                raise Broken(f'unknown variable {x} in {v}')
            return '-' if d[0] == 'std' else d[1]
        args = []
        for f in v['flags']:
            args += [f[1]] if f[0] == 'flag' else [f[1], word(f[2])]
        args += [word(o) for o in v['operands']]
        stdin = self.val[v['in']] if v['in'] is not None else b''
        key = (v['cmd'], tuple(args), stdin, tuple(self.val[x] for x in ins), len(outs), v['out'] is not None)
        if key not in self.memo:
            self.memo[key] = self._run(v, args, stdin, ins, outs)
        for x, b in zip(outs, self.memo[key]):
            self.val[x] = b

    def _run(self, v, args, stdin, ins, outs):
        self.runs += 1
        cmd = STANDIN.get(v['cmd'], v['cmd'])
        data = {f'in{i}': self.val[x] for i, x in enumerate(ins)}
        if cmd in MODELS:
            def read(n):
                if n in data:
                    return data[n]
                if n in self.files:
                    return self.files[n]
                raise Broken(f'{cmd} reads {n!r}')
            try:
                out, files = MODELS[cmd](args, read, stdin)
            except (ValueError, IndexError) as e:
                raise Broken(f'{cmd} {args}: {e}')
        else:
            if cmd not in ALLOWED:
                raise Broken(f'command {cmd!r} does not exist')
            for n, b in data.items():
                self.put(n, b)
            for i in range(len(outs)):
                self.put(f'out{i}', b'')
            kw = dict(user=real.UID, group=real.UID, extra_groups=[]) if real.can_drop() else {}
            try:
                p = subprocess.run([cmd] + args, input=stdin, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=self.s.root,
                                   env=real.ENV, timeout=20, **kw)
            except subprocess.TimeoutExpired:
                raise Inconclusive(f'timeout: {cmd}')
            self.rc, self.err = p.returncode, p.stderr
            out, files = p.stdout, {}
            for i in range(len(outs)):
                with open(os.path.join(self.s.root, f'out{i}'), 'rb') as f:
                    files[f'out{i}'] = f.read()
        if out and v['out'] is None:
            raise Broken(f'output goes nowhere: {v["cmd"]} {args}')
        return [out if x == v['out'] else files.get(f'out{i}', b'') for i, x in enumerate(outs)]
