"""Reference knowledge about the described commands: flags, options, aliases (optspec.json, reviewed against the
tools' documentation and probed against the installed tools by C03) and a reference parser over words."""
import json, os

_raw = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'optspec.json')))
FILE_KINDS = ('FILE', 'DIR', 'DIRECTORY')


class Group:
    """one flag or option with all its spellings"""
    def __init__(self, cmd, i, names, arg):
        self.cmd, self.id, self.names, self.is_option = cmd, f'{cmd}:{names[0]}', list(names), arg is not None
        self.key = names[0]
        self.access = arg[1] if isinstance(arg, list) and arg[0] in FILE_KINDS else None
        self.shorts = [n for n in names if len(n) == 2 and n[0] == '-' and n[1] != '-']
        self.longs = [n for n in names if n.startswith('--')]

    def __repr__(self):
        return self.id


class Cmd:
    def __init__(self, name, raw):
        self.name = name
        self.flags = [Group(name, i, x, None) for i, x in enumerate(raw['flag'])]
        self.options = [Group(name, i, x[0], x[1]) for i, x in enumerate(raw['option'])]
        self.groups = self.flags + self.options
        self.flag_of = {n: g for g in self.flags for n in g.names}
        self.option_of = {n: g for g in self.options for n in g.names}
        self.by_key = {g.key: g for g in self.groups}

    def group_of(self, spelling):
        return self.flag_of.get(spelling) or self.option_of.get(spelling)

    def g(self, name):
        return self.group_of(name)


CMDS = {c: Cmd(c, r) for c, r in _raw.items()}
EMPTY = Cmd('', {'flag': [], 'option': []})

ANNOTATED_IO = ['alt_bigrams_aux', 'alt_bigram_aux_reduce', 'awk', 'bigrams_aux', 'cat', 'col', 'comm', 'custom_sort', 'custom_tr',
                'cut', 'diff', 'grep', 'head', 'mkfifo', 'mv', 'rm', 'sed', 'set_diff', 'seq', 'sort', 'tail', 'tee',
                'test_one', 'test_two', 'tr', 'uniq', 'wc', 'xargs']
ANNOTATED_PAR = ['alt_bigrams_aux', 'bigrams_aux', 'col', 'custom_sort', 'custom_tr', 'cut', 'grep', 'sed', 'set_diff', 'sort',
                 'test_one', 'test_two', 'tr', 'uniq', 'xargs']
OPTIONS_ANYWHERE = {'cat', 'col', 'comm', 'cut', 'diff', 'grep', 'head', 'mkfifo', 'mv', 'rm', 'sed', 'sort', 'tail', 'tee',
                    'uniq', 'wc'}
OPTIONS_FIRST = {'awk', 'tr', 'xargs'}

# argument samples for options (valid for the tool)
ARGS = {
    ('cut', '-b'): ['1', '2-', '1,3', '-2'], ('cut', '-c'): ['1', '2-3', '1,4-'], ('cut', '-f'): ['1', '2', '1,3', '2-'],
    ('cut', '-d'): [',', ' ', ':', 'a'], ('cut', '--output-delimiter'): ['+', '; ', '\n', ''],
    ('grep', '-e'): ['a', '^b', 'o.', 'x$'], ('grep', '-f'): ['pat'], ('grep', '-m'): ['1', '2', '0'], ('grep', '--label'): ['lab'],
    ('grep', '-A'): ['1', '2', '0'], ('grep', '-B'): ['1', '0'], ('grep', '-C'): ['1', '0'], ('grep', '--group-separator'): ['++', ''],
    ('grep', '--binary-files'): ['text', 'without-match'], ('grep', '-D'): ['read', 'skip'], ('grep', '-d'): ['read', 'skip', 'recurse'],
    ('grep', '--exclude'): ['*.c', 'f*'], ('grep', '--exclude-from'): ['globs'], ('grep', '--exclude-dir'): ['.git'],
    ('grep', '--include'): ['f*', '*.c'],
    ('head', '-n'): ['1', '3', '-1'], ('head', '-c'): ['5', '1', '-2'], ('tail', '-n'): ['1', '+2', '3'], ('tail', '-c'): ['5', '+3'],
    ('tail', '-s'): ['1'], ('tail', '--pid'): ['1'], ('tail', '--max-unchanged-stats'): ['3'],
    ('sort', '--random-source'): ['rnd'], ('sort', '--sort'): ['numeric', 'general-numeric', 'month', 'version', 'human-numeric'],
    ('sort', '--batch-size'): ['2', '16'], ('sort', '--compress-program'): ['gzip'], ('sort', '--files0-from'): ['list0'],
    ('sort', '-k'): ['1', '2', '2,2', '1,1n', '2.2r', '1b,1'], ('sort', '-o'): ['out1'], ('sort', '-S'): ['1M', '50%'],
    ('sort', '-t'): [',', ':', 'a'], ('sort', '-T'): ['tmpd'], ('sort', '--parallel'): ['1', '2'],
    ('uniq', '-f'): ['1', '0'], ('uniq', '-s'): ['1', '2'], ('uniq', '-w'): ['1', '3', '0'],
    ('wc', '--files0-from'): ['list0'], ('wc', '--total'): ['never', 'always', 'auto', 'only'],
    ('sed', '-l'): ['5', '10'], ('sed', '-e'): ['s/a/X/', 's/o/0/g', 'y/ab/xy/'], ('sed', '-f'): ['script', 'script2', 'script3', 'script4', 'script5'],
    ('seq', '-f'): ['%g', '%03g'], ('seq', '-s'): [',', ' '],
    ('mkfifo', '-m'): ['600', 'a=rw'], ('mv', '-S'): ['.bak', '~~'], ('mv', '-t'): ['d'],
    ('col', '-l'): ['64', '128'], ('comm', '--output-delimiter'): ['|', ';;'],
    ('awk', '-f'): ['prog'], ('awk', '-F'): [',', ':'], ('awk', '-v'): ['x=1', 'y=ab'], ('awk', '-e'): ['{print $1}'],
    ('awk', '-E'): ['prog'], ('awk', '-i'): ['prog'], ('awk', '-l'): ['ext'],
    ('diff', '-C'): ['1'], ('diff', '-U'): ['2'], ('diff', '-W'): ['60'], ('diff', '-F'): ['^b'], ('diff', '--label'): ['L1'],
    ('diff', '--tabsize'): ['4'], ('diff', '-x'): ['*.o'], ('diff', '--exclude-from'): ['globs'], ('diff', '-S'): ['f2'],
    ('diff', '--from-file'): ['f3'], ('diff', '--to-file'): ['f3'], ('diff', '-I'): ['^a'], ('diff', '-D'): ['SYM'],
    ('diff', '--line-format'): ['%L'], ('diff', '--horizon-lines'): ['2'], ('diff', '--palette'): ['ad=1'],
    ('diff', '--old-group-format'): ['<%<'], ('diff', '--new-group-format'): ['>%>'], ('diff', '--unchanged-group-format'): ['=%='],
    ('diff', '--changed-group-format'): ['!%<%>'], ('diff', '--old-line-format'): ['-%L'], ('diff', '--new-line-format'): ['+%L'],
    ('diff', '--unchanged-line-format'): [' %L'],
    ('xargs', '-a'): ['f1', '-', 'd/g'], ('xargs', '--delimiter'): ['\\n', ',', 'x'], ('xargs', '-E'): ['b', 'EOF'], ('xargs', '-I'): ['{}', '%'],
    ('xargs', '-L'): ['1', '2'], ('xargs', '-n'): ['1', '2'], ('xargs', '-P'): ['1', '4'], ('xargs', '-s'): ['1000'],
    ('xargs', '--process-slot-var'): ['SLOT'],
}


def args_of(g):
    return ARGS.get(({'custom_sort': 'sort', 'custom_tr': 'tr'}.get(g.cmd, g.cmd), g.key), ['x', '1'])


def classify(cmd, words):
    """Reference parser: words after the command name -> ([(Group, arg or None)], operands)."""
    c = CMDS.get(cmd, EMPTY)
    out, i = [], 0
    while i < len(words):
        w = words[i]
        if w in c.flag_of:
            out.append((c.flag_of[w], None))
        elif w in c.option_of and i + 1 < len(words):
            out.append((c.option_of[w], words[i + 1]))
            i += 1
        elif w.startswith('--'):
            name, eq, arg = w.partition('=')
            if not (eq and name in c.option_of):
                break
            out.append((c.option_of[name], arg))
        elif w.startswith('-') and len(w) > 1:
            part, j, extra = [], 1, 0
            while j < len(w):
                s = '-' + w[j]
                if s in c.flag_of:
                    part.append((c.flag_of[s], None))
                    j += 1
                elif s in c.option_of:
                    if w[j + 1:]:
                        part.append((c.option_of[s], w[j + 1:]))
                    elif i + 1 < len(words):
                        part.append((c.option_of[s], words[i + 1]))
                        extra = 1
                    else:
                        part = None
                    break
                else:
                    part = None
                    break
            if part is None:
                break
            out += part
            i += extra
        else:
            break
        i += 1
    return out, words[i:]
