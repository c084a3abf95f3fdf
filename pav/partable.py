"""Reference table of the parallelizers that must be offered (C14), from the flags, options and operands of an invocation."""
import re
from . import iomodel

SORT_KEEP = ['-b', '-d', '-f', '-g', '-i', '-M', '-h', '-n', '-r', '--sort', '-V', '-k', '-t']
SORT_HARMLESS = ['-S', '-T', '--parallel', '--batch-size', '--compress-program']
SORT_NONE = ['-c', '-C', '-u', '-z', '-R', '-s', '-m', '--files0-from', '--random-source', '--debug']
GREP_NONE = ['-q', '-A', '-B', '-C', '-m', '-z', '-H', '-r', '-R', '-d', '-c', '-L', '-l', '-n', '-b', '-Z', '--include', '--exclude', '--exclude-from',
             '--exclude-dir', '-V', '--help']
SED_NONE = ['-f', '-i', '-z', '-n', '--debug', '-s', '-u', '--help', '--version']
XARGS_NONE = ['-0', '-a', '-E', '-e']
CLASSES = {'alpha': str.isalpha, 'digit': str.isdigit, 'alnum': str.isalnum, 'upper': str.isupper, 'lower': str.islower,
           'space': lambda c: c in ' \t\n\v\f\r', 'blank': lambda c: c in ' \t', 'punct': lambda c: c.isprintable() and not c.isalnum() and c != ' ',
           'cntrl': lambda c: ord(c) < 32 or ord(c) == 127, 'print': lambda c: 32 <= ord(c) < 127, 'graph': lambda c: 32 < ord(c) < 127,
           'xdigit': lambda c: c in '0123456789abcdefABCDEF'}
ESC = {'n': '\n', 't': '\t', 'r': '\r', 'f': '\f', 'v': '\v', 'a': '\a', 'b': '\b', '\\': '\\'}


def tr_set(s):
    """characters of a tr set (classes, ranges, escapes); None if not understood"""
    if re.search(r'\[=|\[.\*|\[\\[0-7]*.\*', s):
        return None
    toks = []                                   # characters, or sets for classes
    for t in re.findall(r'\[:\w+:\]|\\[0-7]{1,3}|\\.|.', s, re.DOTALL):
        if t.startswith('[:') and len(t) > 4:
            if t[2:-2] not in CLASSES:
                return None
            toks.append({chr(c) for c in range(128) if CLASSES[t[2:-2]](chr(c))})
        elif t[0] == '\\' and len(t) > 1:
            if t[1] in '01234567':
                if int(t[1:], 8) > 255:
                    return None
                toks.append(chr(int(t[1:], 8)))
            else:
                toks.append(ESC.get(t[1], t[1]))
        else:
            toks.append(t)
    out, i = set(), 0
    while i < len(toks):
        if i + 2 < len(toks) and toks[i + 1] == '-' and isinstance(toks[i], str):
            if not isinstance(toks[i + 2], str) or toks[i] > toks[i + 2]:
                return None
            out |= {chr(c) for c in range(ord(toks[i]), ord(toks[i + 2]) + 1)}
            i += 3
        else:
            out |= {toks[i]} if isinstance(toks[i], str) else toks[i]
            i += 1
    return out


def tr_linewise(keys, ops):
    """True: newlines neither deleted nor squeezed (nor turned into something squeezed); None: unknown"""
    d, s, c = '-d' in keys, '-s' in keys, '-c' in keys
    if len(ops) not in (1, 2) or (len(ops) == 1 and not (d or s)) or (d and not s and len(ops) == 2) or (d and s and len(ops) == 1):
        return None
    sets = [tr_set(o) for o in ops]
    if not all(sets):
        return None
    first = ('\n' in sets[0]) != c
    if d and first:
        return False
    if s and (first or '\n' in sets[-1] and (len(ops) == 2 or not c)):
        return False
    return True


def required(cmd, flags, ops):
    """(list of (splitter, aggregation, auxiliary streams) that must be offered, implemented; must be commutative)"""
    if iomodel.option_among_operands(cmd, ops):
        return [], False
    keys = [k for k, _ in flags]
    args = lambda k: [a for x, a in flags if x == k]
    both = [('consec', 'concat', 0), ('rr', 'concat', 0)]
    has = lambda l: bool(set(keys) & set(l))
    if cmd == 'grep':
        return ([] if has(GREP_NONE) else both), False
    if cmd in ('cut', 'col', 'custom_tr'):
        return ([] if cmd == 'cut' and '\n' in args('-d') else both), False
    if cmd == 'set_diff':
        return both[:1], False
    if cmd == 'tr':
        return (both if tr_linewise(keys, ops) else []), False
    if cmd == 'sed':
        scripts = args('-e') or ([] if '-f' in keys else ops[:1])
        if has(SED_NONE) or not scripts or not all(re.fullmatch(r's([/|,;#:])(?:\\.|(?!\1)[^\\\n[])*\1(?:\\.|(?!\1)[^\\\n])*\1[g0-9]*', x) for x in scripts):
            return [], False
        return both, False
    if cmd == 'xargs':
        if has(XARGS_NONE) or any(a not in ('\n', '\\n') for a in args('--delimiter')):
            return [], False
        return both, False
    if cmd in ('sort', 'custom_sort'):
        if has(SORT_NONE) or any('random'.startswith(a) for a in args('--sort')) or any('R' in a for a in args('-k')):
            return [], False
        return [('consec', '2ary', 0)], True
    if cmd == 'alt_bigrams_aux':
        return [('consec', '2ary', 0)], False
    if cmd == 'bigrams_aux':
        return [('consec', '2ary', 2)], False
    return [], False


def kind(p):
    """(splitter, aggregation, auxiliary streams) of a parallelizer, by its own predicates"""
    s, a = p.get_splitter(), p.get_aggregator_spec()
    sp = [n for n, t in (('consec', s.is_splitter_consec_chunks()), ('rr', s.is_splitter_round_robin()),
                         ('unwrap', s.is_splitter_round_robin_with_unwrap_flag())) if t]
    ag = [n for n, t in (('concat', a.is_aggregator_spec_concatenate()), ('adjm', a.is_aggregator_spec_adj_lines_merge()),
                         ('adjs', a.is_aggregator_spec_adj_lines_seq()), ('adjf', a.is_aggregator_spec_adj_lines_func()),
                         ('2ary', a.is_aggregator_spec_custom_2_ary()), ('nary', a.is_aggregator_spec_custom_n_ary())) if t]
    return '+'.join(sp), '+'.join(ag), p.get_info_mapper_aggregator()
