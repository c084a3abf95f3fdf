"""From an applied invocation to an invocation over stream variables, the way a client of the library does it: every file or
standard stream gets its own number, and the access map records its access."""
from . import api


def lower(cio, start=1):
    """(CommandInvocationWithIOVars, {var: description}, next free number)"""
    names, access = {}, {}
    n = start

    def var(x):
        nonlocal n
        v, n = n, n + 1
        names[v] = api.describe(x)
        access[v] = x.get_access()
        return v

    fl = []
    for f in cio.flag_option_list:
        if isinstance(f, api.Flag):
            fl.append(f)
        else:
            a = f.get_arg()
            fl.append(api.OptionWithIOVar(f.get_name(), a if isinstance(a, api.ArgStringType) else var(a)))
    ops = [o if isinstance(o, api.ArgStringType) else var(o) for o in cio.operand_list]
    i = cio.implicit_use_of_streaming_input
    o = cio.implicit_use_of_streaming_output
    i = None if i is None else var(i)
    o = None if o is None else var(o)
    return api.CommandInvocationWithIOVars(cio.cmd_name, fl, ops, i, o, access), names, n


def view(c):
    """plain view of an invocation over variables: words are ('flag', n) ('option', n, w), w is ('arg', text) or ('var', n)"""
    w = lambda x: ('arg', x.get_name()) if isinstance(x, api.ArgStringType) else ('var', x) if isinstance(x, int) else ('?', repr(x))
    fl = [('flag', f.get_name()) if isinstance(f, api.Flag) else ('option', f.get_name(), w(f.get_arg())) for f in c.flag_option_list]
    return {'cmd': c.cmd_name, 'flags': fl, 'operands': [w(o) for o in c.operand_list], 'in': c.implicit_use_of_streaming_input,
            'out': c.implicit_use_of_streaming_output,
            'access': {k: api.access_name(v) for k, v in c.access_map.items()}}


def occurring(v):
    """variables in traversal order: option arguments, operands, implicit input, implicit output"""
    out = [f[2][1] for f in v['flags'] if f[0] == 'option' and f[2][0] == 'var']
    out += [o[1] for o in v['operands'] if o[0] == 'var']
    return out + [x for x in (v['in'], v['out']) if x is not None]


def streams(v, kind):
    return [x for x in occurring(v) if v['access'].get(x) == kind]
