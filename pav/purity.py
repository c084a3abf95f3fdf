"""Everything the library answers for a command line, as plain data; also run as a separate process: JSON list of lines in, digests out."""
import hashlib, json, random, sys


def answers(line, events=None):
    """{stage: structural dump}; checks on the way that the arguments of each stage stay as they were (appends to events)"""
    from . import api, lower
    from .core import dump
    ev = [] if events is None else events
    out = {}

    def stage(name, f, **args):
        before = {k: dump(a) for k, a in args.items()}
        r = f()
        for k, a in args.items():
            ev.append((name, k, dump(a) == before[k]))
        out[name] = dump(r)
        return r

    objs = {'line': line}
    inv = stage('parse', lambda: api.parse(line), line=line)
    objs['inv'] = inv
    info = stage('io', lambda: api.io_info(inv), inv=inv)
    par = stage('par', lambda: api.par_info(inv), inv=inv)
    objs.update(info=info, par=par)
    cio = None
    if info is not None:
        cio = stage('apply', lambda: info.apply_input_output_info_to_command_invocation(inv), inv=inv, info=info)
        out['apply again'] = dump(info.apply_input_output_info_to_command_invocation(inv))
        ev.append(('apply', 'second application', out['apply again'] == out['apply']))
        objs['cio'] = cio
        stage('other outputs', lambda: info.has_other_outputs(), info=info)
    if par is not None:
        stage('inferred', lambda: par.get_inferred_parallelizer_list(), par=par)
        un = stage('unpack', lambda: par.unpack_info(), par=par)
        again = stage('unpack again', lambda: par.unpack_info(), par=par)
        ev.append(('unpack', 'second reading', dump(un) == dump(again)))
        objs['plist'] = un[0]
        if cio is not None:
            low, names, nxt = lower.lower(cio)
            objs['low'] = low
            v = lower.view(low)
            stage('inputs', lambda: low.generate_inputs().get_streaming_inputs(), low=low)
            stage('outputs', lambda: low.generate_outputs(), low=low)
            stage('has other', lambda: low.has_other_outputs(), low=low)
            if len(lower.streams(v, 'STREAM_INPUT')) == 1 and len(lower.streams(v, 'STREAM_OUTPUT')) == 1:
                built = objs['built'] = []
                for j, p in enumerate(un[0]):
                    if not p.are_all_parts_implemented():
                        continue
                    n = p.get_info_mapper_aggregator()
                    aux = [nxt + 10 + k for k in range(n)]
                    built.append(stage(f'mapper {j}', lambda: p.get_actual_mapper(low, nxt, nxt + 1, aux), p=p, low=low, aux=aux))
                    ins = [nxt + 30, nxt + 31]
                    if n:
                        fa, sa, oa = [nxt + 40 + k for k in range(n)], [nxt + 50 + k for k in range(n)], [nxt + 60 + k for k in range(n)]
                        built.append(stage(f'aggregator {j}', lambda: p.get_actual_2_ary_aggregator_with_aux(ins[0], fa, ins[1], sa, nxt + 32, oa),
                                           p=p, low=low, fa=fa, sa=sa, oa=oa))
                    else:
                        built.append(stage(f'aggregator {j}', lambda: p.get_actual_aggregator(low, ins, nxt + 32), p=p, low=low, ins=ins))
    # after all of it, the first objects are what they were
    ev.append(('all', 'inv', dump(inv) == out['parse']))
    ev.append(('all', 'info', dump(info) == out['io']))
    ev.append(('all', 'par', dump(par) == out['par']))
    if cio is not None:
        ev.append(('all', 'cio', dump(cio) == out['apply']))
    return out, objs


def digest(out):
    return {k: hashlib.blake2b(repr(d).encode('utf-8', 'surrogateescape'), digest_size=9).hexdigest() for k, d in out.items()}


def vandalize(rng, objs):
    """use results as a client may: change their lists and call their mutating methods"""
    n = 0
    for x in [objs.get('inv'), objs.get('cio'), objs.get('low')] + objs.get('built', []):
        if x is None:
            continue
        for name in ('flag_option_list', 'operand_list'):
            l = getattr(x, name, None)
            if isinstance(l, list):
                n += 1
                r = rng.random()
                if r < .4:
                    l.clear()
                elif r < .7:
                    l.reverse()
                    l.extend(l[:1])
                else:
                    l.append(l[0] if l else 'junk')
        if isinstance(getattr(x, 'access_map', None), dict):
            x.access_map.clear()
            n += 1
    par = objs.get('par')
    if par is not None:
        par.set_commutative()
        for p in objs.get('plist', [])[:1]:
            par.append_to_parallelizer_list(p)
        objs.get('plist', []).clear()
        if isinstance(getattr(par, 'parallelizer_list', None), list) and rng.random() < .5:
            par.parallelizer_list.clear()
        n += 1
    info = objs.get('info')
    if info is not None and objs.get('inv') is not None:
        rng.choice([lambda: info.all_operands_are_other_outputs(), lambda: info.set_implicit_use_of_stdin(rng.random() < .5),
                    lambda: info.set_implicit_use_of_stdout(rng.random() < .5), lambda: info.set_all_operands_as_arg_string()])()
        n += 1
    return n


if __name__ == '__main__':
    sys.path.insert(0, sys.argv[1])
    from pav.purity import answers as f
    lines = json.load(sys.stdin)
    if len(sys.argv) > 2:
        random.Random(sys.argv[2]).shuffle(lines)
    json.dump([[l, digest(f(l)[0])] for l in lines], sys.stdout)
