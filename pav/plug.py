"""Child process of C20: runs with a copy of the package to which commands were added (PAV_REPO); JSON in, JSON out."""
import json, sys


def expected_parallelizer(e):
    from . import c16
    from pash_annotations.annotation_generation.datatypes.parallelizability import AggregatorSpec as A
    sp, ag, mp, info, aux, text, impl = e
    if ag == 'adjf':
        agg = A.make_aggregator_spec_adj_lines_func_from_string_representation(text, impl)
    else:
        agg = c16.AGG[ag]()
    return c16.MAKE[sp](mapper_spec=c16.MAP[mp](), aggregator_spec=agg, info_splitter_mapper=c16.INFOS[info], info_mapper_aggregator=aux)


def answer(line, want):
    from . import api, partable
    from .core import dump
    inv = api.parse(line)
    out = {'parse': api.view_inv(inv)}
    before = dump(inv)
    info, par = api.io_info(inv), api.par_info(inv)
    if info is not None:
        out['io'] = api.view_io(info.apply_input_output_info_to_command_invocation(inv))
        out['other'] = info.has_other_outputs()
    if par is not None:
        ps = list(par.parallelizer_list)
        out['par'] = [partable.kind(p)[:2] + (p.get_info_mapper_aggregator(),) for p in ps]
        out['same'] = [dump(p) == dump(expected_parallelizer(e)) for p, e in zip(ps, want or [])]
        un = par.unpack_info()
        out['inferred'] = [partable.kind(p)[:2] for p in un[0]]
        out['commutative'] = un[2]
    out['kept'] = dump(inv) == before
    return out


def main():
    from . import purity
    job = json.load(sys.stdin)
    res = []
    for line, want in job['lines']:
        try:
            res.append(answer(line, want))
        except Exception as e:
            res.append({'raised': repr(e)[:300]})
    old = [purity.digest(purity.answers(l)[0]) for l in job['old']]
    json.dump([res, old], sys.stdout)


if __name__ == '__main__':
    main()
