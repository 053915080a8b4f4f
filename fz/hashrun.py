"""Main program of C03's fresh interpreters: runs targets, prints their outputs."""
import json
import sys


def run(jobs, prelude):
    from fz import core, trees
    for text in prelude:
        spec, seed, ops = core.load_case(text)
        b = trees.Builder()
        t = b.target(spec)
        t.outputs(ops)
        t.seed(seed) if t.seedable() else None
        t.reset()
        t.outputs(ops)
    out = []
    for text in jobs:
        spec, seed, ops = core.load_case(text)
        t = trees.Builder().target(spec, seed)
        if t.kind == 'schema':
            t.seed(seed)
            t.reset()
        res = t.outputs(ops)
        if t.kind == 'emitter':
            res.append(repr((t.obj.num_unique_values, t.obj.emits_unique_values)))
        out.append(res)
    return out


def main():
    import warnings
    warnings.simplefilter('ignore')
    sys.path.insert(0, sys.argv[1])
    from fz import env
    env.setup()
    job = json.load(sys.stdin)
    json.dump(run(job['jobs'], job['prelude']), sys.stdout)


if __name__ == '__main__':
    main()
