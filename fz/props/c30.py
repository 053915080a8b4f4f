from hypothesis import strategies as st

from .. import forms, gen, trees
from ..core import Sub, req

PROP = 'C30'
RULE = ('Random fields over random emitter trees, put in one schema (with copying and '
        'computed fields among them, sharing input sequences but no emitters), and random '
        'histories of documents, adding, removing, moving, hiding, calling, seeding and '
        'resetting fields; every column is compared with what an identically built field '
        'gives on its own for its own events only. Non-trivial: at least two fields and '
        'three documents, and a random field among them.')


@st.composite
def cases(draw):
    n = draw(st.integers(2, 4))
    fields = []
    for _ in range(n):
        same = fields and draw(st.integers(0, 3)) == 0
        fields.append((draw(st.sampled_from(fields))[0] if same else draw(trees.fields(2)),
                       draw(st.sampled_from([1, 1, 2, 'x', 0, 123456])),
                       draw(st.integers(0, 2)) == 0))
    derived = [(draw(st.integers(0, n)), draw(st.sampled_from(['copy', 'join', 'based'])),
                draw(st.integers(0, n - 1)))
               for _ in range(draw(st.integers(0, 2)))]
    ops = []
    idx = st.integers(0, n - 1)
    for _ in range(draw(st.integers(2, 14))):
        kind = draw(st.sampled_from(['doc'] * 8 + ['hide', 'remove', 'back', 'move', 'call',
                                     'seed', 'seedall', 'reset', 'resetall', 'bystander', 'gate',
                                     'value',
                                     'copies']))
        if kind == 'hide':
            ops.append((kind, draw(idx), draw(st.booleans())))
        elif kind == 'seed':
            ops.append((kind, draw(idx), draw(st.integers(0, 5))))
        elif kind == 'seedall':
            ops.append((kind, draw(st.integers(0, 5))))
        elif kind == 'gate':
            ops.append((kind, draw(idx), draw(st.booleans())))
        elif kind == 'value':
            ops.append((kind, draw(idx), draw(st.sampled_from([None, 1, 2, 'a']))))
        elif kind == 'bystander':
            ops.append((kind, draw(st.integers(0, 5)), draw(st.integers(0, 2))))
        elif kind in ('doc', 'resetall', 'copies'):
            ops.append((kind,))
        else:
            ops.append((kind, draw(idx)))
    return fields, derived, ops + [('doc',)], draw(st.booleans())


@st.composite
def big_cases(draw):
    """Dozens of fields or hundreds of documents."""
    fields, derived, ops, split = draw(cases())
    if draw(st.booleans()):
        n = draw(st.one_of(st.integers(5, 20), st.integers(21, 70)))
        fields = [(fields[i % len(fields)][0], i * 7 % 5, fields[i % len(fields)][2])
                  for i in range(n)]
        more = draw(st.lists(st.tuples(st.sampled_from(['call', 'reset', 'remove', 'back']),
                                       st.integers(0, n - 1)), max_size=3))
        return fields, derived, ops[:4] + more + [('doc',)] * 5, split
    docs = draw(st.one_of(st.integers(20, 80), st.integers(81, 300)))
    return fields, derived, [('doc',)] * docs + ops, split


def check(case, obs):
    from fauxdoc import emitters as E
    from fauxdoc.profile import Field, Schema
    fields, derived, ops, split = case
    pool = {}
    together = trees.Builder(pool if split else None)
    apart = trees.Builder()
    fs = [together.field('f%d' % i, spec, seed, hide)
          for i, (spec, seed, hide) in enumerate(fields)]
    # alone: another field of the same kind, which never sees a schema
    solo = [apart.field('g%d' % i, spec, seed) for i, (spec, seed, _) in enumerate(fields)]
    extra = []
    for k, (after, how, j) in enumerate(derived):
        em = {'copy': lambda: E.CopyFields(fs[j]), 'join': lambda: E.CopyFields(fs, ' '),
              'based': lambda: E.BasedOnFields(fs[j], lambda v, rng: rng.random(),
                                               rng_seed=1)}[how]()
        extra.append((after, Field('d%d' % k, em, repeat=E.Choice([1, 2], rng_seed=1),
                                   rng_seed=1)))
    order = []
    for i, f in enumerate(fs):
        order += [d for after, d in extra if after == i]
        order.append(f)
    order += [d for after, d in extra if after >= len(fs)]
    schema = Schema(*order)
    inside = set(range(len(fs)))
    docs = 0

    def change(i, which, value):
        statics = [(f, w) for f in fs + solo
                   for w in ('emitter', 'repeat_emitter', 'gate_emitter')
                   if isinstance(getattr(f, w), E.Static)]
        before = [repr(getattr(f, w).value) for f, w in statics]
        getattr(fs[i], which).value = value
        for (f, w), old in zip(statics, before):
            if (f, w) != (fs[i], which):
                new = repr(getattr(f, w).value)
                req(new == old, 'setting the %s of field %d changed the %s of field %r '
                    'from %.100s to %.100s', which, i, w, f.name, old, new)
        getattr(solo[i], which).value = value

    for k, op in enumerate(ops):
        forms.stir('Field Schema Choice CopyFields BasedOnFields Word')
        what = 'op %d %r' % (k, op)
        if op[0] == 'doc':
            doc = schema()
            docs += 1
            for i in sorted(inside):
                want = solo[i]()
                got = fs[i].previous
                req(repr(got) == repr(want), '%s: field %d gave %.300r in the schema, but '
                    '%.300r on its own', what, i, got, want)
                if not fs[i].hide:
                    req(repr(doc[fs[i].name]) == repr(want), '%s: column %d is %.300r, on '
                        'its own the field gives %.300r', what, i, doc[fs[i].name], want)
        elif op[0] == 'hide':
            fs[op[1]].hide = op[2]
        elif op[0] == 'remove':
            if op[1] in inside:
                schema.fields.pop(fs[op[1]].name)
                inside.discard(op[1])
                obs.tag('removed')
        elif op[0] == 'back':
            schema.add_fields(fs[op[1]])
            inside.add(op[1])
        elif op[0] == 'move':
            if op[1] in inside:
                schema.fields.move_to_end(fs[op[1]].name)
                obs.tag('moved')
        elif op[0] == 'call':
            got, want = fs[op[1]](), solo[op[1]]()
            req(repr(got) == repr(want), '%s: %.300r, on its own %.300r', what, got, want)
            obs.tag('called alone')
        elif op[0] == 'seed':
            fs[op[1]].seed(op[2])
            solo[op[1]].seed(op[2])
            obs.tag('one field seeded')
        elif op[0] == 'gate':
            # a field's own (default) gate is the field's own
            if fields[op[1]][0][3] is None and isinstance(fs[op[1]].gate_emitter, E.Static):
                change(op[1], 'gate_emitter', op[2])
                obs.tag('gate set')
        elif op[0] == 'value':
            if fields[op[1]][0][2] is None and isinstance(fs[op[1]].repeat_emitter,
                                                          E.Static):
                change(op[1], 'repeat_emitter', op[2] if op[2] != 'a' else 3)
                obs.tag('repeat set')
            elif fields[op[1]][0][1][0] == 'static':
                change(op[1], 'emitter', op[2])
                obs.tag('value set')
        elif op[0] == 'seedall':
            schema.seed_fields(op[1])
            for i in inside:
                solo[i].seed(op[1])
            obs.tag('all seeded')
        elif op[0] == 'reset':
            fs[op[1]].reset()
            solo[op[1]].reset()
            obs.tag('one field reset')
        elif op[0] == 'resetall':
            schema.reset_fields()
            for i in inside:
                solo[i].reset()
            obs.tag('all reset')
        elif op[0] == 'bystander':
            # an added field that nothing else has to do with
            em = [lambda: E.Choice(range(9), rng_seed=op[1]),
                  lambda: E.Choice('abc', replace=False, rng_seed=op[1]),
                  lambda: E.Text(E.Choice([1, 2]), E.Choice(['a', 'b'], [1, 2]),
                                 rng_seed=op[1])][op[2]]()
            f = Field('b%d' % (k % 2), em, rng_seed=op[1])
            f()
            if op[2] != 1:
                schema.add_fields(f)
            obs.tag('added')
        elif op[0] == 'copies':
            for _, d in extra:
                d()
    obs.interesting(docs > 2 and any(trees.is_random(s[1]) for s, _, _ in fields))
    obs.tag('shared sequences' if split else 'own sequences')


@st.composite
def pool_cases(draw):
    """Columns that use up one and the same list of items, each in its own order."""
    n = draw(st.one_of(st.integers(1, 12), st.integers(7, 60)))
    alike = draw(st.booleans())
    fields = []
    for _ in range(draw(st.integers(2, 5))):
        fields.append({'kind': draw(st.sampled_from(['norep', 'norep', 'norep', 'roac',
                                                     'rep', 'set norep'])),
                       'weights': draw(st.one_of(st.none(), gen.exact_weight_lists(n))),
                       'seed': draw(st.integers(0, 3)),
                       'repeat': draw(st.sampled_from([None, None, 1, 2]))})
        if alike and draw(st.booleans()):
            fields[-1]['weights'] = fields[0]['weights']
    ops = draw(st.lists(st.one_of(
        st.just(('doc',)), st.just(('doc',)), st.just(('doc',)),
        st.tuples(st.sampled_from(['call', 'reset', 'fresh']),
                  st.integers(0, len(fields) - 1)),
        st.tuples(st.just('seed'), st.integers(0, len(fields) - 1), st.integers(0, 3)),
        st.tuples(st.sampled_from(['resetall', 'spend']), st.integers(0, 60)),
    ), min_size=3, max_size=14))
    return n, draw(st.sampled_from(['list', 'tuple', 'range', 'str'])), fields, ops


def check_pool(case, obs):
    from fauxdoc.emitters import Choice
    from fauxdoc.profile import Field, Schema
    n, kind, fields, ops = case

    def seq():
        return {'list': lambda: ['i%d' % i for i in range(n)],
                'tuple': lambda: tuple(range(n)), 'range': lambda: range(n),
                'str': lambda: ''.join(chr(0x100 + i) for i in range(n))}[kind]()
    pool = seq()

    def build(i, f, items):
        c = Choice(items, weights=f['weights'], replace=f['kind'] != 'norep',
                   replace_only_after_call=f['kind'] == 'roac', rng_seed=f['seed'])
        if f['kind'] == 'set norep':
            c.replace = False
        return Field('f%d' % i, c, repeat=f['repeat'] and Choice([1, f['repeat']],
                                                                 rng_seed=1),
                     rng_seed=f['seed'])
    fs = [build(i, f, pool) for i, f in enumerate(fields)]
    solo = [build(i, f, seq()) for i, f in enumerate(fields)]
    uses_up = [f['kind'] in ('norep', 'set norep') for f in fields]
    schema = Schema(*fs)
    docs = 0

    def ready():
        """Resets the columns that could run out in the next document."""
        for i in range(len(fs)):
            if uses_up[i] and solo[i].emitter.num_unique_items < (fields[i]['repeat'] or 1):
                fs[i].reset()
                solo[i].reset()
                obs.tag('used up')

    def doc(what):
        ready()
        got = schema()
        for i, f in enumerate(solo):
            want = f()
            req(repr(got['f%d' % i]) == repr(want), '%s: column %d is %.300r, on its own '
                'the field gives %.300r', what, i, got['f%d' % i], want)
    if n < 2:
        for f in fields:
            f['repeat'] = None
        fs = [build(i, f, pool) for i, f in enumerate(fields)]
        solo = [build(i, f, seq()) for i, f in enumerate(fields)]
        schema = Schema(*fs)
    for k, op in enumerate(ops + [('doc',)]):
        forms.stir('Field Schema Choice CopyFields BasedOnFields Word')
        what = 'op %d %r' % (k, op)
        if op[0] == 'doc':
            doc(what)
            docs += 1
        elif op[0] == 'spend':
            for _ in range(op[1]):
                doc(what)
            docs += op[1]
        elif op[0] == 'call':
            ready()
            got, want = fs[op[1]](), solo[op[1]]()
            req(repr(got) == repr(want), '%s: %.300r, on its own %.300r', what, got, want)
        elif op[0] == 'fresh':
            # another, equal field that nothing else has to do with
            other = build(99, fields[op[1]], pool)
            other()
            other.reset()
        elif op[0] == 'reset':
            fs[op[1]].reset()
            solo[op[1]].reset()
        elif op[0] == 'seed':
            fs[op[1]].seed(op[2])
            solo[op[1]].seed(op[2])
        else:
            schema.reset_fields()
            for f in solo:
                f.reset()
    obs.interesting(docs > 2 and any(uses_up))
    obs.tag('items: ' + kind)


SUBS = [Sub('columns', cases, check, 4000), Sub('pools', pool_cases, check_pool, 1500), Sub('big', big_cases, check, 120, 1920)]
