from collections import Counter

from hypothesis import strategies as st

from .. import forms, gen
from ..core import Sub, eq, req
from ..rec import Stream, make_source

PROP = 'C31'
RULE = ('Random schemas whose fields draw from Choice emitters without replacement or with '
        'replacement only after each call - directly, through wrappers, words and texts, '
        'one value or many, gated, several fields sharing one pool - and histories of '
        'documents, calls, resets and seedings until a pool runs out; compared with a '
        'multiset model of the pools. Non-trivial: a pool used by at least two fields or '
        'documents.')


@st.composite
def pools(draw, sizes=st.integers(1, 14)):
    n = draw(sizes)
    kind = draw(st.sampled_from(['distinct', 'distinct', 'dups', 'lists']))
    k = {'distinct': n, 'dups': draw(st.integers(1, n)), 'lists': draw(st.integers(1, n))}[kind]
    return {'n': n, 'k': k, 'lists': kind == 'lists',
            'weights': draw(st.one_of(st.none(), st.none(), st.lists(
                st.sampled_from([1, 2, 0.5, 10, 0]), min_size=min(n, 14),
                max_size=min(n, 14)).filter(any))),
            'mode': draw(st.sampled_from(['norep', 'norep', 'norep', 'roac'])),
            'late': draw(st.integers(0, 3)) == 0}


@st.composite
def field_specs(draw, npools, most=3, repeats=st.integers(0, 4)):
    return {'pool': draw(st.integers(0, npools - 1)),
            'how': draw(st.sampled_from(['plain', 'plain', 'one', 'many', 'word', 'text',
                                         'onetext', 'oneone'])),
            'counts': draw(st.lists(st.integers(0, most), min_size=1, max_size=3)),
            'repeat': draw(st.one_of(st.none(), st.lists(repeats, min_size=1,
                                                         max_size=3))),
            'gate': draw(st.one_of(st.none(), st.none(), st.lists(st.booleans(), min_size=1,
                                                                  max_size=3))),
            'hide': draw(st.integers(0, 3)) == 0,
            'seed': draw(st.integers(0, 99))}


@st.composite
def cases(draw):
    ps = draw(st.lists(pools(), min_size=1, max_size=2))
    fields = draw(st.lists(field_specs(len(ps)), min_size=1, max_size=3))
    ops = []
    for _ in range(draw(st.integers(1, 5))):
        ops += [('doc',)] * draw(st.integers(1, 5))
        ops.append(draw(st.sampled_from([('doc',), ('reset',), ('seed', 3), ('until',),
                                         ('until',), ('call', 0)])))
    return ps, fields, ops


@st.composite
def big_cases(draw):
    ps = draw(st.lists(pools(st.one_of(gen.big(300), gen.big(2500))), min_size=1,
                       max_size=2))
    n = max(p['n'] for p in ps)
    fields = draw(st.lists(field_specs(
        len(ps), draw(st.sampled_from([3, 12, 70])),
        st.sampled_from([1, 2, 3, 10, 33, n // 10, n // 3])),
        min_size=1, max_size=draw(st.sampled_from([2, 12]))))
    ops = []
    for _ in range(draw(st.integers(1, 3))):
        ops += [('doc',)] * draw(st.integers(1, 40))
        ops.append(draw(st.sampled_from([('reset',), ('seed', 3), ('until',), ('until',),
                                         ('call', 0)])))
    return ps, fields, ops


class Left:
    """What is left of pools, put in words only when it is needed."""

    def __init__(self, *pools_):
        self.pools = pools_

    def __repr__(self):
        return repr([sorted(p.left.elements()) for p in self.pools])[:600]


class Pool:
    """Model and real emitter."""

    def __init__(self, spec, seed):
        from fauxdoc.emitters import Choice
        w = spec['weights']
        if w is not None:
            spec = dict(spec, weights=[w[i % len(w)] for i in range(spec['n'])])
        self.spec = spec
        self.items = ['w%d' % (i % spec['k']) for i in range(spec['n'])]
        real = [[x] for x in self.items] if spec['lists'] else list(self.items)
        kw = {'replace': False} if spec['mode'] == 'norep' else {'replace_only_after_call': True}
        if spec['late']:
            self.em = Choice(real, rng_seed=seed)
            self.em.weights = spec['weights']
            for k, v in kw.items():
                setattr(self.em, k, v)
        else:
            self.em = Choice(real, spec['weights'], rng_seed=seed, **kw)
        self.refill()

    def refill(self):
        self.left = Counter(self.items)

    def remaining(self):
        return sum(self.left.values())


def _own(v):
    return ('p', v)


def check(case, obs):
    from fauxdoc import emitters as E
    from fauxdoc.profile import Field, Schema
    pspecs, fspecs, ops = case
    fspecs = list(fspecs)
    # words of texts are joined, so these pools hold strings
    strings = {f['pool'] for f in fspecs if f['how'] in ('word', 'text', 'onetext')}
    pspecs = [dict(p, lists=p['lists'] and i not in strings) for i, p in enumerate(pspecs)]
    pools_ = [Pool(p, 7 + i) for i, p in enumerate(pspecs)]
    fields, streams = [], []
    for i, f in enumerate(fspecs):
        em = pools_[f['pool']].em
        if f['how'] == 'onetext' and f['counts'][0] > pspecs[f['pool']]['n']:
            f = fspecs[i] = dict(f, how='text')     # wrappers try their source once
        how = f['how']
        counts = make_source('seq', f['counts'])
        if how == 'one':
            em = E.WrapOne(em, _own)
        elif how == 'oneone':
            em = E.WrapOne(E.WrapOne(em, _own), lambda v, rng: v)
        elif how == 'many':
            em = E.WrapMany({'v': em, 's': E.Static(1)}, lambda v, s: ('p', v))
        elif how == 'word':
            em = E.Word(counts, em)
        elif how in ('text', 'onetext'):
            em = E.Text(counts, em, E.Static('|'))
            if how == 'onetext':
                em = E.WrapOne(em, lambda s: s)
        fields.append(Field('f%d' % i, em,
                            repeat=None if f['repeat'] is None else
                            make_source('seq', f['repeat']),
                            gate=None if f['gate'] is None else make_source('seq', f['gate']),
                            hide=f['hide'], rng_seed=f['seed']))
        streams.append((Stream(f['gate'] or [True]), Stream(f['repeat'] or [None]),
                        Stream(f['counts'])))
    schema = Schema(*fields)
    uses = Counter()
    work = [0]

    def refill():
        for p in pools_:
            p.refill()
        for ss in streams:
            for s in ss:
                s.reset()
    refill()

    def atoms(how, value):
        """The pool's values in one emitted value."""
        if how == 'plain':
            return [value]
        if how in ('one', 'many', 'oneone'):
            req(type(value) is tuple and value[0] == 'p', 'got %r', value)
            return [value[1]]
        if how == 'word':
            parts = value.replace('w', '|w').split('|')[1:]
        else:
            parts = value.split('|') if value else []
        return parts

    def expect(i):
        """Asks field i in the model: (shape, how many of its pool are needed)."""
        gate, repeat, counts = streams[i]
        if not gate.one():
            return False, 0, []
        n = repeat.one()
        k = 1 if n is None else n
        if fspecs[i]['how'] in ('word', 'text', 'onetext'):
            sizes = counts.many(k)
            return n, sum(sizes), sizes
        return n, k, [1] * k

    def enough(i, n, need):
        f = fspecs[i]
        p = pools_[f['pool']]
        if p.spec['mode'] == 'norep':
            return need <= p.remaining()
        if f['how'] in ('text', 'onetext'):
            return True             # texts never starve on such a list
        return need <= p.spec['n'] or need == 1

    def verify(i, got, n, sizes, what):
        f = fspecs[i]
        p = pools_[f['pool']]
        if n is False:
            eq(got, None, what)
            return
        vals = [got] if n is None else got
        req(isinstance(vals, list) and len(vals) == len(sizes), '%s: field %d is %r', what, i,
            got)
        taken = Counter()
        total = 0
        for v, k in zip(vals, sizes):
            parts = atoms(f['how'], v)
            if p.spec['lists']:
                parts = [x[0] for x in parts]
            req(len(parts) == k, '%s: field %d holds %r, expected %d parts', what, i, v, k)
            taken.update(parts)
            total += k
        avail = Counter(p.left)
        if p.spec['mode'] == 'roac':
            # texts take their words in rounds, which are shorter with duplicates
            rounds = max(1, -(-total // len(p.left)))
            avail = Counter({x: c * rounds for x, c in avail.items()})
        over = taken - avail
        req(not over, '%s: field %d holds %.600r, of which %.600r cannot come up (again): '
            'left are %r', what, i, got, sorted(over), Left(p))
        if p.spec['mode'] == 'norep':
            p.left = p.left - taken
        uses[f['pool']] += bool(total)
        work[0] += total + (p.spec['n'] if p.spec['n'] > 14 else 0)

    def document(what):
        """One document; True if all its fields could be filled."""
        fits = True
        plan = []
        left = {id(p): p.remaining() for p in pools_}
        for i in range(len(fields)):
            n, need, sizes = expect(i)
            plan.append((i, n, need, sizes))
            p = pools_[fspecs[i]['pool']]
            if p.spec['mode'] == 'norep':
                if need > left[id(p)]:
                    fits = False
                    break
                left[id(p)] -= need
            elif not enough(i, n, need):
                fits = False
                break
        try:
            doc = schema()
        except ValueError as e:
            req(not fits, '%s: refused (%s) although there are values left: %r', what, e,
                Left(*pools_))
            obs.tag('ran out')
            for i, n, need, sizes in plan[:-1]:
                verify(i, fields[i].previous, n, sizes, what)
            return False
        req(fits, '%s: got %.600r although only %r are left', what, doc, Left(*pools_))
        for i, n, need, sizes in plan:
            got = fields[i].previous
            if not fields[i].hide:
                req(repr(doc['f%d' % i]) == repr(got), '%s: field %d', what, i)
            verify(i, got, n, sizes, what)
        return True

    def remaining(what):
        for k, p in enumerate(pools_):
            eq(p.em.num_unique_items, p.remaining(), '%s: items left in pool %d' % (what, k))
            eq(p.em.num_unique_values, len(+p.left), '%s: values left in pool %d' % (what, k))

    def restart():
        schema.reset_fields()
        used = {f['pool'] for f in fspecs}
        for k, p in enumerate(pools_):
            if k not in used:
                p.em.reset()
        refill()
    remaining('at first')
    for k, op in enumerate(ops):
        forms.stir('Field Schema Choice Word Text WrapOne')
        what = 'op %d %r' % (k, op)
        if work[0] > 120000:
            obs.tag('cut short')
            break
        if op[0] == 'doc':
            ok = document(what)
        elif op[0] == 'until':
            ok = True
            for _ in range(40 if pspecs[0]['n'] <= 14 else 3000):
                ok = document(what)
                if not ok or work[0] > 120000 + 4000000 * (
                        pspecs[0]['mode'] == 'norep'):
                    break
        elif op[0] == 'call':
            i = op[1]
            n, need, sizes = expect(i)
            ok = enough(i, n, need)
            try:
                got = fields[i]()
            except ValueError:
                req(not ok, '%s: refused', what)
            else:
                req(ok, '%s: got %r', what, got)
                verify(i, got, n, sizes, what)
        else:
            ok = True
            if op[0] == 'seed':
                schema.seed_fields(op[1])
                for i in {f['pool'] for f in fspecs}:
                    pools_[i].refill()
                obs.tag('seeded')
            else:
                restart()
                obs.tag('reset')
        remaining(what)
        if not ok:
            # what the refused document left of its other parts is not specified;
            # the pools have lost what was emitted, and nothing else (seen above)
            restart()
            remaining(what + ', reset')
    obs.interesting(any(c > 1 for c in uses.values()))
    for f in fspecs:
        obs.tag(f['how'], pspecs[f['pool']]['mode'])
    if len({f['pool'] for f in fspecs}) < len(fspecs):
        obs.tag('shared pool')


SUBS = [Sub('pools', cases, check, 5000), Sub('big', big_cases, check, 160, 2560)]
