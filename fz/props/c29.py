from hypothesis import strategies as st

from .. import forms, gen
from ..core import Sub, eq, raises, req
from ..rec import Feed, Stream, make_source

PROP = 'C29'
RULE = ('Random schemas whose later fields are built on earlier ones (copies, joined '
        'copies, actions, wrappers of these, chains of all of them; hidden, gated and '
        'repeated ones; any field names), random histories of documents, resets, seedings, '
        'failures, hiding, fields called on their own, new separators, sources and fields; '
        'in every document each such field is recomputed from the values of its sources in '
        'that very document. Non-trivial: at least two documents in which a derived field '
        'had a source value.')

NAMES = ['f0', 'title', 'author', 'class', 'a-b', 'x y', '\u00e9', 'args', 'kwargs', 'value',
         'field', 'number', 'source', 'f', '1', 'None', 'items', 'hide']

data = st.lists(st.one_of(
    st.integers(0, 9), st.text('abc', max_size=3), st.none(), st.sampled_from([0, '', False]),
    st.lists(st.integers(0, 3), max_size=4), st.just((1, 'x')), st.just({'k': 1}), gen.strange),
    min_size=1, max_size=5)
gates = st.one_of(st.none(), st.none(), st.lists(st.booleans(), min_size=1, max_size=3))
repeats = st.one_of(st.none(), st.none(), st.none(),
                    st.lists(st.integers(0, 4), min_size=1, max_size=3))
seps = st.one_of(st.none(), st.sampled_from(['', ' ', '; ', '-']))


def _first(v):
    return v[:3] if isinstance(v, (list, tuple, str)) else v


FNS = {'pair': lambda v: ('p', v), 'same': lambda v: v, 'first': _first,
       'text': lambda v: str(v),
       'count': lambda v: len(v) if isinstance(v, (list, tuple, str, dict)) else -1}
RFNS = {'rpair': lambda v, rng: ('p', v, type(rng).__name__)}


def _items(**kw):
    return ('m', list(kw.items()))


def _ritems(rng, **kw):
    return ('r', list(kw.items()), type(rng).__name__)


@st.composite
def rules(draw, n, depth=1):
    kind = draw(st.sampled_from(['copy', 'copy', 'based', 'based'] +
                                (['one', 'many'] if depth else [])))
    if kind in ('copy', 'based'):
        idx = draw(st.one_of(st.lists(st.integers(0, n - 1), min_size=1, max_size=1),
                             st.lists(st.integers(0, n - 1), min_size=1, max_size=3,
                                      unique=True)))
        alone = len(idx) == 1 and draw(st.booleans())
        if kind == 'copy':
            return (kind, idx, alone, draw(seps))
        return (kind, idx, alone, draw(st.sampled_from(sorted(FNS) + sorted(RFNS)))
                if len(idx) == 1 else draw(st.sampled_from(['items', 'ritems'])))
    if kind == 'one':
        return (kind, draw(rules(n, depth - 1)), draw(st.sampled_from(sorted(FNS))))
    return (kind, [(k, draw(rules(n, depth - 1)))
                   for k in draw(st.sampled_from([['a'], ['b', 'a'], ['x', 'y', 'z']]))])


@st.composite
def field_specs(draw, n, derived):
    spec = {'gate': draw(gates), 'repeat': draw(repeats), 'hide': draw(st.integers(0, 2)) == 0,
            'kind': draw(st.sampled_from(['feed', 'seq', 'iter', 'stub']))}
    spec['rule' if derived else 'data'] = draw(rules(n)) if derived else draw(data)
    return spec


@st.composite
def cases(draw):
    nplain = draw(st.integers(1, 3))
    fields = [draw(field_specs(0, False)) for _ in range(nplain)]
    for _ in range(draw(st.integers(1, 4))):
        fields.append(draw(field_specs(len(fields), True)))
    names = list(draw(st.permutations(NAMES)))
    n = len(fields)
    ops = []
    for _ in range(draw(st.integers(2, 14))):
        kind = draw(st.sampled_from(['doc'] * 8 + [
            'reset', 'seed', 'hide', 'call', 'sep', 'sources', 'add', 'fail',
            'reset_source', 'column']))
        if kind == 'seed':
            ops.append((kind, draw(st.integers(0, 9))))
        elif kind == 'hide':
            ops.append((kind, draw(st.integers(0, n - 1)), draw(st.booleans())))
        elif kind == 'sep':
            ops.append((kind, draw(st.integers(0, n - 1)), draw(seps)))
        elif kind in ('call', 'reset_source', 'fail', 'column'):
            ops.append((kind, draw(st.integers(0, n - 1))))
        elif kind == 'sources':
            # a derived field gets one other source, from before itself
            i = draw(st.integers(nplain, n - 1))
            ops.append((kind, i, draw(st.integers(0, i - 1)), draw(st.booleans())))
        elif kind == 'add':
            ops.append((kind, draw(field_specs(n, True))))
        else:
            ops.append((kind,))
    return fields, names, ops + [('doc',)]


@st.composite
def big_cases(draw):
    """Dozens of fields, long values, hundreds of documents."""
    nplain = draw(st.one_of(st.integers(1, 6), st.integers(7, 60)))
    nder = draw(st.one_of(st.integers(1, 6), st.integers(7, 60)))
    kinds = [draw(field_specs(0, False)) for _ in range(min(nplain, 4))]
    long_ = draw(st.sampled_from([0, 0, 65, 130, 1025]))
    docs = draw(st.sampled_from([1, 2, 12, 70, 150]))
    if docs * (nplain + nder) > 1000:
        docs = 2
    if long_ and docs * (nplain + nder) > 100:
        long_ = 65 if docs * (nplain + nder) < 500 else 0
    fields = []
    for i in range(nplain):
        spec = dict(kinds[i % len(kinds)])
        spec['data'] = [(i, v) if v is not None else v for v in spec['data']]
        if long_ and i % 3 == 0:
            spec['data'][0] = ['%d.%d' % (i, k) for k in range(long_)]
            spec['repeat'] = None
        elif long_ and i % 3 == 1:
            spec['repeat'] = [long_, 2]
        fields.append(spec)
    sep = draw(seps)
    pats = draw(st.lists(st.sampled_from([
        'last', 'all', 'half', 'two', 'based last', 'based all', 'based two', 'one', 'many']),
        min_size=1, max_size=4))
    for k in range(nder):
        i = nplain + k
        pat = pats[k % len(pats)]
        spec = draw(field_specs(0, False)) if k < 3 else dict(fields[nplain + k % 3])
        del spec['data' if 'data' in spec else 'rule']
        spec['repeat'] = [long_ // 3] if long_ and k == 1 else None
        plain = list(range(nplain))
        spec['rule'] = {
            'last': ('copy', [i - 1], True, sep), 'all': ('copy', plain, False, sep),
            'half': ('copy', plain[::2], False, None),
            'two': ('copy', [k % nplain, i - 1] if k % nplain < i - 1 else [i - 1], False,
                    sep),
            'based last': ('based', [i - 1], True, 'count'),
            'based all': ('based', plain, False, 'items' if nplain > 1 else 'count'),
            'based two': ('based', [k % nplain, i - 1], False, 'ritems')
            if k % nplain < i - 1 else ('based', [i - 1], False, 'first'),
            'one': ('one', ('copy', plain[:3], False, sep), 'pair'),
            'many': ('many', [('k%d' % j, ('copy', [j], True, None)) for j in plain]),
        }[pat]
        fields.append(spec)
    # nested values stay short: every third one counts
    for k in range(2, nder, 3):
        fields[nplain + k]['rule'] = ('based', [nplain + k - 1], True, 'count')
    n = len(fields)
    ops = draw(st.lists(st.one_of(
        st.just(('doc',)), st.just(('reset',)), st.just(('seed', 3)),
        st.tuples(st.just('hide'), st.integers(0, n - 1), st.booleans()),
        st.tuples(st.sampled_from(['call', 'fail', 'reset_source', 'column']),
                  st.integers(0, n - 1))), max_size=4))
    return fields, ['n%d' % i for i in range(n + 2)], [('doc',)] * docs + ops + [('doc',)]


class StubField:
    """A user-written field: any object with the documented interface."""

    def __init__(self, name, values, hide):
        self.name, self.hide = name, hide
        self.values, self.pos = values, 0
        self.multi_valued = False
        self.previous = None
        self.fail = None

    def __call__(self):
        if self.fail is not None:
            raise self.fail
        self.previous = self.values[self.pos % len(self.values)]
        self.pos += 1
        return self.previous

    def reset(self):
        self.pos, self.previous = 0, None


class Fused:
    """An emitter that raises when told to."""
    num_unique_values = None
    emits_unique_values = False

    def __init__(self, inner):
        self.inner, self.fail = inner, None

    def __call__(self, number=None):
        if self.fail is not None:
            raise self.fail
        return self.inner() if number is None else self.inner(number)

    def reset(self):
        self.inner.reset()


class World:
    def __init__(self, names):
        self.names = names
        self.specs, self.fields, self.gates, self.repeats = [], [], [], []
        self.ems, self.fuses = [], []       # emitters with their rules; what can fail
        self.multi = []

    def emitter(self, rule):
        """Builds the emitter of a rule."""
        from fauxdoc import emitters as E
        kind = rule[0]
        if kind in ('copy', 'based'):
            src = [self.fields[j] for j in rule[1]]
            src = src[0] if rule[2] else src
            if kind == 'copy':
                return E.CopyFields(src, rule[3])
            fn = {'items': _items, 'ritems': _ritems}.get(rule[3]) or FNS.get(
                rule[3]) or RFNS[rule[3]]
            return E.BasedOnFields(src, fn, rng_seed=5)
        if kind == 'one':
            return E.WrapOne(self.emitter(rule[1]), FNS[rule[2]], rng_seed=5)
        return E.WrapMany({k: self.emitter(r) for k, r in rule[1]}, _items, rng_seed=5)

    def add(self, spec):
        from fauxdoc.profile import Field
        i = len(self.fields)
        name = self.names[i]
        spec = dict(spec)
        stub = spec['kind'] == 'stub' and 'data' in spec
        if stub:
            spec['gate'] = spec['repeat'] = None
            f = StubField(name, spec['data'], spec['hide'])
            em = fuse = f
        else:
            if 'data' in spec:
                em = fuse = Fused(make_source('feed' if spec['kind'] == 'stub' else
                                              spec['kind'], spec['data']))
            else:
                em = self.emitter(spec['rule'])
                fuse = None
            f = Field(name, em,
                      repeat=None if spec['repeat'] is None else
                      make_source('seq', spec['repeat']),
                      gate=None if spec['gate'] is None else make_source('feed', spec['gate']),
                      hide=spec['hide'], rng_seed=1)
        self.specs.append(spec)
        self.fields.append(f)
        self.ems.append(em)
        self.fuses.append(fuse)
        self.gates.append(Stream(spec['gate'] or [True]))
        self.repeats.append(Stream(spec['repeat'] or [None]))
        self.multi.append(spec['repeat'] is not None)
        return f

    def value(self, rule, vals):
        """(value of a derived emitter, whether any source has a value)"""
        kind = rule[0]
        if kind == 'copy':
            _, idx, alone, sep = rule
            some = any(vals[j] is not None for j in idx)
            if alone and not self.multi[idx[0]]:
                return vals[idx[0]], some
            out = []
            for j in idx:
                v = vals[j]
                if v is not None:
                    out.extend(v if isinstance(v, (list, tuple)) else [v])
            if sep is None:
                return out or None, some
            return sep.join(map(str, out)), some
        if kind == 'based':
            _, idx, _, fn = rule
            some = any(vals[j] is not None for j in idx)
            if len(idx) == 1:
                v = vals[idx[0]]
                return ('p', v, 'Random') if fn == 'rpair' else FNS[fn](v), some
            kw = [(self.names[j], vals[j]) for j in idx]
            return (('m', kw) if fn == 'items' else ('r', kw, 'Random')), some
        if kind == 'one':
            v, some = self.value(rule[1], vals)
            return FNS[rule[2]](v), some
        parts = [(k,) + self.value(r, vals) for k, r in rule[1]]
        return ('m', [(k, v) for k, v, _ in parts]), any(s for _, _, s in parts)

    def joins_nothing(self, rule, vals):
        """Whether an empty joined copy (None or '' alike) is involved."""
        kind = rule[0]
        if kind == 'copy':
            return rule[3] is not None and not (rule[2] and not self.multi[rule[1][0]]) and \
                not any(v is not None and v != [] and v != () for v in
                        (vals[j] for j in rule[1]))
        if kind == 'one':
            return self.joins_nothing(rule[1], vals)
        return kind == 'many' and any(self.joins_nothing(r, vals) for _, r in rule[1])

    def asked(self, i):
        """How often field i is asked this time: False (gated), None or a number."""
        if not self.gates[i].one():
            return False
        return self.repeats[i].one()

    def reset_field(self, i):
        self.gates[i].reset()
        self.repeats[i].reset()

    def sources_of(self, rule):
        if rule[0] in ('copy', 'based'):
            return rule[1]
        return []


def replaced(spec, rule):
    return dict(spec, rule=rule)


def check(case, obs):
    from fauxdoc.profile import Schema
    fspecs, names, ops = case
    w = World(names)
    for s in fspecs:
        w.add(s)
    schema = Schema(*w.fields)
    full = 0

    def verify(i, got, n, what):
        """Field i's value against those its sources have now."""
        f, spec = w.fields[i], w.specs[i]
        req(f.previous is got or repr(f.previous) == repr(got),
            '%s: previous of %r is %r, its value %r', what, f.name, f.previous, got)
        if n is False:
            eq(got, None, '%s: gated %r' % (what, f.name))
            return 0
        if 'rule' not in spec:
            return 0
        vals = [g.previous for g in w.fields]
        want, some = w.value(spec['rule'], vals)
        if w.joins_nothing(spec['rule'], vals):
            obs.tag('joined nothing')
            return 0
        want = want if n is None else [want] * n
        req(repr(got) == repr(want), '%s: field %r (%r) is %.300r, but its sources say '
            '%.300r', what, f.name, spec['rule'], got, want)
        obs.tag(spec['rule'][0])
        if n is not None:
            obs.tag('repeated')
        return 1 if some else 0
    for k, op in enumerate(ops):
        forms.stir('Field Schema CopyFields BasedOnFields WrapOne')
        what = 'op %d %r' % (k, op)
        if op[0] == 'doc':
            doc = schema()
            filled = 0
            eq(list(doc), [f.name for f in w.fields if not f.hide], what + ': names')
            for i, f in enumerate(w.fields):
                n = w.asked(i)
                got = f.previous if f.hide else doc[f.name]
                filled += verify(i, got, n, what)
            full += 1 if filled else 0
        elif op[0] in ('call', 'column'):
            i = op[1]
            for _ in range(1 if op[0] == 'call' else 3):
                got = w.fields[i]()
                verify(i, got, w.asked(i), what)
            obs.tag('field called alone')
        elif op[0] == 'reset':
            schema.reset_fields()
            for i in range(len(w.fields)):
                w.reset_field(i)
                eq(w.fields[i].previous, None, what + ': previous')
        elif op[0] == 'seed':
            schema.seed_fields(op[1])
        elif op[0] == 'hide':
            w.fields[op[1]].hide = op[2]
        elif op[0] == 'sep':
            i = op[1]
            rule = w.specs[i].get('rule')
            if not rule or rule[0] != 'copy':
                continue
            w.ems[i].separator = op[2]
            w.specs[i] = replaced(w.specs[i], rule[:3] + (op[2],))
            obs.tag('new separator')
        elif op[0] == 'sources':
            _, i, j, alone = op
            rule = w.specs[i]['rule']
            if rule[0] not in ('copy', 'based') or rule[0] == 'based' and len(rule[1]) > 1:
                continue
            w.ems[i].set_source_fields(w.fields[j] if alone else [w.fields[j]])
            w.specs[i] = replaced(w.specs[i], (rule[0], [j], alone, rule[3]))
            obs.tag('new sources')
        elif op[0] == 'reset_source':
            rule = w.specs[op[1]].get('rule')
            if not rule or rule[0] not in ('copy', 'based'):
                continue
            w.ems[op[1]].reset_source()
            for j in rule[1]:
                w.reset_field(j)
                eq(w.fields[j].previous, None, what + ': previous')
            obs.tag('reset_source')
        elif op[0] == 'add':
            if len(w.fields) < len(w.names) - 1:
                schema.add_fields(w.add(op[1]))
                obs.tag('added')
        elif op[0] == 'fail':
            fuse = w.fuses[op[1]]
            if fuse is None:
                continue
            error = fuse.fail = LookupError('told to fail')
            done = False
            hit = None
            try:
                schema()
                done = True
            except LookupError as e:
                hit = e
            fuse.fail = None
            # the fields before it were asked, those behind it were not
            for i in range(len(w.fields)):
                n = w.asked(i)
                if i == op[1] and n is not False:
                    break
            req(done == (n is False if i == op[1] else True), '%s: the field\'s error was '
                'lost', what)
            req(done or hit is error, '%s: raised %r', what, hit)
            obs.tag('error in a document')
    obs.interesting(full > 1)


SUBS = [Sub('documents', cases, check, 5000), Sub('big', big_cases, check, 90, 1440)]
