import copy

from hypothesis import strategies as st

from .. import bigdocs, dress, forms, gen
from ..core import Sub, Violation, eq, raises, req
from ..rec import Feed, Stream, make_source

PROP = 'C23'
RULE = ('Random source fields (single, list-valued, emitting lists, tuples, None, empty '
        'lists, gated) and histories of field calls, emissions, resets, source resets, new '
        'separators and new sources, compared with a model of the fields\' last values. '
        'Non-trivial: at least one emission with a source that has a value.')

values = st.lists(st.one_of(
    st.integers(0, 9), st.text('ab', max_size=2), st.none(), st.none(),
    st.lists(st.integers(0, 3), max_size=3), st.just((1, 'x')), st.just(()),
    st.just([[1], 2]), st.just({'k': 1}), st.sampled_from([0, '', False, 1.5]),
    gen.strange),
    min_size=1, max_size=5)
repeats = st.one_of(st.none(), st.none(),
                    st.lists(st.integers(0, 3), min_size=1, max_size=3))
seps = st.one_of(st.none(), st.none(), st.sampled_from(['', ' ', ', ', '; ', '-']))


@st.composite
def field_specs(draw):
    return {'values': draw(values), 'repeat': draw(repeats),
            'own': draw(st.sampled_from([None] * 5 + ['previous', 'values', 'plain'])),
            'gate': draw(st.one_of(st.none(), st.none(), st.lists(
                st.booleans(), min_size=1, max_size=3)))}


@st.composite
def cases(draw):
    fields = draw(st.lists(field_specs(), min_size=1, max_size=4))
    n = len(fields)
    src = st.one_of(st.tuples(st.just('alone'), st.integers(0, n - 1)),
                    st.tuples(st.just('list'), st.lists(st.integers(0, n - 1),
                                                        min_size=0, max_size=4)),
                    st.tuples(st.sampled_from(['tuple', 'row', 'group', 'sources']), st.lists(st.integers(0, n - 1),
                                                         min_size=1, max_size=4)))
    ops = [('all',)] if draw(st.integers(0, 4)) else []
    for _ in range(draw(st.integers(1, 14))):
        kind = draw(st.sampled_from(['field', 'field', 'all', 'all', 'emit', 'emit', 'emit',
                                     'emit', 'many', 'reset', 'reset_source', 'sep',
                                     'src', 'grow', 'more', 'fewer', 'other']))
        if kind in ('field', 'grow'):
            ops.append((kind, draw(st.integers(0, n - 1))))
            if kind == 'grow':
                ops.append(('emit',))
        elif kind == 'many':
            ops.append((kind, draw(st.integers(0, 3))))
        elif kind in ('more', 'fewer', 'other'):
            ops.append((kind, draw(st.integers(0, 9)), draw(st.integers(0, n - 1))))
            ops.append(('emit',))
        elif kind == 'sep':
            ops.append((kind, draw(seps)))
        elif kind == 'src':
            ops.append((kind, draw(src)))
        else:
            ops.append((kind,))
    if draw(st.integers(0, 3)):
        ops += [('all',), ('emit',)]
    return fields, draw(src), draw(seps), ops, draw(st.booleans())


def shown(value):
    """What a field that presents its last value differently makes of it."""
    if value is None:
        return None
    if isinstance(value, (list, tuple)):
        return ['<%s>' % (v,) for v in value]
    return '<%s>' % (value,)


class FieldModel:
    def __init__(self, spec):
        self.own = spec['own']
        self.data = Stream(spec['values'])
        self.repeat = Stream(spec['repeat'] or [None])
        self.gate = Stream(spec['gate'] or [True])
        self.multi = spec['repeat'] is not None
        self.last = None

    def call(self):
        self.last = None
        if self.gate.one():
            n = self.repeat.one()
            self.last = self.data.one() if n is None else self.data.many(n)
        if self.own == 'values':
            self.last = shown(self.last)

    @property
    def previous(self):
        return shown(self.last) if self.own == 'previous' else self.last

    def reset(self):
        for s in (self.data, self.repeat, self.gate):
            s.reset()
        self.last = None


_OWN = {}


def field_class(base, own):
    """Field, or what a user derived from it."""
    if own is None:
        return base
    if (base, own) not in _OWN:
        class Presented(base):
            """Presents its last value differently."""

            @property
            def previous(self):
                return shown(super().previous)

            def __call__(self):
                super().__call__()
                return self.previous

        class Plain(base):
            """Follows the protocol, with a method, and is false when it has no value."""

            def __bool__(self):
                return False

        class Kept(base):
            """Changes the values, and keeps the last one itself."""
            kept = None

            def __call__(self):
                self.kept = shown(super().__call__())
                return self.kept

            def reset(self):
                super().reset()
                self.kept = None

            @property
            def previous(self):
                return self.kept
        for k, c in (('previous', Presented), ('values', Kept), ('plain', Plain)):
            _OWN[base, k] = c
    return _OWN[base, own]


def build_field(name, spec):
    from fauxdoc.emitters import Sequential
    from fauxdoc.profile import Field
    return field_class(Field, spec['own'])(name, Feed(spec['values']),
                 repeat=None if spec['repeat'] is None else Sequential(spec['repeat']),
                 gate=None if spec['gate'] is None else Sequential(spec['gate']))


def same(got, want, what):
    req(repr(got) == repr(want), '%s: got %.400r, expected %.400r', what, got, want)


def check(case, obs):
    from fauxdoc.emitters import CopyFields
    from fauxdoc.emitters.fromfields import SourceFieldGroup
    from fauxdoc.group import ObjectGroup
    fspecs, src, sep, ops, direct = case
    fspecs = copy.deepcopy(fspecs)
    fields = [build_field('f%d' % i, s) for i, s in enumerate(fspecs)]
    models = [FieldModel(s) for s in fspecs]

    def real_source(s):
        if s[0] == 'alone':
            return fields[s[1]]
        seq = [fields[i] for i in s[1]]
        return {'tuple': tuple, 'list': list, 'row': dress.Row, 'sources': SourceFieldGroup,
                'group': lambda seq: ObjectGroup(*seq)}[s[0]](seq)

    def indices(s):
        return [s[1]] if s[0] == 'alone' else s[1]
    em = forms.make(CopyFields, source=real_source(src), separator=sep)
    now = list(indices(src))    # the source fields, as they are edited in place

    def expected():
        idx = now
        if src[0] == 'alone' and len(now) == 1 and not models[now[0]].multi:
            return models[now[0]].previous, 'as is'
        vals = []
        for i in idx:
            p = models[i].previous
            if p is None:
                continue
            vals.extend(p if isinstance(p, (list, tuple)) else [p])
        if sep is not None:
            return (sep.join(str(v) for v in vals), 'joined') if vals else (None, 'nothing')
        return (vals or None), 'list'

    def verify(got, what):
        want, how = expected()
        if how == 'nothing':
            # nothing to join: no text, in whatever form
            req(got is None or got == '', '%s: got %r for sources without values',
                what, got)
        else:
            same(got, want, what)
        obs.tag(how if want is not None else how + ', none')
        if want is not None:
            obs.interesting()
        if how == 'list' and got is not None:
            for f in fields:
                req(got is not f.previous, '%s: not a new list', what)
            got.append('edited')        # must not reach any field
    for i, op in enumerate(ops):
        what = 'op %d %r' % (i, op)
        if op[0] == 'field':
            fields[op[1]]()
            models[op[1]].call()
        elif op[0] == 'grow':
            # the lists it emits (and has emitted) are edited in place
            for v in fspecs[op[1]]['values']:
                if isinstance(v, list):
                    v.append('more')
                    obs.tag('edited in place')
        elif op[0] == 'all':
            for f, m in zip(fields, models):
                f()
                m.call()
        elif op[0] == 'emit':
            verify(forms.ask(em), what)
        elif op[0] == 'many':
            got = forms.ask(em, op[1])
            req(type(got) is list and len(got) == op[1], '%s: got %r', what, got)
            want, how = expected()
            for g in got:
                if how != 'nothing':
                    same(g, want, what)
        elif op[0] == 'reset':
            em.reset()
            obs.tag('reset')
        elif op[0] == 'reset_source':
            em.reset_source()
            for k in set(now):
                models[k].reset()
            obs.tag('reset_source')
        elif op[0] == 'more':
            at = op[1] % (len(now) + 1)
            em.source.insert(at, fields[op[2]])
            now.insert(at, op[2])
            obs.tag('source group edited')
        elif op[0] == 'fewer' and now:
            del em.source[op[1] % len(now)]
            del now[op[1] % len(now)]
            obs.tag('source group edited')
        elif op[0] == 'other' and now:
            em.source[op[1] % len(now)] = fields[op[2]]
            now[op[1] % len(now)] = op[2]
            obs.tag('source group edited')
        elif op[0] == 'sep':
            em.separator = sep = op[1]
        elif op[0] == 'src':
            src = op[1]
            now = list(indices(src))
            if direct:
                em.source = SourceFieldGroup(real_source(src))
            else:
                em.set_source_fields(real_source(src))
            obs.tag('new sources')
        for f, m in zip(fields, models):
            same(f.previous, m.previous, '%s: previous of %s' % (what, f.name))
        eq(em.single_valued, src[0] == 'alone' and len(now) == 1
           and not models[now[0]].multi, what + ': single_valued')
    # no field was called more often than by us
    for f, m in zip(fields, models):
        m.call()
        same(f(), m.previous, 'next value of %s' % f.name)


@st.composite
def schema_cases(draw):
    fields = draw(st.lists(field_specs(), min_size=1, max_size=3))
    return fields, draw(st.booleans()), draw(seps), draw(st.booleans()), \
        draw(st.integers(1, 5))


def check_schema(case, obs):
    """Copies inside a schema follow the other fields document by document."""
    from fauxdoc.emitters import CopyFields
    from fauxdoc.profile import Field, Schema
    fspecs, alone, sep, hide, docs = case
    fields = [build_field('f%d' % i, s) for i, s in enumerate(fspecs)]
    models = [FieldModel(s) for s in fspecs]
    for f in fields:
        f.hide = hide
    alone = alone and len(fields) == 1
    em = CopyFields(fields[0] if alone else fields, sep)
    schema = Schema(*fields, Field('copy', em))
    for d in range(docs):
        doc = schema()
        vals = []
        for m in models:
            m.call()
            p = m.previous
            if p is not None:
                vals.extend(p if isinstance(p, (list, tuple)) else [p])
        if alone and not models[0].multi:
            want = models[0].previous
        elif sep is not None:
            if not vals:
                continue
            want = sep.join(map(str, vals))
        else:
            want = vals or None
        same(doc['copy'], want, 'document %d' % d)
        obs.interesting(want is not None)


SUBS = [
    Sub('history', cases, check, 4500),
    Sub('schema', schema_cases, check_schema, 900),
    Sub('big', bigdocs.source_cases, bigdocs.check_copy, 300, 4800),
]
