from collections import OrderedDict

from hypothesis import strategies as st

from .. import bigdocs, forms, gen
from ..core import Sub, Violation, eq, raises, req
from ..rec import Feed, Stream, make_source

PROP = 'C22'
RULE = ('Random schemas of real fields and user-written field-like objects, random '
        'histories of documents, adding, replacing, removing, setting, hiding, reseeding '
        'and resetting fields, edits of returned documents and of public_fields/'
        'hidden_fields, compared with an ordered-dict model. Non-trivial: at least two '
        'documents and at least two fields at some time.')

NAMES = ['id', 'title', 'author', 'x', '', 'two words', 'reset', 'Data', 'data']


class StubField:
    """A user-written field: follows typing.FieldLike and logs its use."""
    multi_valued = False

    def __init__(self, name, values, hide, log, seedable):
        self.name, self.hide, self.log = name, hide, log
        self.stream = Stream(values)
        self.previous = None
        self.fail = None
        if seedable:
            self.seed = lambda s: self.log.append((self, 'seed', s))

    def __call__(self):
        self.log.append((self, 'call'))
        if self.fail is not None:
            raise self.fail
        self.previous = self.stream.one()
        return self.previous

    def reset(self):
        self.log.append((self, 'reset'))
        self.stream.reset()
        self.previous = None


_OWN = {}
OWN = ['changing', 'same name', 'equal', 'unequal', 'false']


def own_class(base, kind):
    """What a user derived from Field or wrote instead."""
    if (base, kind) not in _OWN:
        class Changing(base):
            """Changes every value."""
            kept = None

            def __call__(self):
                self.kept = ['changed', super().__call__()]
                return self.kept

        class SameName(base):
            """Equal to all fields of its name."""

            def __eq__(self, other):
                return self.name == getattr(other, 'name', None)

            def __hash__(self):
                return hash(self.name)

        class Equal(base):
            def __eq__(self, other):
                return True

            __hash__ = None

        class Unequal(base):
            def __eq__(self, other):
                return False

            __hash__ = None

        class False_(base):
            def __bool__(self):
                return False
        for k, c in zip(OWN, (Changing, SameName, Equal, Unequal, False_)):
            _OWN[base, k] = c
    return _OWN[base, kind]


# anything true hides a field
hides = st.one_of(st.sampled_from([False, False, True]),
                  st.sampled_from([False, True, 0, 1, 2, None, '', 'yes', 0.5, [], [0]]))


@st.composite
def field_specs(draw, names=NAMES):
    return {'name': draw(st.sampled_from(names)),
            'values': draw(st.lists(st.one_of(st.integers(0, 99), st.none(),
                                              st.sampled_from(['', 'v', [1], 0]), gen.strange),
                                    min_size=1, max_size=4)),
            'hide': draw(hides),
            'kind': draw(st.sampled_from(['field', 'field', 'field', 'stub', 'stub', 'noseed',
                                          'noseed'] + OWN))}


ERRORS = [KeyError, ValueError, TypeError, AttributeError, IndexError, RuntimeError,
          StopIteration, ZeroDivisionError, OverflowError, NotImplementedError,
          RecursionError, KeyboardInterrupt, GeneratorExit, Exception, BaseException]
KINDS = (['doc'] * 8 + ['add'] * 2 + ['set', 'assign', 'del', 'pop', 'map', 'reset', 'seed',
         'fail', 'edit', 'some', 'some'] + ['hide'] * 3)


@st.composite
def op_specs(draw):
    kind = draw(st.sampled_from(KINDS))
    if kind in ('add', 'set', 'map'):
        return kind, draw(st.lists(field_specs(), max_size=3))
    if kind == 'assign':
        return kind, draw(field_specs())
    if kind == 'fail':
        return kind, draw(st.sampled_from(NAMES)), draw(st.sampled_from(ERRORS))
    if kind in ('del', 'pop'):
        return kind, draw(st.sampled_from(NAMES))
    if kind == 'some':
        return kind, draw(st.sampled_from(['reset', 'seed', 'hide', 'show'])), draw(
            st.booleans())
    if kind == 'hide':
        return kind, draw(st.sampled_from(NAMES)), draw(hides)
    if kind == 'seed':
        return kind, draw(st.integers(0, 5))
    if kind == 'edit':
        return kind, draw(st.sampled_from(['doc', 'public', 'hidden', 'publicclear',
                                           'docclear']))
    return (kind,)


@st.composite
def cases(draw):
    n = draw(st.sampled_from([0, 1, 2, 3, 3, 4, 5, 6]))
    names = list(draw(st.permutations(NAMES)))[:n]
    if n and draw(st.integers(0, 4)) == 0:
        names[-1] = names[0]
    fields = [draw(field_specs([x])) for x in names]
    first = [('doc',)] if draw(st.integers(0, 3)) else []
    return fields, first + draw(st.lists(op_specs(), min_size=2, max_size=14))


def check(case, obs):
    from fauxdoc.group import ObjectMap
    from fauxdoc.profile import Field, Schema
    fields, ops = case
    log = []
    streams = {}        # id(field) -> Stream of the model
    keep = []
    changing = set()

    def make(spec):
        own = spec['kind'] in OWN
        if spec['kind'] == 'field' or own and len(spec['values']) % 2:
            em = Feed(spec['values'], 'feed', log)
            cls = own_class(Field, spec['kind']) if own else Field
            f = cls(spec['name'], em, hide=spec['hide'])
            em.label = f
            del log[:]
        else:
            cls = own_class(StubField, spec['kind']) if own else StubField
            f = cls(spec['name'], spec['values'], spec['hide'], log,
                    spec['kind'] != 'noseed')
        streams[id(f)] = Stream(spec['values'])
        if own:
            obs.tag('own field')
        if spec['kind'] == 'changing':
            changing.add(id(f))
        keep.append(f)
        return f
    model = OrderedDict()
    new = [make(s) for s in fields]
    schema = Schema(*new)
    model.update({f.name: f for f in new})
    docs = 0
    most = 0
    returned = []
    for i, op in enumerate(ops):
        forms.stir('Schema Field')
        what = 'op %d %r' % (i, op)
        del log[:]
        if op[0] == 'doc':
            doc = schema()
            raw = OrderedDict((n, streams[id(f)].one()) for n, f in model.items())
            vals = OrderedDict((n, ['changed', v] if id(model[n]) in changing else v)
                               for n, v in raw.items())
            want = [(n, v) for n, v in vals.items() if not model[n].hide]
            req(type(doc) is dict, '%s: a document is a %s', what, type(doc).__name__)
            req(repr(list(doc.items())) == repr(want), '%s: document %.400r, expected '
                '%.400r', what, list(doc.items()), want)
            order = [e[0] for e in log]
            req(len(order) == len(model) and all(
                a is b for a, b in zip(order, model.values())),
                '%s: fields were called in the order %r, expected %r', what,
                [getattr(f, 'name', f) for f in order], list(model))
            for n, f in model.items():
                req(repr(f.previous) == repr(raw[n]), '%s: previous of %s is %r',
                    what, n, f.previous)
            for old, text in returned:
                req(old is not doc and repr(old) == text, '%s: an earlier document '
                    'changed to %r', what, old)
            returned.append((doc, repr(doc)))
            docs += 1
            most = max(most, len(model))
            if any(f.hide for f in model.values()):
                obs.tag('hidden fields')
        elif op[0] == 'add':
            new = [make(s) for s in op[1]]
            if any(f.name in model for f in new):
                obs.tag('replaced by add_fields')
            schema.add_fields(*new)
            model.update({f.name: f for f in new})
        elif op[0] == 'set':
            new = [make(s) for s in op[1]]
            schema.set_fields(*new)
            model = OrderedDict((f.name, f) for f in new)
            obs.tag('set_fields')
        elif op[0] == 'map':
            new = [make(s) for s in op[1]]
            schema.fields = ObjectMap({f.name: f for f in new})
            model = OrderedDict((f.name, f) for f in new)
        elif op[0] == 'assign':
            f = make(op[1])
            schema.fields[f.name] = f
            model[f.name] = f
        elif op[0] in ('del', 'pop'):
            if op[1] not in model:
                continue
            if op[0] == 'del':
                del schema.fields[op[1]]
            else:
                schema.fields.pop(op[1])
            del model[op[1]]
            obs.tag('removed')
        elif op[0] == 'hide':
            if op[1] in model:
                model[op[1]].hide = op[2]
                obs.tag('hide switched')
        elif op[0] == 'reset':
            schema.reset_fields()
            for n, f in model.items():
                streams[id(f)].reset()
                eq(f.previous, None, '%s: previous of %s' % (what, n))
        elif op[0] == 'seed':
            schema.seed_fields(op[1])
            for n, f in model.items():
                if isinstance(f, Field):
                    eq(f.rng_seed, op[1], '%s: rng_seed of %s' % (what, n))
                elif hasattr(f, 'seed'):
                    eq([e for e in log if e[0] is f and e[1] == 'seed'],
                       [(f, 'seed', op[1])], '%s: seeding of %s' % (what, n))
        elif op[0] == 'some':
            # the groups of public and of hidden fields broadcast, too
            group = schema.hidden_fields if op[2] else schema.public_fields
            members = [f for f in model.values() if bool(f.hide) == op[2]]
            if op[1] == 'reset':
                group.do_method('reset')
                for f in members:
                    streams[id(f)].reset()
            elif op[1] == 'seed':
                group.do_method('seed', 7)
                for f in members:
                    if isinstance(f, Field):
                        eq(f.rng_seed, 7, '%s: rng_seed of %s' % (what, f.name))
            else:
                group.setattr('hide', op[1] == 'hide')
                for f in members:
                    req(f.hide is (op[1] == 'hide'), '%s: hide of %s', what, f.name)
            obs.tag('broadcast to some')
        elif op[0] == 'fail':
            f = model.get(op[1])
            if f is None:
                continue
            exc = op[2]('raised by field %s' % op[1])
            failing = f if isinstance(f, StubField) else f.emitter
            failing.fail = exc
            obs.tag('error in a hidden field' if f.hide else 'error in a public field')
            try:
                schema()
            except BaseException as e:
                req(e is exc, '%s: the field raised %r, the caller got %r', what, exc, e)
            else:
                raise Violation('%s: the error did not reach the caller' % what)
            failing.fail = None
            schema.reset_fields()
            for g in model.values():
                streams[id(g)].reset()
            obs.tag('error in a field')
        elif op[0] == 'edit':
            if op[1] == 'public':
                schema.public_fields['new'] = None
            elif op[1] == 'hidden':
                schema.hidden_fields['new'] = None
            elif op[1] == 'publicclear':
                schema.public_fields.clear()
            elif returned:
                doc = returned.pop()[0]
                doc['new'] = 1
                if op[1] == 'docclear':
                    doc.clear()
        pub, hid = schema.public_fields, schema.hidden_fields
        for got, flag in ((pub, False), (hid, True)):
            want = [(n, f) for n, f in model.items() if bool(f.hide) == flag]
            req([n for n, _ in got.items()] == [n for n, _ in want] and
                all(a is b for (_, a), (_, b) in zip(got.items(), want)),
                '%s: %s fields are %r, expected %r', what,
                'hidden' if flag else 'public', list(got), [n for n, _ in want])
        req(list(schema.fields) == list(model) and all(
            a is b for a, b in zip(schema.fields.values(), model.values())),
            '%s: fields are %r, expected %r', what, list(schema.fields), list(model))
    obs.interesting(docs > 1 and most > 1)


@st.composite
def shared_cases(draw):
    nf = draw(st.integers(1, 4))
    fields = [(draw(st.lists(st.integers(0, 99), min_size=1, max_size=7)), draw(hides),
               draw(st.sampled_from([None, None, None, 0, 1, 2]))) for _ in range(nf)]
    places = [draw(st.lists(st.tuples(st.integers(0, nf - 1), st.sampled_from(NAMES)),
                            max_size=6)) for _ in range(2)]
    which = st.integers(0, 1)
    return fields, places, draw(st.lists(st.one_of(
        st.tuples(st.just('doc'), which), st.tuples(st.just('doc'), which),
        st.tuples(st.just('call'), st.integers(0, nf - 1)),
        st.tuples(st.just('hide'), st.integers(0, nf - 1), hides),
        st.tuples(st.just('place'), which, st.integers(0, nf - 1), st.sampled_from(NAMES)),
        st.tuples(st.just('drop'), which, st.sampled_from(NAMES)),
        st.tuples(st.just('reset'), which), st.tuples(st.just('seed'), which)),
        min_size=2, max_size=14))


def check_shared(case, obs):
    """Fields that stand in two schemas, and in one schema under several names."""
    from fauxdoc.emitters import Sequential, Static
    from fauxdoc.group import ObjectMap
    from fauxdoc.profile import Field, Schema
    specs, places, ops = case
    fields, streams = [], []
    for i, (vals, hide, rep) in enumerate(specs):
        fields.append(Field('own%d' % i, Sequential(vals), hide=hide,
                            repeat=None if rep is None else Static(rep)))
        streams.append(Stream(vals))
    schemas = [Schema(), Schema(*fields)]
    model = [OrderedDict(), OrderedDict((f.name, i) for i, f in enumerate(fields))]
    for k, lst in enumerate(places):
        model[k].update((name, i) for i, name in lst)
        if k:
            schemas[k].fields.update((name, fields[i]) for i, name in lst)
        else:
            schemas[k].fields = ObjectMap({name: fields[i] for i, name in lst})
    last = [None] * len(fields)

    def one(i):
        rep = specs[i][2]
        last[i] = streams[i].one() if rep is None else streams[i].many(rep)
        return last[i]
    docs = 0
    for j, op in enumerate(ops):
        forms.stir('Schema Field')
        what = 'op %d %r' % (j, op)
        k = op[1]
        if op[0] == 'doc':
            want = [(n, one(i), fields[i].hide) for n, i in model[k].items()]
            doc = schemas[k]()
            eq(list(doc.items()), [(n, v) for n, v, hide in want if not hide], what)
            docs += 1
            if len(set(model[k].values())) < len(model[k]):
                obs.tag('one field under several names')
        elif op[0] == 'call':
            eq(fields[k](), one(k), what)
        elif op[0] == 'hide':
            fields[k].hide = op[2]
        elif op[0] == 'place':
            schemas[k].fields[op[3]] = fields[op[2]]
            model[k][op[3]] = op[2]
        elif op[0] == 'drop':
            schemas[k].fields.pop(op[2], None)
            model[k].pop(op[2], None)
        elif op[0] == 'reset':
            schemas[k].reset_fields()
            for i in model[k].values():
                streams[i].reset()
                last[i] = None
        else:
            schemas[k].seed_fields(j)
            eq([fields[i].rng_seed for i in model[k].values()], [j] * len(model[k]),
               what + ': seeds')
        for name, hidden in (('public_fields', False), ('hidden_fields', True)):
            for s, m in zip(schemas, model):
                eq([(n, f.name) for n, f in getattr(s, name).items()],
                   [(n, fields[i].name) for n, i in m.items()
                    if bool(fields[i].hide) == hidden], '%s: %s' % (what, name))
        eq([f.previous for f in fields], last, what + ': previous values')
    obs.interesting(docs > 1)


SUBS = [Sub('schema', cases, check, 5000),
    Sub('shared', shared_cases, check_shared, 1200),
    Sub('big', bigdocs.schema_cases, bigdocs.check_schema, 200, 3200),
]
