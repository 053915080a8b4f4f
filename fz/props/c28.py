import random

from hypothesis import strategies as st

from .. import forms
from ..core import Sub, Violation, eq, raises, req
from ..rec import Feed, Stream

PROP = 'C28'
RULE = ('Generated emitter classes (which methods exist, over how many levels and mixins, '
        'what they override) called with every kind of number, each emit/emit_many call '
        'recorded; random trees over the four mixins, plain stubs and built-ins with random '
        'emissions, resets, seedings and child replacements against a model; user-written '
        'emitters of six kinds in every position of the built-in ones, compared with '
        'Sequential in their place. Non-trivial: several calls; a reset or seeding of a '
        'node with children; an emission of several values.')

# ------------------------------------------------------------------- dispatch

BASES = ['Emitter', 'Random', 'Items', 'Children', 'RandomChildren', 'RandomItems',
         'ItemsRandomChildren']


def base_tuple(name):
    from fauxdoc import mixins as m
    from fauxdoc.emitter import Emitter
    return {'Emitter': (), 'Random': (m.RandomMixin,), 'Items': (m.ItemsMixin,),
            'Children': (m.ChildrenMixin,), 'RandomChildren': (m.RandomWithChildrenMixin,),
            'RandomItems': (m.RandomMixin, m.ItemsMixin),
            'ItemsRandomChildren': (m.ItemsMixin, m.RandomWithChildrenMixin),
            }[name] + (Emitter,)


numbers = st.one_of(st.none(), st.none(), st.integers(0, 5), st.just(1),
                    st.sampled_from([0, 1, 2, 10, 1000, -1]))


@st.composite
def dispatch_cases(draw):
    # which methods the class and its base classes define
    levels = draw(st.lists(st.sets(st.sampled_from(
        ['emit', 'emit_many', 'reset', 'num_unique_values', 'emits_unique_values'])),
        min_size=1, max_size=3))
    if draw(st.integers(0, 3)):
        levels[draw(st.integers(0, len(levels) - 1))].add('emit')
        levels[draw(st.integers(0, len(levels) - 1))].add('emit_many')
    calls = draw(st.lists(st.tuples(numbers, st.booleans()), min_size=1, max_size=8))
    return (draw(st.sampled_from(BASES)), [sorted(lv) for lv in levels], calls,
            draw(st.one_of(st.none(), st.sampled_from(['emit', 'emit_many']))))


def make_class(base, levels, log, error):
    cls = None
    for depth, names in enumerate(levels):
        ns = {}

        def add(depth=depth):
            def emit(self):
                log.append(('emit', depth))
                if error.get('emit'):
                    raise error['emit']
                return ('one', len(log))

            def emit_many(self, number):
                log.append(('emit_many', depth, number))
                if error.get('emit_many'):
                    raise error['emit_many']
                return self.last_list if hasattr(self, 'last_list') else [number]

            def reset(self):
                log.append(('reset', depth))
                return super(classes[depth], self).reset()
            return {'emit': emit, 'emit_many': emit_many, 'reset': reset,
                    'num_unique_values': property(lambda self: 100 + depth),
                    'emits_unique_values': property(lambda self: True)}
        classes = make_class.classes
        made = add()
        for n in names:
            ns[n] = made[n]
        cls = type('User%d' % depth, (cls,) if cls else base_tuple(base), ns)
        classes[depth] = cls
    return cls


make_class.classes = {}


def check_dispatch(case, obs):
    from fauxdoc.emitter import Emitter
    base, levels, calls, failing = case
    log, error = [], {}
    make_class.classes = {}
    cls = make_class(base, levels, log, error)
    defined = {}
    for depth, names in enumerate(levels):
        for n in names:
            defined[n] = depth      # the most derived one counts
    if not {'emit', 'emit_many'} <= set(defined):
        raises(TypeError, 'creating an emitter without emit and emit_many', cls)
        obs.tag('refused')
        obs.interesting(len(defined) > 0)
        return
    em = cls()
    req(isinstance(em, Emitter), 'not an Emitter')
    marker = em.last_list = ['a list', object()]
    del log[:]
    for i, (n, kw) in enumerate(calls):
        what = 'call %d with %r' % (i, n)
        del log[:]
        got = em(number=n) if kw else (em(n) if n is not None or i % 2 else em())
        if n is None or n == 1:
            eq(log, [('emit', defined['emit'])], what + ': methods called')
            eq(got, ('one', 1) if n is None else [('one', 1)], what)
        else:
            eq(log, [('emit_many', defined['emit_many'], n)], what + ': methods called')
            req(got is marker, '%s: gave %r', what, got)
        obs.tag('None' if n is None else 'n=%d' % min(n, 2))
    if failing:
        exc = error[failing] = KeyError('raised in %s' % failing)
        for n in ([None, 1] if failing == 'emit' else [0, 2]):
            try:
                em(n)
            except BaseException as e:
                req(e is exc, 'raised %r, the caller got %r', exc, e)
            else:
                raise Violation('the error did not reach the caller')
        error.clear()
        obs.tag('error')
    items = 'Items' in base
    want = 0 if items else None
    if 'num_unique_values' in defined:
        want = 100 + defined['num_unique_values']
    eq(em.num_unique_values, want, 'num_unique_values')
    eq(em.emits_unique_values, 'emits_unique_values' in defined, 'emits_unique_values')
    del log[:]
    state = {k: v for k, v in vars(em).items() if k != 'rng'}
    req(em.reset() is None, 'reset returned something')
    eq(log, [('reset', d) for d in reversed(range(len(levels))) if 'reset' in levels[d]],
       'resets')
    req({k: v for k, v in vars(em).items() if k != 'rng'} == state, 'reset changed %r', em)
    for n in (1, 2, 7):
        e = raises(ValueError, 'raise_uniqueness_violation', em.raise_uniqueness_violation, n)
        req(str(n) in str(e) and str(em.num_unique_values) in str(e), 'message %r', str(e))
    obs.interesting(len(calls) > 1 or len(levels) > 1)
    obs.tag(base)


# --------------------------------------------------------------- mixin trees

seeds = st.one_of(st.integers(0, 50), st.sampled_from(['text', b'x', 1.5, -3, 2 ** 70, 0]))
LEAVES = ['R', 'RI', 'I', 'stub', 'onlyreset', 'onlyseed', 'function', 'none', 'seq',
          'choice', 'plain']


@st.composite
def nodes(draw, depth):
    kind = draw(st.sampled_from(['RC', 'RC', 'RC', 'C'] if depth == 2 else (
        ['RC', 'C'] + LEAVES if depth else LEAVES)))
    if kind in ('RC', 'C'):
        n = draw(st.integers(0, 3))
        return (kind, draw(seeds), [draw(nodes(depth - 1)) for _ in range(n)])
    return (kind, draw(seeds), draw(st.lists(st.integers(0, 9), min_size=1, max_size=4)))


@st.composite
def tree_cases(draw):
    tree = draw(nodes(2))
    ops = []
    for _ in range(draw(st.integers(1, 12))):
        op = draw(st.sampled_from(['emit', 'emit', 'many', 'reset', 'seed', 'seed', 'setseed',
                                   'replace', 'remove']))
        ops.append((op, draw(st.sampled_from([0, 0, 0, 1, 2, 3, 4, 5, 6, 7]))) + draw({
            'many': st.tuples(st.integers(0, 3)), 'seed': st.tuples(seeds),
            'setseed': st.tuples(seeds), 'replace': st.tuples(
                st.integers(0, 3), nodes(0)), 'remove': st.tuples(st.integers(0, 3))}.get(
                    op, st.just(()))))
    return tree, ops


@st.composite
def wide_cases(draw):
    """Dozens of children, some of them with children of their own."""
    kinds = draw(st.lists(nodes(draw(st.sampled_from([0, 0, 1]))), min_size=2, max_size=5))
    n = draw(st.one_of(st.integers(4, 40), st.integers(41, 200)))
    root = (draw(st.sampled_from(['RC', 'RC', 'C'])), draw(seeds),
            [kinds[i % len(kinds)] for i in range(n)])
    for _ in range(draw(st.sampled_from([0, 0, 0, 1, 9, 40]))):
        root = (draw(st.sampled_from(['RC', 'RC', 'C'])), draw(seeds), [root])
    ops = []
    which = st.one_of(st.just(0), st.integers(0, 300))
    for _ in range(draw(st.integers(1, 5))):
        op = draw(st.sampled_from(['emit', 'emit', 'many', 'reset', 'seed', 'seed', 'setseed',
                                   'replace', 'remove']))
        ops.append((op, draw(which)) + draw({
            'many': st.tuples(st.integers(0, 70)), 'seed': st.tuples(seeds),
            'setseed': st.tuples(seeds), 'replace': st.tuples(
                st.integers(0, 200), nodes(0)), 'remove': st.tuples(st.integers(0, 200))
            }.get(op, st.just(()))))
    return root, ops


class Node:
    """Model of one node and the real object."""
    kind = real = None

    def __init__(self, kind, seed, data):
        self.kind, self.seed, self.data = kind, seed, data
        self.children = []
        self.rng = random.Random(seed)
        self.pos = 0
        self.calls = []         # stubs: real calls
        self.want = []          # stubs: expected calls

    def all(self):
        out = [self]
        for c in self.children:
            out += c.all()
        return out

    # what the documentation says reset and seed do
    def reset(self):
        if self.kind in ('R', 'RI', 'RC', 'choice'):
            self.rng = random.Random(self.seed)
        if self.kind in ('stub', 'onlyreset'):
            self.want.append('reset')
        if self.kind == 'seq':
            self.pos = 0
        for c in self.children:
            if self.kind == 'RC':
                c.hand(self.seed)
            c.reset()

    def hand(self, seed):
        if self.kind in ('R', 'RI', 'RC', 'choice', 'stub'):
            self.seed = seed

    def reseed(self, seed):
        if self.kind == 'C':
            return          # has no seed method
        if self.kind in ('R', 'RI', 'RC', 'choice'):
            self.seed = seed
            self.rng = random.Random(seed)
        if self.kind in ('stub', 'onlyseed'):
            self.want.append(('seed', seed))
        for c in self.children:
            c.reseed(seed)

    def emit(self):
        if self.kind == 'R':
            return self.rng.random()
        if self.kind == 'RI':
            return self.data[self.rng.randrange(len(self.data))]
        if self.kind == 'I':
            return list(self.data)
        if self.kind == 'RC':
            return (self.rng.random(), [c.emit() for c in self.children if c.emits()])
        if self.kind == 'C':
            return [c.emit() for c in self.children if c.emits()]
        if self.kind == 'seq':
            v = self.data[self.pos % len(self.data)]
            self.pos += 1
            return v
        raise ValueError(self.kind)

    def emits(self):
        return self.kind in ('R', 'RI', 'I', 'RC', 'C', 'seq')


class Stub:
    def __init__(self, node):
        self.node = node
        self.rng_seed = 'own'

    def __call__(self, number=None):
        return 0 if number is None else [0] * number

    def reset(self):
        self.node.calls.append('reset')

    def seed(self, value):
        self.node.calls.append(('seed', value))


class OnlyReset:
    def __init__(self, node):
        self.node = node

    def reset(self):
        self.node.calls.append('reset')


class OnlySeed:
    def __init__(self, node):
        self.node = node

    def seed(self, value):
        self.node.calls.append(('seed', value))


class Plain:
    pass


def user_classes():
    from fauxdoc import mixins as m
    from fauxdoc.emitter import Emitter

    class Base:
        def emit_many(self, number):
            return [self.emit() for _ in range(number)]

    class R(Base, m.RandomMixin, Emitter):
        def emit(self):
            return self.rng.random()

    class RI(Base, m.RandomMixin, m.ItemsMixin, Emitter):
        def emit(self):
            return self.items[self.rng.randrange(len(self.items))]

    class I(Base, m.ItemsMixin, Emitter):  # noqa: E742
        def emit(self):
            return list(self.items)

    def below(self):
        return [c() for k, c in self.emitters.items() if k.startswith('emits')]

    class RC(Base, m.RandomWithChildrenMixin, Emitter):
        def emit(self):
            return (self.rng.random(), below(self))

    class C(Base, m.ChildrenMixin, Emitter):
        def emit(self):
            return below(self)
    return {'R': R, 'RI': RI, 'I': I, 'RC': RC, 'C': C}


def build(spec, classes):
    from fauxdoc.emitters import Choice, Sequential
    kind, seed, data = spec
    node = Node(kind, seed, data)
    if kind in ('RC', 'C'):
        node.children = [build(s, classes) for s in data]
        kids = {label(i, c): c.real for i, c in enumerate(node.children)}
        if kind == 'RC':
            node.real = classes[kind](children=kids, rng_seed=seed)
            for c in node.children:     # a new object starts out reset
                c.hand(seed)
                c.reset()
        else:
            node.real = classes[kind](children=kids)
    elif kind == 'R':
        node.real = classes[kind](rng_seed=seed)
    elif kind == 'RI':
        node.real = classes[kind](items=data, rng_seed=seed)
    elif kind == 'I':
        node.real = classes[kind](items=data)
    elif kind == 'seq':
        node.real = Sequential(data)
    elif kind == 'choice':
        node.real = Choice(data, rng_seed=seed)
    elif kind == 'function':
        node.real = lambda number=None: 0
    elif kind == 'none':
        node.real = None
    else:
        node.real = {'stub': Stub, 'onlyreset': OnlyReset, 'onlyseed': OnlySeed,
                     'plain': lambda n: Plain()}[kind](node)
    return node


def squeeze(calls):
    return [c for i, c in enumerate(calls) if i == 0 or calls[i - 1] != c]


def label(i, node):
    return ('emits%d' if node.emits() else 'other%d') % i


def check_tree(case, obs):
    tree, ops = case
    root = build(tree, user_classes())
    for n in root.all():
        n.calls, n.want = [], []
    fresh = [1000]

    def compare(what):
        for n in root.all():
            # resetting twice in a row is as good as once
            eq(squeeze(n.calls), squeeze(n.want),
               '%s: resets and seedings of a %s' % (what, n.kind))
            if n.kind in ('R', 'RI', 'RC', 'choice'):
                req(n.real.rng_seed == n.seed, '%s: a %s has rng_seed %r, expected %r', what,
                    n.kind, n.real.rng_seed, n.seed)
                req(isinstance(n.real.rng, random.Random), '%s: rng', what)
            if n.kind in ('RI', 'I'):
                req(n.real.items is n.data, '%s: items', what)
                eq(n.real.num_unique_values, len(set(n.data)), what + ': unique values')
            if n.kind in ('RC', 'C'):
                req([id(c) for c in n.real.emitters.values()] ==
                    [id(c.real) for c in n.children], '%s: children', what)
        rngs = [id(n.real.rng) for n in root.all() if n.kind in ('R', 'RI', 'RC', 'choice')]
        req(len(rngs) == len(set(rngs)), '%s: two emitters share one generator', what)
    compare('at the start')
    for i, op in enumerate(ops):
        forms.stir('WrapOne WrapMany Field Word Choice ObjectMap')
        what = 'op %d %r' % (i, op)
        every = root.all()
        n = every[op[1] % len(every)]
        if op[0] in ('emit', 'many'):
            if not n.emits():
                continue
            if op[0] == 'emit':
                eq(n.real(), n.emit(), what)
            else:
                eq(n.real(op[2]), [n.emit() for _ in range(op[2])], what)
        elif op[0] == 'reset':
            if not hasattr(n.real, 'reset') or n.kind in ('stub', 'onlyreset'):
                continue
            n.real.reset()
            n.reset()
            obs.interesting(len(n.children) > 0)
            obs.tag('reset ' + n.kind)
        elif op[0] == 'seed':
            if n.kind not in ('R', 'RI', 'RC', 'choice'):
                continue
            n.real.seed(op[2])
            n.reseed(op[2])
            obs.interesting(len(n.children) > 0)
            obs.tag('seed ' + n.kind)
        elif op[0] == 'setseed':
            if n.kind in ('R', 'RI', 'RC'):
                n.real.rng_seed = n.seed = op[2]
        elif op[0] == 'replace':
            if n.kind in ('RC', 'C') and n.children:
                j = op[2] % len(n.children)
                old = list(n.real.emitters)[j]
                new = build(op[3], user_classes())
                new.calls, new.want = [], []
                # keep the place, change the object; labels say who emits
                if new.emits() == n.children[j].emits():
                    n.real.emitters[old] = new.real
                    n.children[j] = new
                else:
                    del n.real.emitters[old]
                    del n.children[j]
                    fresh[0] += 1
                    n.real.emitters[label(fresh[0], new)] = new.real
                    n.children.append(new)
                obs.tag('child replaced')
        elif op[0] == 'remove':
            if n.kind in ('RC', 'C') and n.children:
                j = op[2] % len(n.children)
                n.real.emitters.pop(list(n.real.emitters)[j])
                del n.children[j]
        compare(what)
    obs.tag(root.kind)


# ------------------------------------------------------------------ plugging in

PLUGS = ['duck', 'sub', 'items', 'falsy', 'children', 'slots', 'random']


def plug_classes():
    from fauxdoc import mixins as m
    from fauxdoc.emitter import Emitter

    class Sub_(Emitter):
        def __init__(self, values):
            self.s = Stream(values)

        def emit(self):
            return self.s.one()

        def emit_many(self, number):
            return self.s.many(number)

        def reset(self):
            self.s.reset()

    class Falsy(Sub_):
        def __len__(self):
            return 0

    class Items(m.ItemsMixin, Emitter):
        def __init__(self, values):
            super().__init__(items=values)
            self.s = Stream(values)
        emit = Sub_.emit
        emit_many = Sub_.emit_many
        reset = Sub_.reset

    class Children(m.RandomWithChildrenMixin, Emitter):
        def __init__(self, values):
            super().__init__(children={'x': Sub_(values), 'none': None}, rng_seed=5)

        def emit(self):
            return self.emitters['x']()

        def emit_many(self, number):
            return self.emitters['x'](number)

    class Slots:
        __slots__ = ('s',)
        num_unique_values = None
        emits_unique_values = False

        def __init__(self, values):
            self.s = Stream(values)

        def __call__(self, number=None):
            return self.s.one() if number is None else self.s.many(number)

        def reset(self):
            self.s.reset()

    class Random_(m.RandomMixin, m.ItemsMixin, Emitter):
        def __init__(self, values):
            super().__init__(items=list(values), rng_seed=1)

        def emit(self):
            return self.items[int(self.rng.random() * len(self.items))]

        def emit_many(self, number):
            return [self.emit() for _ in range(number)]
    return {'duck': Feed, 'sub': Sub_, 'items': Items, 'falsy': Falsy, 'children': Children,
            'slots': Slots, 'random': Random_}


counts = st.lists(st.integers(0, 4), min_size=1, max_size=4)
strings = st.lists(st.sampled_from(['a', 'b', 'cd', '\u00e9', '', '-', ' ']), min_size=1,
                   max_size=5)
plug = st.sampled_from(PLUGS)
PARENTS = {
    'word': [counts, strings], 'text': [counts, strings, strings],
    'one': [st.lists(st.integers(0, 9), min_size=1, max_size=4)],
    'many': [strings, counts],
    'field': [strings, st.one_of(counts, st.just([None])),
              st.lists(st.booleans(), min_size=1, max_size=4)],
}


@st.composite
def plug_cases(draw):
    parent = draw(st.sampled_from(sorted(PARENTS)))
    parts = [(draw(plug), draw(v)) for v in PARENTS[parent]]
    if draw(st.integers(0, 3)) == 0:
        parts = [('random', v) for _, v in parts]
    ops = draw(st.lists(st.one_of(
        st.just(('one',)), st.just(('one',)), st.tuples(st.just('many'), st.integers(0, 4)),
        st.just(('reset',)), st.tuples(st.just('seed'), st.integers(0, 9))),
        min_size=1, max_size=10))
    return parent, parts, draw(st.integers(0, 9)), draw(st.booleans()), ops


def make_parent(parent, parts, seed):
    from fauxdoc.emitters import Text, Word, WrapMany, WrapOne
    from fauxdoc.profile import Field
    if parent == 'word':
        return Word(*parts, rng_seed=seed)
    if parent == 'text':
        return Text(*parts, rng_seed=seed)
    if parent == 'one':
        return WrapOne(parts[0], lambda v: ('one', v), rng_seed=seed)
    if parent == 'many':
        return WrapMany({'a': parts[0], 'b': parts[1]}, lambda a, b: (a, b), rng_seed=seed)
    return Field('name', parts[0], repeat=parts[1], gate=parts[2], rng_seed=seed)


def check_plug(case, obs):
    from fauxdoc.emitters import Sequential
    from fauxdoc.profile import Schema
    parent, specs, seed, in_schema, ops = case
    classes = plug_classes()
    rand = any(k == 'random' for k, _ in specs)

    def build_it(s, builtin):
        parts = [Sequential(v) if builtin else classes[k](v) for k, v in specs]
        obj = make_parent(parent, parts, s)
        if parent == 'field' and in_schema:
            schema = Schema(obj)
            schema.reset, schema.seed = schema.reset_fields, schema.seed_fields
            return schema, obj
        return obj, obj
    real, obj = build_it(seed, False)
    # with random parts the twin is built anew whenever the real one starts over
    twin, _ = build_it(seed, not rand)
    values = 0
    for i, op in enumerate(ops):
        forms.stir('WrapOne WrapMany Field Word Choice ObjectMap')
        what = 'op %d %r' % (i, op)
        if op[0] == 'one' or (op[0] == 'many' and parent == 'field'):
            got, want = real(), twin()
            eq(got, want, what)
            values += 1
        elif op[0] == 'many':
            eq(real(op[1]), twin(op[1]), what)
            values += op[1]
        else:
            if op[0] == 'seed':
                seed = op[1]
                real.seed(seed)
                if not rand:
                    continue
            real.reset()
            if rand:
                twin, _ = build_it(seed, False)
            else:
                twin.reset()
            obs.tag(op[0])
    obs.tag(parent, *[k for k, _ in specs])
    obs.interesting(values > 1)


# ------------------------------------------------------------------- instances

@st.composite
def instance_cases(draw):
    return (draw(st.sampled_from(BASES[1:])), draw(st.booleans()), draw(st.booleans()),
            draw(st.lists(st.sampled_from(['append', 'child', 'draw', 'seed', 'reset',
                                           'attr', 'outer']), min_size=1, max_size=6)))


def check_instances(case, obs):
    """What one object does to its own parts stays its own business."""
    base, given_items, given_children, ops = case
    items_list, kids = [1, 2], {'a': Feed([1])}

    def emit(self):
        return 0
    cls = type('User', base_tuple(base), {
        'emit': emit, 'emit_many': lambda self, number: [0] * number})

    def make():
        kw = {}
        if 'Items' in base and given_items:
            kw['items'] = list(items_list)
        if 'Children' in base and given_children:
            kw['children'] = kids
        return cls(**kw)
    a, b = make(), make()
    sub = type('SubUser', (cls,), {})()

    def seen(obj):
        return (list(obj.items) if hasattr(obj, 'items') else None,
                list(obj.emitters.items()) if hasattr(obj, 'emitters') else None,
                obj.rng.getstate() if hasattr(obj, 'rng') else None,
                getattr(obj, 'rng_seed', None))
    before = seen(b), seen(sub)
    for op in ops:
        if op == 'append' and hasattr(a, 'items'):
            a.items.append('new')
        elif op == 'child' and hasattr(a, 'emitters'):
            a.emitters['new'] = Feed([2])
        elif op == 'draw' and hasattr(a, 'rng'):
            a.rng.random()
        elif op == 'seed' and hasattr(a, 'seed'):
            a.seed(3)
        elif op == 'attr' and hasattr(a, 'rng'):
            a.rng_seed = 4
        elif op == 'reset':
            a.reset()
        elif op == 'outer':
            kids['late'] = Feed([3])    # the caller's own mapping
        else:
            continue
        obs.tag(op)
        obs.interesting()
        req((seen(b), seen(sub)) == before, '%s on one object changed another one: %r, '
            'before: %r', op, (seen(b)[:2], seen(sub)[:2]), (before[0][:2], before[1][:2]))
    c = make()
    want_items = (items_list if given_items else []) if 'Items' in base else None
    req(seen(c)[0] == want_items, 'a new object has items %r', seen(c)[0])
    want_kids = None
    if 'Children' in base:
        want_kids = list(kids.items()) if given_children else []
    req(seen(c)[1] == want_kids, 'a new object has children %r', seen(c)[1])
    obs.tag(base)


# ------------------------------------------------------------ mixins combined

class Noted:
    """A user's own base class below the mixins."""

    def __init__(self, *args, **kwargs):
        self.given = (args, kwargs)
        self.log = []

    def reset(self):
        self.log.append('reset')

    def seed(self, value):
        self.log.append(('seed', value))


class Quiet:
    """Another one, which knows nothing of reset and seed."""

    def __init__(self, *args, **kwargs):
        self.given = (args, kwargs)


class Kid:
    def __init__(self):
        self.log = []
        self.rng_seed = 'own'

    def reset(self):
        self.log.append('reset')

    def seed(self, value):
        self.log.append(('seed', value))


@st.composite
def combo_cases(draw):
    mixes = draw(st.permutations(draw(st.sampled_from(
        ['RIC', 'RIC', 'RI', 'RC', 'IC', 'R', 'I', 'C', 'W', 'WI', 'WI']))))
    return (''.join(mixes), draw(st.sampled_from(['Noted', 'Noted', 'Quiet', 'Emitter', ''])),
            draw(st.integers(0, 2)), draw(seeds),
            draw(st.lists(st.integers(0, 3), max_size=5)), draw(st.integers(0, 3)),
            draw(st.sets(st.sampled_from(['rng_seed', 'items', 'children', 'other']))),
            draw(st.lists(st.one_of(st.just('reset'), st.just('draw'), seeds), min_size=1,
                          max_size=6)))


def check_combo(case, obs):
    """Every combination and order of the mixins, with and without a base class."""
    from fauxdoc import mixins as m
    from fauxdoc.emitter import Emitter
    mixes, base, nargs, seed, items, nkids, given, ops = case
    classes = [{'R': m.RandomMixin, 'I': m.ItemsMixin, 'C': m.ChildrenMixin,
                'W': m.RandomWithChildrenMixin}[k] for k in mixes]
    rand, kids_too, it = (bool(set(mixes) & set(x)) for x in ('RW', 'CW', 'I'))
    ns = {}
    if base == 'Emitter':
        classes.append(Emitter)
        ns = {'emit': lambda self: 1, 'emit_many': lambda self, number: [1] * number}
    elif base:
        classes.append({'Noted': Noted, 'Quiet': Quiet}[base])
    cls = type('Mine', tuple(classes), ns)
    kids = {'k%d' % i: Kid() for i in range(nkids)}
    kw = {}
    if rand and 'rng_seed' in given:
        kw['rng_seed'] = seed
    if it and 'items' in given:
        kw['items'] = items
    if kids_too and 'children' in given:
        kw['children'] = kids
    if not kids_too or 'children' not in given:
        kids = {}
    own = base in ('Noted', 'Quiet')
    args = tuple(range(nargs)) if own else ()
    rest = {'other': 5} if own and 'other' in given else {}
    em = cls(*args, **dict(kw, **rest))
    what = 'class over %s %s given %r' % (mixes, base, sorted(kw))
    if own:
        eq(em.given, (args, rest), what + ': arguments handed to the base class')
    if it:
        eq(em.items, kw.get('items', []), what + ': items')
        eq(em.num_unique_values, len(set(kw.get('items', []))), what + ': unique values')
    if kids_too:
        eq(list(em.emitters.items()), list(kids.items()), what + ': children')
    now, ref = kw.get('rng_seed'), None
    if rand:
        eq(em.rng_seed, now, what + ': rng_seed')
        if 'rng_seed' in kw:
            ref = random.Random(now)
            eq(em.rng.random(), ref.random(), what + ': first draw')

    def clear():
        for o in list(kids.values()) + [em] * (base == 'Noted'):
            del o.log[:]
    for i, op in enumerate(ops):
        forms.stir('WrapOne WrapMany Field Word Choice ObjectMap')
        clear()
        w = '%s: op %d %r' % (what, i, op)
        if op == 'draw':
            if ref:
                eq(em.rng.random(), ref.random(), w)
            continue
        if op == 'reset':
            if not (rand or kids_too or base in ('Noted', 'Emitter')):
                continue
            em.reset()
            if ref:
                ref = random.Random(now)
            log = ['reset']
        else:
            if not (rand or base == 'Noted'):
                continue
            em.seed(op)
            if rand:
                now, ref = op, random.Random(op)
            log = [('seed', op)]
        for k, kid in kids.items():
            if log == ['reset'] or 'W' in mixes:
                eq(kid.log, log, '%s: calls of child %s' % (w, k))
        if base == 'Noted':
            eq(em.log, log, w + ': calls of the base class')
        if rand:
            eq(em.rng_seed, now, w + ': rng_seed')
        if it:
            eq(em.items, kw.get('items', []), w + ': items')
    if ref:
        eq(em.rng.random(), ref.random(), what + ': draw at the end')
    obs.interesting(len(mixes) > 1 or nkids > 0)
    obs.tag('order ' + mixes, 'over ' + (base or 'nothing'))


# ----------------------------------------- classes derived from the library's

DERIVED = ['Choice', 'norep', 'weighted', 'Static', 'Iterative', 'Sequential', 'Word', 'Text',
           'WrapOne', 'WrapMany', 'CopyFields', 'BasedOnFields']


def derived(kind, cls_of, log):
    """An instance of cls_of(class) for a class of the library."""
    from fauxdoc import emitters as e
    from fauxdoc.profile import Field
    if kind == 'Choice':
        return cls_of(e.Choice)('abcdefgh', rng_seed=4)
    if kind == 'norep':
        return cls_of(e.Choice)(range(60), replace=False, rng_seed=4)
    if kind == 'weighted':
        return cls_of(e.Choice)('abcd', weights=[1, 2, 3, 4], rng_seed=4)
    if kind == 'Static':
        return cls_of(e.Static)('v')
    if kind == 'Iterative':
        return cls_of(e.Iterative)(lambda: iter('abcde'))
    if kind == 'Sequential':
        return cls_of(e.Sequential)('abcde')
    if kind == 'Word':
        return cls_of(e.Word)(e.Choice([1, 2, 3]), e.Choice('abc'), rng_seed=4)
    if kind == 'Text':
        return cls_of(e.Text)(e.Choice([1, 2, 3]), e.Choice('abc'), rng_seed=4)
    if kind == 'WrapOne':
        return cls_of(e.WrapOne)(e.Choice('abcde'), str.upper, rng_seed=4)
    if kind == 'WrapMany':
        return cls_of(e.WrapMany)({'a': e.Choice('abcde')}, lambda a: a * 2, rng_seed=4)
    f = Field('f', e.Static('v'))
    f()
    if kind == 'CopyFields':
        return cls_of(e.CopyFields)(f)
    return cls_of(e.BasedOnFields)(f, lambda v, rng: '%s%s' % (v, rng.random()), rng_seed=4)


def own_emitter(base, log):
    """A user's class derived from one of the library's, that marks what it emits."""
    def emit(self):
        return 'one', super(Own, self).emit()

    def emit_many(self, number):
        return [('many', v) for v in super(Own, self).emit_many(number)]

    def reset(self):
        log.append('reset')
        super(Own, self).reset()
    body = {'emit': emit, 'emit_many': emit_many, 'reset': reset}
    if hasattr(base, 'seed'):
        def seed(self, rng_seed):
            log.append(('seed', rng_seed))
            super(Own, self).seed(rng_seed)
        body['seed'] = seed
    Own = type('Own' + base.__name__, (base,), body)
    return Own


def bare(v):
    while isinstance(v, tuple) and len(v) == 2 and v[0] in ('one', 'many'):
        v = v[1]
    return v


@st.composite
def derived_cases(draw):
    ops = draw(st.lists(st.one_of(
        st.just(('call',)), st.just(('call',)),
        st.tuples(st.just('calls'), st.integers(0, 6)),
        st.tuples(st.just('seed'), st.integers(0, 9)), st.just(('reset',))),
        min_size=1, max_size=8))
    return draw(st.sampled_from(DERIVED)), draw(st.sampled_from(['', 'one', 'field'])), ops


def check_derived(case, obs):
    from fauxdoc.emitters import Static, WrapOne
    from fauxdoc.profile import Field
    kind, parent, ops = case
    log = []
    em = derived(kind, lambda c: own_emitter(c, log), log)
    twin = derived(kind, lambda c: c, log)      # the class of the library itself
    outer, outer_twin = em, twin
    if parent == 'one':
        outer, outer_twin = (WrapOne(x, lambda v: v, rng_seed=2) for x in (em, twin))
    elif parent == 'field':
        outer, outer_twin = (Field('f', x, rng_seed=2) for x in (em, twin))
    used = 0
    seeded = hasattr(em, 'seed')
    for i, op in enumerate(ops):
        what = 'op %d %r' % (i, op)
        if op[0] in ('call', 'calls'):
            n = None if op[0] == 'call' else op[1]
            used += 1 if n is None else n
            if kind == 'norep' and used > 60:
                break
            if parent == 'field' and n is not None:
                outer.repeat_emitter = Static(n)
                outer_twin.repeat_emitter = Static(n)
                got, want = outer(), outer_twin()
                outer.repeat_emitter = Static(None)
                outer_twin.repeat_emitter = Static(None)
            else:
                got = outer() if n is None else outer(n)
                want = outer_twin() if n is None else outer_twin(n)
            marks = {'one'} if n is None else {'many'} if n != 1 else {'one', 'many'}
            for v in [got] if n is None else got:
                req(isinstance(v, tuple) and v[0] in marks,
                    '%s of %s: %r did not come through the method of the derived class', what,
                    kind, v)
            eq(bare(got) if n is None else [bare(v) for v in got], want,
               '%s of a class derived from %s' % (what, kind))
        elif op[0] == 'reset':
            del log[:]
            outer.reset()
            outer_twin.reset()
            req('reset' in log, '%s did not reach the method of the derived class', what)
            used = 0
        elif hasattr(outer, 'seed'):
            del log[:]
            outer.seed(op[1])
            outer_twin.seed(op[1])
            if seeded:
                req(('seed', op[1]) in log,
                    '%s did not reach the method of the derived class', what)
            used = 0 if seeded else used
    obs.interesting(any(op[0] in ('call', 'calls') for op in ops))
    obs.tag(kind, 'in a ' + parent if parent else 'alone')


SUBS = [Sub('derived', derived_cases, check_derived, 900),
        Sub('instances', instance_cases, check_instances, 600),
        Sub('dispatch', dispatch_cases, check_dispatch, 4000),
        Sub('trees', tree_cases, check_tree, 4000),
        Sub('wide', wide_cases, check_tree, 240, 2400),
        Sub('combos', combo_cases, check_combo, 1500),
        Sub('plugged', plug_cases, check_plug, 4000)]
