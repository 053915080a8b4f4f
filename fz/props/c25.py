import copy
import pickle
from collections import OrderedDict

from hypothesis import strategies as st

from .. import bigdocs, forms, members
from ..core import Sub, Violation, req
from ..members import Member

PROP = 'C25'
RULE = ('Random histories of about forty list operations (sixty with the dict ones) over '
        'pools of groups, run on real lists/OrderedDicts and on groups/maps in step; '
        'broadcasts over members of seventeen kinds with every call recorded. Non-trivial: a '
        'history with at least two operations that changed or derived a group of at least '
        'two members; a broadcast that skipped and reached members.')

tags = st.integers(0, 6)
# ints and Members, equal ones among them; lists and tuples to catch constructors that
# unpack what they are given
member = st.one_of(
    st.tuples(st.just('m'), tags), st.tuples(st.just('m'), tags),
    st.tuples(st.just('v'), st.one_of(
        tags, st.none(), st.sampled_from(['', 'ab']),
        st.lists(tags, max_size=2), st.tuples(tags, tags), st.just({'k': 1}))))
index = st.integers(-7, 7)
maybe_index = st.one_of(st.none(), index)
slices = st.tuples(maybe_index, maybe_index,
                   st.one_of(st.none(), st.integers(-3, 3).filter(bool)))


def build(spec):
    return Member(spec[1]) if spec[0] == 'm' else copy.deepcopy(spec[1])


def outcome(fn):
    try:
        return ('value', fn())
    except Exception as e:
        return ('error', type(e))


def show(x):
    return repr(x)


# -------------------------------------------------------------------- groups

MEMBERS = st.lists(member, max_size=5)
LIST_OPS = {
    'append': st.tuples(member), 'extend': st.tuples(MEMBERS, st.integers(0, 3)),
    'insert': st.tuples(index, member), 'pop': st.tuples(maybe_index),
    'remove': st.tuples(member), 'clear': st.just(()), 'reverse': st.just(()),
    'sort': st.tuples(st.booleans()), 'getitem': st.tuples(index),
    'setitem': st.tuples(index, member), 'delitem': st.tuples(index),
    'getslice': st.tuples(slices), 'setslice': st.tuples(slices, MEMBERS),
    'delslice': st.tuples(slices), 'add': st.tuples(MEMBERS), 'radd': st.tuples(MEMBERS),
    'addgroup': st.tuples(st.integers(0, 3)), 'iadd': st.tuples(MEMBERS),
    'iaddself': st.just(()), 'extendself': st.just(()),
    'mul': st.tuples(st.integers(-1, 3)), 'rmul': st.tuples(st.integers(-1, 3)),
    'imul': st.tuples(st.integers(-1, 2)), 'copy': st.just(()), 'copycopy': st.just(()),
    'deepcopy': st.just(()), 'pickle': st.tuples(st.integers(0, 5)),
    'contains': st.tuples(member), 'index': st.tuples(member), 'count': st.tuples(member),
    'indexfrom': st.tuples(member, index, index), 'iter': st.just(()),
    'reversed': st.just(()), 'len': st.just(()), 'eq': st.tuples(st.integers(0, 3)),
    'eqlist': st.tuples(MEMBERS), 'same': st.just(()), 'unpack': st.just(()),
}
WEIGHTED = sorted(LIST_OPS) + ['append', 'extend', 'insert', 'add', 'getslice', 'setslice',
                               'copy', 'append', 'extend', 'add', 'pickle', 'mul'] * 2


@st.composite
def group_cases(draw):
    ops = []
    for _ in range(draw(st.integers(2, 14))):
        name = draw(st.sampled_from(WEIGHTED))
        ops.append((name, draw(st.integers(0, 3)), draw(LIST_OPS[name])))
    return (draw(st.sampled_from(['group', 'group', 'source', 'sub'])),
            draw(st.lists(member, max_size=7)), ops)


def group_class(kind):
    from fauxdoc.emitters.fromfields import SourceFieldGroup
    from fauxdoc.group import ObjectGroup
    if kind == 'group':
        return ObjectGroup, lambda vals: ObjectGroup(*vals)
    if kind == 'source':
        return SourceFieldGroup, SourceFieldGroup
    return SubGroup(ObjectGroup), lambda vals: SubGroup(ObjectGroup)(*vals)


_SUB = {}


def SubGroup(base):
    """A user's subclass with an attribute of its own (picklable)."""
    if base not in _SUB:
        class NamedGroup(base):
            def __init__(self, *objs):
                super().__init__(*objs)
                self.label = 'mine'
        NamedGroup.__qualname__ = 'NamedGroup'
        NamedGroup.__module__ = __name__
        globals()['NamedGroup'] = NamedGroup
        _SUB[base] = NamedGroup
    return _SUB[base]


def check_group(case, obs):
    kind, start, ops = case
    cls, make = group_class(kind)
    start = [build(s) for s in start]
    pool = [(make(list(start)), list(start))]
    eff = 0

    def slot(k):
        return k % len(pool)

    def compare(what):
        for g, lst in pool:
            req(type(g) is cls, '%s: a group became a %s', what, type(g).__name__)
            req(len(g) == len(lst) and all(a is b for a, b in zip(g, lst)),
                '%s: group is %.300r, the list is %.300r', what, list(g), lst)
            if kind == 'sub':
                req(g.label == 'mine', '%s: attribute lost', what)
            req(bool(g) == bool(lst) and repr(list(g)) == repr(lst), '%s: bool/len', what)

    def derive(what, g, lst):
        req(type(g) is cls, '%s: gave a %s instead of a %s', what, type(g).__name__,
            cls.__name__)
        req(all(g is not other for other, _ in pool), '%s: not a new group', what)
        if len(pool) < 4:
            pool.append((g, lst))
        else:
            pool[-1] = (g, lst)

    def both(what, f, g, *more):
        """f on the group and on the list; results must agree."""
        a, b = outcome(lambda: f(g[0], *more)), outcome(lambda: f(g[1], *more))
        req(a[0] == b[0] and (a[1] is b[1] or show(a[1]) == show(b[1])),
            '%s: group gives %.200r, list gives %.200r', what, a, b)
        return b
    compare('start')
    for i, (name, where, args) in enumerate(ops):
        forms.stir('ObjectGroup ObjectMap')
        what = 'op %d %s%r' % (i, name, args)
        k = slot(where)
        pair = pool[k]
        g, lst = pair
        big = len(lst) > 1
        if name in ('append', 'remove', 'contains', 'index', 'count'):
            x = build(args[0])
            if name == 'contains':
                both(what, lambda s: x in s, pair)
            else:
                both(what, lambda s: getattr(s, name)(x), pair)
        elif name == 'extend':
            new = [build(s) for s in args[0]]
            src = [list, tuple, iter, group_class('group')[1]][args[1]]
            both(what, lambda s: s.extend(src(new)), pair)
        elif name == 'insert':
            x = build(args[1])
            both(what, lambda s: s.insert(args[0], x), pair)
        elif name == 'pop':
            both(what, lambda s: s.pop(*([] if args[0] is None else args)), pair)
        elif name in ('clear', 'reverse'):
            both(what, lambda s: getattr(s, name)(), pair)
        elif name == 'sort':
            both(what, lambda s: s.sort(key=repr, reverse=args[0]), pair)
        elif name == 'getitem':
            both(what, lambda s: s[args[0]], pair)
        elif name == 'indexfrom':
            x = build(args[0])
            both(what, lambda s: s.index(x, args[1], args[2]), pair)
        elif name == 'setitem':
            x = build(args[1])
            both(what, lambda s: s.__setitem__(args[0], x), pair)
        elif name == 'delitem':
            both(what, lambda s: s.__delitem__(args[0]), pair)
        elif name == 'setslice':
            new = [build(s) for s in args[1]]
            both(what, lambda s: s.__setitem__(slice(*args[0]), new), pair)
        elif name == 'delslice':
            both(what, lambda s: s.__delitem__(slice(*args[0])), pair)
        elif name == 'getslice':
            derive(what, g[slice(*args[0])], lst[slice(*args[0])])
        elif name == 'add':
            new = [build(s) for s in args[0]]
            derive(what, g + new, lst + new)
        elif name == 'radd':
            new = [build(s) for s in args[0]]
            derive(what, new + g, new + lst)
        elif name == 'addgroup':
            other = pool[slot(args[0])]
            derive(what, g + other[0], lst + other[1])
        elif name in ('iadd', 'iaddself', 'imul'):
            if name == 'imul':
                if len(lst) > 20:
                    continue
                h = g
                h *= args[0]
                lst *= args[0]
            else:
                new = g if name == 'iaddself' else [build(s) for s in args[0]]
                if len(lst) > 20:
                    continue
                was = list(lst) if name == 'iaddself' else new
                h = g
                h += new
                lst += was
            req(h is g, '%s: made a new group', what)
        elif name == 'extendself':
            if len(lst) <= 20:
                g.extend(g)
                lst.extend(list(lst))
        elif name in ('mul', 'rmul'):
            if len(lst) <= 20:
                derive(what, g * args[0] if name == 'mul' else args[0] * g, lst * args[0])
        elif name in ('copy', 'copycopy'):
            derive(what, g.copy() if name == 'copy' else copy.copy(g), list(lst))
        elif name in ('deepcopy', 'pickle'):
            if name == 'deepcopy':
                h = copy.deepcopy(g)
            else:
                h = pickle.loads(pickle.dumps(g, args[0]))
            req(type(h) is cls and repr(list(h)) == repr(lst), '%s: gave %r for %r', what,
                h, lst)
            req(not lst or not isinstance(lst[0], Member) or h[0] is not lst[0],
                '%s: not a deep copy', what)
            derive(what, h, list(h))
        elif name == 'iter':
            req([id(x) for x in g] == [id(x) for x in lst], what)
            req([id(x) for x in g.objects_iterable] == [id(x) for x in lst], what)
        elif name == 'reversed':
            req([id(x) for x in reversed(g)] == [id(x) for x in reversed(lst)], what)
        elif name == 'len':
            both(what, len, pair)
        elif name == 'unpack':
            req([id(x) for x in (lambda *a: a)(*g)] == [id(x) for x in lst], what)
        elif name == 'eq':
            other = pool[slot(args[0])]
            req((g == other[0]) is (lst == other[1]) and
                (g != other[0]) is (lst != other[1]) and
                (g == other[1]) is (lst == other[1]), '%s: comparison', what)
        elif name == 'eqlist':
            new = [build(s) for s in args[0]]
            req((g == new) is (lst == new) and (g == list(lst)) is True, '%s: comparison',
                what)
        elif name == 'same':
            req(g == make(list(lst)) and not g != make(list(lst)), '%s: comparison', what)
        compare(what)
        obs.tag(name)
        eff += big and name not in ('contains', 'index', 'count', 'iter', 'reversed', 'len',
                                    'eq', 'eqlist', 'same', 'unpack', 'indexfrom',
                                    'getitem')
    obs.interesting(eff >= 2)
    obs.tag(kind)


# ---------------------------------------------------------------------- maps

keys = st.sampled_from(['a', 'b', 'c', 'd', 'self', 'objects', 'items', ''])
pairs = st.lists(st.tuples(keys, member), max_size=4)
MAP_OPS = {
    'set': st.tuples(keys, member), 'del': st.tuples(keys), 'get': st.tuples(keys),
    'getdefault': st.tuples(keys, member), 'getitem': st.tuples(keys),
    'pop': st.tuples(keys), 'popdefault': st.tuples(keys, member),
    'popitem': st.tuples(st.booleans()), 'setdefault': st.tuples(keys, member),
    'update': st.tuples(pairs, st.sampled_from(['dict', 'pairs', 'map', 'kw', 'both'])),
    'clear': st.just(()), 'contains': st.tuples(keys), 'views': st.just(()),
    'copy': st.just(()), 'copycopy': st.just(()), 'deepcopy': st.just(()),
    'pickle': st.tuples(st.integers(0, 5)), 'fromkeys': st.tuples(st.lists(keys, max_size=3),
                                                                  member),
    'fromkeysnone': st.tuples(st.lists(keys, max_size=3)),
    'or': st.tuples(pairs), 'ror': st.tuples(pairs), 'ior': st.tuples(pairs),
    'ormap': st.tuples(st.integers(0, 3)), 'reversed': st.just(()),
    'move': st.tuples(keys, st.booleans()), 'eq': st.tuples(st.integers(0, 3)),
    'eqdict': st.tuples(pairs), 'construct': st.tuples(st.integers(0, 2)),
}
MAP_WEIGHTED = sorted(MAP_OPS) + ['set', 'update', 'setdefault', 'pop', 'or', 'copy', 'set',
                                  'del', 'update'] * 2


@st.composite
def map_cases(draw):
    ops = []
    for _ in range(draw(st.integers(2, 14))):
        name = draw(st.sampled_from(MAP_WEIGHTED))
        ops.append((name, draw(st.integers(0, 3)), draw(MAP_OPS[name])))
    return draw(st.lists(st.tuples(keys, member), max_size=6)), ops


def check_map(case, obs):
    from fauxdoc.group import ObjectMap
    start, ops = case
    d = OrderedDict((k, build(v)) for k, v in start)
    pool = [(ObjectMap(d), OrderedDict(d))]
    pool[0][0].clear()
    pool[0][0].update(d)
    eff = 0

    def compare(what):
        for m, d in pool:
            req(type(m) is ObjectMap, '%s: a map became a %s', what, type(m).__name__)
            req(len(m) == len(d) and list(m) == list(d) and all(
                m[k] is d[k] for k in d), '%s: map is %.300r, dict is %.300r', what,
                list(m.items()), list(d.items()))
            req([id(x) for x in m.values()] == [id(x) for x in d.values()],
                '%s: values', what)
            req([id(x) for x in m.objects_iterable] == [id(x) for x in d.values()],
                '%s: objects_iterable', what)

    def derive(what, m, d):
        req(type(m) is ObjectMap, '%s: gave a %s', what, type(m).__name__)
        req(all(m is not other for other, _ in pool), '%s: not a new map', what)
        if len(pool) < 4:
            pool.append((m, d))
        else:
            pool[-1] = (m, d)

    def both(what, f, pair):
        a, b = outcome(lambda: f(pair[0])), outcome(lambda: f(pair[1]))
        req(a[0] == b[0] and (a[1] is b[1] or show(a[1]) == show(b[1])),
            '%s: map gives %.200r, dict gives %.200r', what, a, b)

    def mk(ps):
        return OrderedDict((k, build(v)) for k, v in ps)
    compare('start')
    for i, (name, where, args) in enumerate(ops):
        forms.stir('ObjectGroup ObjectMap')
        what = 'op %d %s%r' % (i, name, args)
        pair = pool[where % len(pool)]
        m, d = pair
        big = len(d) > 1
        if name == 'set':
            x = build(args[1])
            both(what, lambda s: s.__setitem__(args[0], x), pair)
        elif name == 'del':
            both(what, lambda s: s.__delitem__(args[0]), pair)
        elif name in ('get', 'pop'):
            both(what, lambda s: getattr(s, name)(args[0]), pair)
        elif name == 'getitem':
            both(what, lambda s: s[args[0]], pair)
        elif name in ('getdefault', 'popdefault', 'setdefault'):
            x = build(args[1])
            meth = {'getdefault': 'get', 'popdefault': 'pop'}.get(name, name)
            both(what, lambda s: getattr(s, meth)(args[0], x), pair)
        elif name == 'popitem':
            both(what, lambda s: s.popitem(last=args[0]), pair)
        elif name == 'update':
            new = mk(args[0])
            kw = {k: v for k, v in new.items() if k.isidentifier() and k != 'self'}
            if args[1] == 'dict':
                both(what, lambda s: s.update(dict(new)), pair)
            elif args[1] == 'pairs':
                both(what, lambda s: s.update(list(new.items())), pair)
            elif args[1] == 'map':
                both(what, lambda s: s.update(ObjectMap(new)), pair)
            elif args[1] == 'kw':
                both(what, lambda s: s.update(**kw), pair)
            else:
                both(what, lambda s: s.update(new, **kw), pair)
        elif name == 'clear':
            both(what, lambda s: s.clear(), pair)
        elif name == 'contains':
            both(what, lambda s: args[0] in s, pair)
        elif name == 'views':
            both(what, lambda s: (list(s.items()), list(s.keys()), list(s.values()), len(s),
                                  bool(s), [*s], dict(s), {**{'k' + k: v for k, v in
                                                             s.items()}}), pair)
        elif name == 'copy':
            derive(what, m.copy(), OrderedDict(d))
        elif name == 'copycopy':
            derive(what, copy.copy(m), OrderedDict(d))
        elif name in ('deepcopy', 'pickle'):
            h = copy.deepcopy(m) if name == 'deepcopy' else pickle.loads(
                pickle.dumps(m, args[0]))
            req(repr(list(h.items())) == repr(list(d.items())), '%s: gave %r', what, h)
            req(all(h[k] is not d[k] for k in d if isinstance(d[k], Member)),
                '%s: not a deep copy', what)
            derive(what, h, OrderedDict(h))
        elif name == 'fromkeys':
            x = build(args[1])
            derive(what, ObjectMap.fromkeys(args[0], x), OrderedDict.fromkeys(args[0], x))
        elif name == 'fromkeysnone':
            derive(what, ObjectMap.fromkeys(args[0]), OrderedDict.fromkeys(args[0]))
        elif name == 'or':
            new = mk(args[0])
            derive(what, m | dict(new), d | dict(new))
        elif name == 'ror':
            new = mk(args[0])
            derive(what, dict(new) | m, OrderedDict(new) | d)
        elif name == 'ior':
            new = mk(args[0])
            h = m
            h |= dict(new)
            req(h is m, '%s: made a new map', what)
            d.update(new)
        elif name == 'ormap':
            other = pool[args[0] % len(pool)]
            derive(what, m | other[0], d | other[1])
        elif name == 'reversed':
            both(what, lambda s: list(reversed(s)), pair)
        elif name == 'move':
            both(what, lambda s: s.move_to_end(args[0], last=args[1]), pair)
        elif name == 'eq':
            other = pool[args[0] % len(pool)]
            req((m == other[0]) is (d == other[1]) and (m != other[0]) is (d != other[1]) and
                (m == dict(other[1])) is (d == dict(other[1])), '%s: comparison', what)
        elif name == 'eqdict':
            new = dict(mk(args[0]))
            req((m == new) is (d == new) and m == dict(d), '%s: comparison', what)
        elif name == 'construct':
            derive(what, [lambda: ObjectMap(d), lambda: ObjectMap(dict(d)),
                          lambda: ObjectMap(m)][args[0]](), OrderedDict(d))
        compare(what)
        obs.tag(name)
        eff += big and name not in ('get', 'getitem', 'getdefault', 'contains', 'views',
                                    'reversed', 'eq', 'eqdict', 'fromkeys', 'fromkeysnone')
    # a map that was never given anything is empty, whatever happened to others
    req(len(ObjectMap()) == 0 and len(ObjectMap({})) == 0, 'a new map is not empty')
    obs.interesting(eff >= 2)


# ---------------------------------------------------------------- broadcasts

bspec = st.one_of(
    st.tuples(st.just('k'), st.sampled_from(sorted(members.KINDS))),
    st.tuples(st.just('k'), st.sampled_from(sorted(members.KINDS))),
    st.tuples(st.just('k'), st.sampled_from(sorted(members.KINDS))),
    st.tuples(st.just('p'), st.integers(0, len(members.PLAIN) - 1)),
    st.tuples(st.just('again'), st.integers(0, 5)))
ERRORS = ['AttributeError', 'TypeError', 'KeyError', 'ValueError', 'NotImplementedError',
          'StopIteration', 'RuntimeError', 'KeyboardInterrupt']
args_st = st.lists(st.one_of(st.integers(0, 5), st.none(), st.lists(st.integers(0, 2),
                                                                    max_size=2)), max_size=3)
kwargs_st = st.dictionaries(st.sampled_from(['a', 'number', 'rng_seed', 'name', 'value']),
                            st.one_of(st.integers(0, 5), st.none()), max_size=2)


@st.composite
def bc_cases(draw):
    n = draw(st.sampled_from([0, 1, 2, 3, 4, 5, 6]))
    specs = [draw(bspec) for _ in range(n)]
    ops = draw(st.lists(st.one_of(
        st.tuples(st.just('set'), st.sampled_from(['x', 'x', 'x', 'nobody']),
                  st.one_of(st.none(), st.integers(0, 5), st.just([1]), st.text(max_size=2))),
        st.tuples(st.just('do'), args_st, kwargs_st),
        st.tuples(st.just('do'), args_st, kwargs_st),
        st.tuples(st.just('donobody'), args_st),
        st.tuples(st.just('fail'), st.integers(0, 6), st.sampled_from(ERRORS), args_st),
        st.tuples(st.just('refuse'), st.integers(0, 6), st.sampled_from(ERRORS)),
        st.tuples(st.just('drop'), st.integers(0, 6)),
        st.tuples(st.just('slice'), st.integers(0, 4))), min_size=1, max_size=6))
    return draw(st.sampled_from(['group', 'map', 'source'])), specs, ops


def check_bc(case, obs):
    import builtins
    from fauxdoc.emitters.fromfields import SourceFieldGroup
    from fauxdoc.group import ObjectGroup, ObjectMap
    kind, specs, ops = case
    log = []
    objs, kinds = [], []
    for i, s in enumerate(specs):
        if s[0] == 'k':
            objs.append(members.KINDS[s[1]](i, log))
            kinds.append(s[1])
        elif s[0] == 'p':
            objs.append(members.PLAIN[s[1]])
            kinds.append(None)
        elif objs:
            objs.append(objs[s[1] % len(objs)])
            kinds.append(kinds[s[1] % len(kinds)])
    if kind == 'group':
        g = ObjectGroup(*objs)
    elif kind == 'source':
        g = SourceFieldGroup(list(objs))
    else:
        g = ObjectMap({'k%d' % i: o for i, o in enumerate(objs)})
    missing = object()

    def state():
        return [(id(o), getattr(o, 'x', missing)) for o in objs]
    for i, op in enumerate(ops):
        forms.stir('ObjectGroup ObjectMap')
        what = 'op %d %r on members %r' % (i, op, kinds)
        del log[:]
        if op[0] == 'set':
            value = list(op[2]) if isinstance(op[2], list) else op[2]
            before = state()
            req(g.setattr(op[1], value) is None, what)
            for o, k, (_, old) in zip(objs, kinds, before):
                if op[1] == 'x' and k in members.HAS_X:
                    req(getattr(o, 'x', missing) is value, '%s: %s has x=%r', what, k,
                        getattr(o, 'x', missing))
                else:
                    req(getattr(o, 'x', missing) is old, '%s: %s now has x=%r', what, k,
                        getattr(o, 'x', missing))
                    req(not hasattr(o, 'nobody'), '%s: %s got the attribute', what, k)
            if len({k in members.HAS_X for k in kinds}) == 2 and op[1] == 'x':
                obs.interesting()
                obs.tag('setattr with skipped members')
        elif op[0] == 'do':
            before = state()
            marker = object()
            args = tuple(op[1]) + (marker,)
            req(g.do_method('m', *args, **op[2]) is None, what)
            want = [(o.ident, args, op[2]) for o, k in zip(objs, kinds)
                    if k in members.HAS_M]
            req(len(log) == len(want) and all(
                a[0] == b[0] and a[2] == b[2] and len(a[1]) == len(b[1]) and
                all(x is y for x, y in zip(a[1], b[1])) for a, b in zip(log, want)),
                '%s: calls were %.300r, expected %.300r', what, log, want)
            req(state() == before, '%s: an attribute changed', what)
            if len({k in members.HAS_M for k in kinds}) == 2:
                obs.interesting()
                obs.tag('do_method with skipped members')
        elif op[0] == 'donobody':
            req(g.do_method('nobody', *op[1]) is None and not log, what)
        elif op[0] == 'fail':
            cand = [j for j, k in enumerate(kinds) if k == 'Raising']
            if not cand:
                continue
            j = cand[op[1] % len(cand)]
            bad = objs[j]
            j = next(n for n, o in enumerate(objs) if o is bad)
            bad.error = getattr(builtins, op[2])("'Raising' object has no attribute 'm'")
            try:
                g.do_method('m', *op[3])
            except BaseException as e:
                req(e is bad.error, '%s: the method raised %r, the caller got %r', what,
                    bad.error, e)
            else:
                raise Violation('%s: the error did not reach the caller' % what)
            want = [o.ident for o, k in zip(objs[:j + 1], kinds) if k in members.HAS_M]
            req([e[0] for e in log] == want, '%s: called %r, expected %r', what,
                [e[0] for e in log], want)
            bad.error = None
            obs.tag('error in a member')
            obs.interesting()
        elif op[0] == 'refuse':
            cand = [j for j, k in enumerate(kinds) if k == 'Refusing']
            if not cand:
                continue
            bad = objs[cand[op[1] % len(cand)]]
            j = next(n for n, o in enumerate(objs) if o is bad)
            bad.error = getattr(builtins, op[2])("can't set attribute 'x'")
            before = state()
            value = ['new']
            try:
                g.setattr('x', value)
            except BaseException as e:
                req(e is bad.error, '%s: setting the attribute raised %r, the caller got %r',
                    what, bad.error, e)
            else:
                raise Violation('%s: the error did not reach the caller' % what)
            bad.error = None
            reached = {id(o) for o, k in zip(objs[:j], kinds) if k in members.HAS_X}
            for o, k, (_, old) in zip(objs, kinds, before):
                req(getattr(o, 'x', missing) is (value if id(o) in reached else old),
                    '%s: %s has x=%r', what, k, getattr(o, 'x', missing))
            obs.tag('error in a member')
            obs.interesting()
        elif op[0] == 'drop' and objs:
            j = op[1] % len(objs)
            if kind == 'map':
                del g[list(g)[j]]
            else:
                del g[j]
            del objs[j], kinds[j]
        elif op[0] == 'slice' and kind != 'map':
            g = g[op[1]:]
            objs, kinds = objs[op[1]:], kinds[op[1]:]
    obs.tag(kind)


SUBS = [Sub('lists', group_cases, check_group, 4000),
        Sub('dicts', map_cases, check_map, 3000),
        Sub('broadcasts', bc_cases, check_bc, 4000),
    Sub('big', bigdocs.group_cases, bigdocs.check_group, 300, 4800),
]
