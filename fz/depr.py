"""Runs accesses of module attributes and reports values and warnings.

Used in-process by C26, and as the main program of fresh interpreters.
"""
import importlib
import operator
import sys
import warnings

DEPRECATED = {
    'fauxdoc.typing': {
        'Number': ('float',), 'EmitterLikeCallable': ('EmitterLike',),
        'StrEmitterLike': ('EmitterLike[str]',), 'IntEmitterLike': ('EmitterLike[int]',),
        'BoolEmitterLike': ('EmitterLike[bool]',)},
    'fauxdoc.emitters': {'Wrap': ('WrapOne', 'WrapMany')},
    'fauxdoc.emitters.wrappers': {'Wrap': ('WrapOne', 'WrapMany')},
}
CURRENT = {
    'fauxdoc.typing': ['T', 'F', 'CT', 'SourceT', 'OutputT', 'FieldReturn', 'EmitterLike',
                       'ImplementsRNG', 'RandomEmitterLike', 'FieldLike', 'OrderedDict',
                       'UserList'],
    'fauxdoc.emitters': ['choice', 'chance', 'Choice', 'gaussian_choice', 'poisson_choice',
                         'fixed', 'Iterative', 'Sequential', 'Static', 'fromfields',
                         'BasedOnFields', 'CopyFields', 'text', 'make_alphabet', 'Text',
                         'Word', 'wrappers', 'WrapOne', 'WrapMany'],
    'fauxdoc.emitters.wrappers': ['BoundWrapper', 'WrapOne', 'WrapMany'],
    'fauxdoc.emitters.fixed': ['Iterative', 'Sequential', 'Static'],
    'fauxdoc.emitters.choice': ['Choice', 'chance', 'poisson_choice', 'gaussian_choice'],
    'fauxdoc.emitters.text': ['Word', 'Text', 'make_alphabet'],
    'fauxdoc.emitters.fromfields': ['BasedOnFields', 'CopyFields', 'SourceFieldGroup'],
    'fauxdoc.profile': ['Field', 'Schema'],
    'fauxdoc.emitter': ['Emitter'],
    'fauxdoc.mixins': ['RandomMixin', 'ItemsMixin', 'ChildrenMixin',
                       'RandomWithChildrenMixin'],
    'fauxdoc.group': ['GroupMixin', 'ObjectGroup', 'ObjectMap'],
    'fauxdoc.mathtools': ['clamp', 'poisson', 'gaussian', 'weighted_shuffle'],
    'fauxdoc.dtrange': ['dtrange', 'DateOrTimeRange'],
    'fauxdoc.warn': ['get_deprecated_attr'],
    'fauxdoc': ['dtrange', 'emitter', 'emitters', 'group', 'mathtools', 'mixins', 'profile',
                'typing', '__version__'],
}
UNKNOWN = ['Nope', 'wrap', 'Wrapp', 'number', 'Numbers', 'StrEmitter', 'WrapOneOrMany',
           '_nope', '__nope__', 'DEPRECATED_', 'WRAP', 'Emitterlike']
HOWS = ['getattr', 'default', 'hasattr', 'import', 'importas', 'dotted', 'attrgetter',
        'dir', 'star', 'two', 'sys', 'strict', 'strict import']
MISSING = 'no such attribute'


def access(how, mod, name):
    """Returns (outcome, value): outcome 'value', 'missing', 'yes', 'no', 'dir'."""
    if how == 'star':
        ns = {}
        exec('from %s import *' % mod, ns)
        return ('value', ns[name]) if name in ns else ('absent', None)
    m = importlib.import_module(mod)
    if how == 'getattr':
        try:
            return 'value', getattr(m, name)
        except AttributeError:
            return 'missing', None
    if how == 'default':
        v = getattr(m, name, MISSING)
        return ('missing', None) if v is MISSING else ('value', v)
    if how == 'hasattr':
        return ('yes' if hasattr(m, name) else 'no'), None
    if how in ('import', 'importas', 'two'):
        ns = {}
        code = {'import': 'from %s import %s' % (mod, name),
                'importas': 'from %s import %s as v' % (mod, name),
                'two': 'from %s import __name__ as n, %s, %s as v' % (mod, name, name)}[how]
        try:
            exec(code, ns)
        except ImportError:
            return 'missing', None
        return 'value', ns[name if how == 'import' else 'v']
    if how == 'dotted':
        ns = {}
        exec('import %s' % mod, ns)
        try:
            return 'value', eval('%s.%s' % (mod, name), ns)
        except AttributeError:
            return 'missing', None
    if how == 'attrgetter':
        try:
            return 'value', operator.attrgetter(name)(m)
        except AttributeError:
            return 'missing', None
    if how == 'sys':
        try:
            return 'value', getattr(sys.modules[mod], name)
        except AttributeError:
            return 'missing', None
    if how == 'dir':
        return ('yes' if name in dir(m) else 'no'), None
    if how in ('strict', 'strict import'):
        # warnings are errors
        with warnings.catch_warnings():
            warnings.simplefilter('error')
            try:
                if how == 'strict':
                    return 'value', getattr(m, name)
                ns = {}
                exec('from %s import %s' % (mod, name), ns)
                return 'value', ns[name]
            except DeprecationWarning as e:
                warned = e
            except (AttributeError, ImportError):
                return 'missing', None
        warnings.warn(warned)
        return 'refused', None
    raise ValueError(how)


def run(ops):
    """Yields (op, outcome, value, [(is_deprecation, text)]) for each access."""
    for op in ops:
        with warnings.catch_warnings(record=True) as caught:
            warnings.simplefilter('always')
            outcome, value = access(*op)
        yield op, outcome, value, [
            (issubclass(w.category, DeprecationWarning), str(w.message)) for w in caught]


def main():
    import json
    ops = json.load(sys.stdin)
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter('always')
        for mod in ops['first']:
            importlib.import_module(mod)
    out = {'import_warnings': [str(w.message) for w in caught if 'fauxdoc' in w.filename
                               or 'fauxdoc' in str(w.message)], 'ops': []}
    seen = {}
    for op, outcome, value, warned in run(map(tuple, ops['ops'])):
        key = op[1:]
        same = True
        if outcome == 'value':
            same = seen.setdefault(key, value) is value
        out['ops'].append([op, outcome, repr(value), same, warned])
    print(json.dumps(out))


if __name__ == '__main__':
    main()
