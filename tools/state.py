"""Like mutate.py, with changes of state instead of expressions: results that are
remembered, calls that are skipped, made twice or have an extra effect, errors that are
swallowed, attributes that are kept on the class. Same arguments as mutate.py.
"""
import ast
import os
import sys
import textwrap

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mutate  # noqa: E402


def mutants(src):
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    starts = [0]
    for ln in lines:
        starts.append(starts[-1] + len(ln))

    def off(line, col):
        return starts[line - 1] + len(lines[line - 1].encode()[:col].decode())

    for cls in ast.walk(tree):
        if isinstance(cls, ast.ClassDef):
            for n in ast.walk(cls):
                if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None:
                    t = n.target if isinstance(n, ast.AnnAssign) else n.targets[0]
                    if isinstance(t, ast.Attribute) and isinstance(
                            t.value, ast.Name) and t.value.id == 'self':
                        a, b = off(t.lineno, t.col_offset), off(t.end_lineno, t.end_col_offset)
                        if isinstance(n, ast.AnnAssign):
                            b = off(n.annotation.end_lineno, n.annotation.end_col_offset)
                        yield n.lineno, 'class attr', a, b, 'type(self).' + t.attr
    for parent in ast.walk(tree):
        for fn in getattr(parent, 'body', []) if isinstance(
                parent, (ast.ClassDef, ast.Module)) else []:
            if not isinstance(fn, ast.FunctionDef):
                continue
            args = fn.args
            if any(isinstance(d, ast.Name) and d.id in ('overload', 'abstractmethod')
                   for d in fn.decorator_list):
                continue
            method = isinstance(parent, ast.ClassDef) and not any(
                isinstance(d, ast.Name) and d.id in ('staticmethod', 'classmethod')
                for d in fn.decorator_list)
            names = [a.arg for a in args.posonlyargs + args.args]
            if method and not names:
                continue
            body = fn.body
            if isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
                body = body[1:]
            if not body:
                continue
            gen = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for s in body
                      for x in ast.walk(s))
            gives = gen or any(isinstance(x, ast.Return) and x.value is not None
                               for s in body for x in ast.walk(s))
            setter = any(isinstance(d, ast.Attribute) and d.attr == 'setter'
                         for d in fn.decorator_list)
            getter = any(isinstance(d, ast.Name) and d.id == 'property'
                         for d in fn.decorator_list)
            a = off(body[0].lineno, 0)
            b = off(body[-1].end_lineno, body[-1].end_col_offset)
            ind = ' ' * body[0].col_offset
            inner = src[a:b] + '\n'
            params = list(names)
            call = list(names)
            if args.vararg:
                params.append('*' + args.vararg.arg)
                call.append('*' + args.vararg.arg)
            elif args.kwonlyargs:
                params.append('*')
            for k in args.kwonlyargs:
                params.append(k.arg)
                call.append('%s=%s' % (k.arg, k.arg))
            if args.kwarg:
                params.append('**' + args.kwarg.arg)
                call.append('**' + args.kwarg.arg)
            head = ind + 'def _inner(%s):\n' % ', '.join(params) + textwrap.indent(
                inner, '    ')
            do = '_inner(%s)' % ', '.join(call)
            own = names[1:] if method else names
            extra = ([args.vararg.arg] if args.vararg else []) + (
                ['sorted(%s.items())' % args.kwarg.arg] if args.kwarg else []) + [
                k.arg for k in args.kwonlyargs]
            key = 'repr((%s,))' % ', '.join([repr(fn.name)] + own + extra)
            me = names[0] if method else None
            store = '%s.__dict__' % me if me else 'globals()'

            def out(kind, code):
                return (fn.lineno, kind + ' ' + fn.name, a, b,
                        head + textwrap.indent(textwrap.dedent(code), ind).rstrip())
            private = fn.name in ('__init__', '__new__')
            if gives and not gen and not private:
                yield out('memo', '''
                    _m = %s.setdefault('_zz_memo', {})
                    _k = %s
                    if _k not in _m:
                        _m[_k] = %s
                    return _m[_k]
                    ''' % (store, key, do))
                if me:
                    yield out('memo all', '''
                        _m = globals().setdefault('_zz_memo', {})
                        _k = %s + repr((type(%s), getattr(%s, 'rng_seed', 0), getattr(%s, '_items', 0)))
                        if _k not in _m:
                            _m[_k] = %s
                        return _m[_k]
                        ''' % (key, me, me, me, do))
                    yield out('memo until call', '''
                        _m = %s.__dict__
                        _k = %s
                        if _m.get('_zz_last', (None,))[0] == _k and _m['_zz_uses'] %% 5 != 0:
                            _m['_zz_uses'] += 1
                            return _m['_zz_last'][1]
                        _r = %s
                        _m['_zz_last'] = (_k, _r)
                        _m['_zz_uses'] = 1
                        return _r
                        ''' % (me, key, do))
                yield out('same list', '''
                    _r = %s
                    _m = %s
                    if isinstance(_r, list) and _m.get('_zz_list') == _r:
                        return _m['_zz_list']
                    if isinstance(_r, list):
                        _m['_zz_list'] = _r
                    return _r
                    ''' % (do, store))
                yield out('tuple', '''
                    _r = %s
                    return tuple(_r) if type(_r) is list else list(_r) if type(_r) is tuple else _r
                    ''' % do)
            for exc in ('ValueError', 'TypeError'):
                if not gen:
                    yield out('swallow ' + exc, '''
                        try:
                            return %s
                        except %s:
                            return None
                        ''' % (do, exc))
            if me and not gen:
                yield out('reset on error', '''
                    try:
                        return %s
                    except Exception:
                        try:
                            %s.reset()
                        except Exception:
                            pass
                        raise
                    ''' % (do, me))
                yield out('seed on error', '''
                    try:
                        return %s
                    except Exception:
                        try:
                            %s.rng.random()
                        except Exception:
                            pass
                        raise
                    ''' % (do, me))
            if setter and len(names) == 2:
                yield out('skip equal', '''
                    try:
                        if getattr(%s, %r) == %s:
                            return
                    except AttributeError:
                        pass
                    %s
                    ''' % (me, fn.name, names[1], do))
            if not gives and not private:
                for k in (2, 3):
                    yield out('skip call %d' % k, '''
                        _m = %s
                        _m['_zz_n'] = _m.get('_zz_n', 0) + 1
                        if _m['_zz_n'] != %d:
                            %s
                        ''' % (store, k, do))
                if own:
                    yield out('skip same', '''
                        _m = %s
                        _k = %s
                        if _m.get('_zz_same') != _k:
                            %s
                        _m['_zz_same'] = _k
                        ''' % (store, key, do))
            if not gen and not private:
                yield out('twice', '''
                    %s
                    return %s
                    ''' % (do, do))
            for what, stmt in (('reset', '%s.reset()' % me), ('draw', '%s.rng.random()' % me),
                               ('emit', '%s.emit()' % me),
                               ('global draw', '__import__("random").random()'),
                               ('parts reset', '%s._emitters.do_method("reset")' % me),
                               ('source reset', '%s.source.do_method("reset")' % me),
                               ('new rng', 'setattr(%s, "rng", __import__("random").Random(%s.rng_seed))' % (me, me))):
                if private or not me and what != 'global draw':
                    continue
                if what == 'source reset' and 'reset_source' not in src or (
                        what in ('draw', 'new rng', 'parts reset', 'reset', 'emit')
                        and not any(w in src for w in ('Emitter', 'Mixin'))):
                    continue
                if gen and what != 'global draw':
                    continue
                yield out('extra ' + what, '''
                    _m = globals().setdefault('_zz_busy', [])
                    if not _m:
                        _m.append(1)
                        try:
                            %s
                        except Exception:
                            pass
                        finally:
                            _m.pop()
                    return %s
                    ''' % (stmt, do))


mutate.mutants = mutants
if __name__ == '__main__':
    mutate.main(*sys.argv[1:])
