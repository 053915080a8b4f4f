"""Puts /repo/src on the path and imports fauxdoc from there, and only there."""
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('FZ_REPO', '/repo')
SRC = os.path.join(REPO, 'src')


def setup():
    sys.dont_write_bytecode = True
    # Never read bytecode lying around in the tree either: run the source.
    sys.pycache_prefix = os.path.join(VERIF, '.no-pycache')
    for p in (SRC,):
        if p in sys.path:
            sys.path.remove(p)
        sys.path.insert(0, p)
    meta = os.path.join(VERIF, 'fz', 'meta')
    if meta not in sys.path:
        sys.path.append(meta)
    import fauxdoc
    where = os.path.realpath(fauxdoc.__file__)
    if not where.startswith(os.path.realpath(SRC) + os.sep):
        raise RuntimeError('fauxdoc imported from %s, not from %s' % (where, SRC))
    return fauxdoc
