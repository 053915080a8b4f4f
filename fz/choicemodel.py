"""Reference model of Choice over histories (what may be emitted, not which)."""
from collections import Counter

from . import forms
from .core import Violation, eq, raises, req
from .gen import key, make_seq, seq_values


def distinct_count(values):
    uniq = []
    seen = set()
    for v in values:
        k = key(v)
        if k in seen:
            continue
        seen.add(k)
        if not any(v == u for u in uniq):
            uniq.append(v)
    return len(uniq)


class ChoiceModel:
    def __init__(self, values, weights, replace, roac):
        self.values = list(values)
        self.n = len(self.values)
        self.weights = None if weights is None else list(weights)
        self.replace = bool(replace or roac)
        self.roac = roac
        self.refill()

    def refill(self):
        self.pos, self.zero = self.split()

    def split(self):
        pos, zero = Counter(), Counter()
        for i, v in enumerate(self.values):
            if self.weights is None or self.weights[i]:
                pos[key(v)] += 1
            else:
                zero[key(v)] += 1
        return pos, zero

    def remaining(self):
        c = Counter(self.pos)
        c.update(self.zero)
        return c

    @property
    def num_items(self):
        if self.replace:
            return self.n
        return sum(self.pos.values()) + sum(self.zero.values())

    def rep_values(self, counter):
        by = {}
        for v in self.values:
            by.setdefault(key(v), v)
        return [by[k] for k, c in counter.items() if c]

    @property
    def num_values(self):
        if self.replace:
            return distinct_count(self.values)
        return distinct_count(self.rep_values(self.remaining()))

    @property
    def unique(self):
        return (not self.replace) and self.num_items == self.num_values

    def set_replace(self, v):
        if bool(v) != self.replace:
            self.replace = bool(v)
            if not v:
                self.roac = False
                self.refill()

    def set_roac(self, v):
        self.roac = v
        if v:
            self.set_replace(True)

    def set_weights(self, w):
        self.weights = None if w is None else list(w)
        self.refill()

    @staticmethod
    def take(value, pos, zero, what):
        k = key(value)
        if sum(pos.values()):
            if not pos[k]:
                if zero[k]:
                    raise Violation('%s: zero-weight item %r emitted although '
                                    'positively weighted items were left' % (what, value))
                raise Violation('%s: %r is not (or no longer) available; left: %r'
                                % (what, value, +pos))
            pos[k] -= 1
            if not pos[k]:
                del pos[k]
        else:
            if not zero[k]:
                raise Violation('%s: %r is not (or no longer) available; left: %r'
                                % (what, value, +zero))
            zero[k] -= 1
            if not zero[k]:
                del zero[k]

    def limit(self, n):
        """True if asking for a list of n is too much."""
        if not self.replace:
            return n > self.num_items
        return self.roac and n > 1 and n > self.n

    def accept(self, values, single, what):
        """Checks emitted values against what may be emitted; updates."""
        if not self.replace:
            for v in values:
                self.take(v, self.pos, self.zero, what)
            return
        pos, zero = self.split()
        if self.roac and not single and len(values) > 1:
            for v in values:
                self.take(v, pos, zero, what)
            return
        for v in values:
            k = key(v)
            if not pos[k]:
                if zero[k]:
                    raise Violation('%s: item %r with zero weight was chosen' % (what, v))
                raise Violation('%s: %r is not one of the items' % (what, v))

    def check_counts(self, em, what):
        eq(em.num_unique_items, self.num_items, what + ': num_unique_items')
        eq(em.num_unique_values, self.num_values, what + ': num_unique_values')
        eq(bool(em.emits_unique_values), self.unique, what + ': emits_unique_values')

    def check_settings(self, em, what):
        eq(bool(em.replace), self.replace, what + ': replace')
        eq(bool(em.replace_only_after_call), bool(self.roac),
           what + ': replace_only_after_call')
        w, c = em.weights, em.cum_weights
        if self.weights is None:
            req(w is None and c is None, '%s: weights %r / cum_weights %r should '
                'both be None', what, w, c)
            return
        req(isinstance(w, tuple) and isinstance(c, tuple),
            '%s: weights %r and cum_weights %r must be tuples', what, w, c)
        tot = 0
        cums = []
        for x in self.weights:
            tot += x
            cums.append(tot)
        req(list(w) == list(self.weights), '%s: weights are %r, expected %r',
            what, w, self.weights)
        req(list(c) == cums, '%s: cum_weights are %r, expected %r', what, c, cums)


def build_choice(spec):
    """spec: dict(items, weights, cum (bool), replace, roac, seed)."""
    from fauxdoc.emitters import Choice
    items = make_seq(spec['items'])
    kw = {}
    w = spec.get('weights')
    if w is not None:
        if spec.get('cum'):
            from .gen import cum
            kw['cum_weights'] = cum(w)
        else:
            kw['weights'] = list(w)
    return forms.make(Choice, items=items, replace=spec.get('replace', True),
                      replace_only_after_call=spec.get('roac', False),
                      rng_seed=spec.get('seed'), **kw)


def model_choice(spec):
    return ChoiceModel(seq_values(spec['items']), spec.get('weights'),
                       spec.get('replace', True), spec.get('roac', False))


def emit(em, model, op, what, obs=None):
    """Runs ('one',) or ('many', n) on both; returns emitted values or None."""
    if op[0] == 'one':
        if not model.replace and model.num_items < 1:
            raises(ValueError, what + ': exhausted emitter', forms.ask, em)
            if obs:
                obs.tag('overdraw')
            return None
        v = forms.ask(em)
        model.accept([v], True, what)
        return [v]
    n = op[1]
    if model.limit(n):
        raises(ValueError, '%s: %d values requested' % (what, n), forms.ask, em, n)
        if obs:
            obs.tag('overdraw')
        return None
    vals = forms.ask(em, n)
    req(type(vals) is list and len(vals) == n,
        '%s: em(%d) gave %.300r', what, n, vals)
    model.accept(vals, False, what)
    return vals
