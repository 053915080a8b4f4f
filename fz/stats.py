"""Exact tail bounds for frequency checks (no approximation, no tables)."""
import math

from .core import Violation

# A cell is reported when a count that extreme has probability < e**-26
# (about 5e-12) by the Chernoff bound.
LIMIT = 26.0


def kl(a, p):
    r = 0.0
    if a > 0:
        r += a * math.log(a / p)
    if a < 1:
        r += (1 - a) * math.log((1 - a) / (1 - p))
    return r


def check_freq(counts, probs, total, what):
    """counts: {cell: n}; probs: {cell: p}; every cell must be in probs."""
    for c, k in counts.items():
        p = probs.get(c, 0.0)
        if p <= 0 and k:
            raise Violation('%s: %r came up %d times, probability 0' % (what, c, k))
    for c, p in probs.items():
        k = counts.get(c, 0)
        if p <= 0:
            continue
        if p >= 1 - 1e-12:
            if k != total:
                raise Violation('%s: %r came up %d of %d times, expected always'
                                % (what, c, k, total))
            continue
        if total * kl(k / total, p) > LIMIT:
            raise Violation('%s: %r came up %d of %d times, expected about %.1f'
                            % (what, c, k, total, total * p))


def plackett_luce_pairs(weights):
    """Probabilities of (first, second) drawn without replacement."""
    tot = sum(weights)
    out = {}
    for i, a in enumerate(weights):
        for j, b in enumerate(weights):
            if i != j and a and b:
                out[i, j] = a / tot * b / (tot - a)
    return out


def plackett_luce_orders(weights, k):
    """Probabilities of every ordered draw of k positions."""
    out = {(): 1.0}
    for _ in range(k):
        nxt = {}
        for pre, p in out.items():
            rest = [i for i in range(len(weights)) if i not in pre and weights[i]]
            tot = sum(weights[i] for i in rest)
            for i in rest:
                nxt[pre + (i,)] = p * weights[i] / tot
        out = nxt
    return out
