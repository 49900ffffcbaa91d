"""Deterministic enumerators of small structures (construction histories, simplest first)."""
import itertools


def traces(alpha, maxlen, minlen=0):
    for n in range(minlen, maxlen + 1):
        for w in itertools.product(alpha, repeat=n):
            yield list(w)


def trees(alpha, leaves, ops=("->", "X", "+", "*"), tau=True, maxar=3, loop3=False, canon=True):
    """All process trees with exactly `leaves` leaves. Labels are used in first-occurrence order when canon
    (label names are interchangeable), duplicates allowed."""
    def shapes(n):
        if n == 1:
            yield "L"
        # inner nodes with >= 2 children whose leaf counts sum to n
        for k in range(2, min(maxar, n) + 1):
            for parts in comps(n, k):
                for ch in itertools.product(*[list(shapes(q)) for q in parts]):
                    for op in ops:
                        if op == "*" and k != 2 and not (loop3 and k == 3):
                            continue
                        yield [op] + list(ch)

    def comps(n, k):
        if k == 1:
            yield (n,)
            return
        for a in range(1, n - k + 2):
            for r in comps(n - a, k - 1):
                yield (a,) + r

    def fill(s, it):
        if s == "L":
            return next(it)
        return [s[0]] + [fill(c, it) for c in s[1:]]
    labs = ([None] if tau else []) + list(alpha)
    for s in shapes(leaves):
        for lab in itertools.product(labs, repeat=leaves):
            if canon:
                used = []
                for x in lab:
                    if x is not None and x not in used:
                        used.append(x)
                if used != list(alpha)[:len(used)]:
                    continue
            yield fill(s, iter(lab))


def multisets(items, k):
    return itertools.combinations_with_replacement(items, k)


def canon_words(ws):
    """True if labels appear in first-occurrence order a, b, c over the concatenation (symmetry reduction)."""
    nxt, seen = 0, {}
    for w in ws:
        for x in w:
            if x not in seen:
                if x != "abcdefgh"[nxt]:
                    return False
                seen[x] = 1
                nxt += 1
    return True


def logs(alpha, maxlen, cases, minlen=1, canon=True):
    """multisets of `cases` traces"""
    ts = list(traces(alpha, maxlen, minlen))
    for c in multisets(ts, cases):
        if not canon or canon_words(c):
            yield [list(x) for x in c]


def nets(n_places, n_trans, labels, weights=(1,), maxpre=2, maxpost=2, im=None, fm=None, special=False, canon=True, minpre=1, minpost=1):
    """All nets over places 0..n-1 with im = first place, fm = last place; transitions as a multiset."""
    ps = range(n_places)

    def sides(lo, hi):
        out = []
        for k in range(lo, hi + 1):
            for c in itertools.combinations(ps, k):
                for w in itertools.product(weights, repeat=k):
                    out.append([[p, x] for p, x in zip(c, w)])
        return out
    pres, posts = sides(minpre, maxpre), sides(minpost, maxpost)
    opts = [(l, a, b) for l in labels for a in pres for b in posts]
    im = im if im is not None else [[0, 1]]
    fm = fm if fm is not None else [[n_places - 1, 1]]
    for c in itertools.combinations_with_replacement(range(len(opts)), n_trans):
        ts = [opts[i] for i in c]
        yield {"n": n_places, "trans": [[l, a, b] for l, a, b in ts], "im": im, "fm": fm}
