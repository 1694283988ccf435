# @bound LRU caches of size 0 to 3 or without a limit, 5 (thorough: 6) operations on any keys and values; ordered sets with 4 (thorough: 5) additions and removals of any items, pairs of ordered sets of up to 3 items; functions remembered for any result, None and 0 included
# @assume keys and items are integers; containment tests are made after the other operations (whether they count as a use is left open)
from polytracker.cache import LRUCache, OrderedSet, memoize

N = 6 if THOROUGH else 5
BIG = 1 << 40


def same(a, b):
    return conj(len(a) == len(b), *[x == y for x, y in zip(a, b)])


def find(items, k):
    for i, x in enumerate(items):
        if x[0] == k:
            return i
    return None


def lru(steps):
    size = (None, 0, 1, 2, 3)[choose("size", 5)]
    c = LRUCache(size)
    model = []  # (key, value), least recently used first
    for _ in range(steps):
        op = choose("op", 3)
        k = sym("key", 0, BIG, wide=True)
        i = find(model, k)
        if op == 0:
            v = sym("value", 0, BIG, wide=True)
            c[k] = v
            if i is not None:
                del model[i]
            model.append((k, v))
            if size is not None and len(model) > size:
                del model[0]
                cover("evicted")
        elif op == 1:
            how = choose("how", 2)
            try:
                got = c[k] if how == 0 else c.get(k, None)
            except KeyError:
                got = None
            check((got is None) == (i is None), "a key is found exactly if it is stored")
            if i is not None:
                check(got == model[i][1], "the value is the one last stored")
                model.append(model.pop(i))
                cover("hit")
        else:
            try:
                del c[k]
                gone = True
            except KeyError:
                gone = False
            check(gone == (i is not None), "exactly stored keys can be deleted")
            if i is not None:
                del model[i]
        check(len(c) == len(model), "the cache holds the most recently used entries")
        if size is not None:
            check(len(c) <= size, "the cache does not exceed its size")
    return c, model


@entry
def history():
    c, model = lru(N)
    # what is left, without touching the order: each key of the model is there with its value
    for k, v in model:
        check(k in c, "the entries used most recently are kept")
        check(c.get(k, None) == v, "the value is the one last stored")


@entry
def iteration():
    c, model = lru(3)
    keys = []
    for k in c:
        keys.append(k)
        check(len(keys) <= len(model), "each key is visited once")
    check(len(keys) == len(model), "every key is visited")
    for k, _ in model:
        check(disj(*[k == x for x in keys]), "every key is visited")
    check(same([c[k] for k in keys], [model[find(model, k)][1] for k in keys]), "the values are the ones stored")
    cover("done")


@entry
def ordered_set():
    n = choose("initial", 3)
    init = [sym("item", 0, BIG, wide=True) for _ in range(n)]
    s = OrderedSet(*init)
    model = []

    def add(x):
        if find([(y,) for y in model], x) is None:
            model.append(x)
    for x in init:
        add(x)
    for _ in range(N - 1 - n):
        op = choose("op", 2)
        x = sym("item", 0, BIG, wide=True)
        if op == 0:
            s.add(x)
            add(x)
        else:
            s.discard(x)
            i = find([(y,) for y in model], x)
            if i is not None:
                del model[i]
                cover("removed")
    check(len(s) == len(model), "the number of items")
    check(same(list(s), model), "the items, in the order they were added")
    x = sym("item", 0, BIG, wide=True)
    check((x in s) == (find([(y,) for y in model], x) is not None), "containment")


@entry
def combined():
    a = [sym("a", 0, BIG, wide=True) for _ in range(choose("na", 4))]
    b = [sym("b", 0, BIG, wide=True) for _ in range(choose("nb", 3))]
    s, t = OrderedSet(*a), OrderedSet(*b)
    op = choose("op", 6)
    if op == 0:
        r = s & t
    elif op == 1:
        r = s | t
    elif op == 2:
        r = s - t
    elif op == 3:
        r = s
        r &= t
    elif op == 4:
        r = s
        r |= t
    else:
        r = s
        r -= t
    got = list(r)
    x = sym("any", 0, BIG, wide=True)
    ina, inb, inr = (disj(*[x == y for y in l]) for l in (a, b, got))
    want = conj(ina, inb) if op in (0, 3) else disj(ina, inb) if op in (1, 4) else conj(ina, neg(inb))
    check(disj(conj(want, inr), conj(neg(want), neg(inr))), "the result has exactly the items of the set operation")
    cover("done")


@entry
def remembered():
    calls = []
    value = (None, sym("value", 0, BIG), [], False)[choose("result", 4)]

    def f():
        calls.append(1)
        return value
    g = memoize(f)
    h = memoize(lambda: 7)
    check(not calls, "the function is not called before its result is needed")
    for i in range(3):
        r = g()
        check(value is r if value is None or value is False or isinstance(value, list) else r == value, "the result is the function's")
        check(len(calls) == 1, "the function is called once")
        if choose("other", 2):
            check(h() == 7, "functions do not share results")
    cover("done")
