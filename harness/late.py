"""Late parts of long random sequences: two of the parts are drawn freely,
the draws of the others take fixed values, and the pair has the law of two
independent draws."""


def influence(ctx, run, key, n, seed):
    """the draws each part depends on; none if that is out of reach"""
    with ctx.held(seed) as p:
        base = run()
    if p.n > 40 or not p.n:
        return None
    base = [key(x) for x in base]
    of = [[] for _ in range(n)]
    for i in range(p.n):
        with ctx.held(seed, other=i):
            out = run()
        if len(out) != n:
            return None
        for k, x in enumerate(out):
            if key(x) != base[k]:
                of[k].append(i)
    return of


def pair(ctx, run, key, N, single, seed=1, every=None, at=int):
    """`run()` makes N parts, `key` names one, the last one and any one before
    it being drawn freely; the draws of part i make the part at index at(i);
    `single` is the law of one part"""
    with ctx.held(seed) as p:
        out = run()
    ctx.check(len(out) == N, 'number of parts')
    if len(out) != N:
        ctx.cut()
    j = ctx.choice('part', every or list(range(N - 1)))
    per, rest = divmod(p.n, N)
    if rest or not per:
        # parts do not take the same number of draws each
        of = ctx.once('influence', lambda: influence(ctx, run, key, N, seed))
        free = of and sorted(set(of[at(j)] + of[at(N - 1)]))
        if not free or len(free) > 8:
            ctx.reach('pair')
            return
    else:
        free = list(range(j * per, j * per + per)) + list(
            range((N - 1) * per, N * per))
    with ctx.held(seed, free=free):
        out = run()
    ctx.check(len(out) == N, 'number of parts')
    if len(out) != N:
        ctx.cut()
    ctx.outcome('parts %d and %d' % (j + 1, N), (key(out[at(j)]),
                                                 key(out[at(N - 1)])))
    ctx.expect('parts %d and %d' % (j + 1, N), {
        (a, b): x * y for a, x in single.items() for b, y in single.items()})
    ctx.reach('pair')


def last(ctx, run, key, lengths, single, seed='low'):
    """`run(n)` makes n parts; the last one has the law `single` whatever the
    ones before it, whose draws take fixed values"""
    n = ctx.choice('parts', lengths)

    def aligned():
        n = min(5, max(lengths))
        for s in (7, 8):
            with ctx.held(s):
                a = run(n - 1)
            with ctx.held(s):
                b = run(n)
            if len(a) != n - 1 or len(b) != n or [
                    key(x, n - 1) for x in a] != [key(x, n) for x in b[:-1]]:
                return False
        return True

    def before():
        with ctx.held(seed) as p:
            run(n - 1)
        with ctx.held(seed) as p2:
            run(n)
        return p.n, p.n <= p2.n and ctx.once('aligned', aligned)
    draws, ok = ctx.once('before %d' % n, before)
    if not ok:
        ctx.reach('last')   # draws are not made part by part
        return
    with ctx.held(seed, draws):
        out = run(n)
    ctx.check(len(out) == n, 'number of parts')
    if len(out) != n:
        ctx.cut()
    ctx.outcome('part %d' % n, key(out[-1], n))
    ctx.expect('part %d' % n, single)
    ctx.reach('last')
