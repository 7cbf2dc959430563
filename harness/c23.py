"""C23: random unitaries are uniformly distributed."""

BOUNDS = ('three random unitaries in a row of each dimension 1, 2, 3, 4, 8 '
          '(16 thorough), for every outcome of the draws of '
          'scipy.stats.unitary_group')
OUTSIDE = ('larger dimensions; the quality of the generators of the library; '
           'constructions from other draws are not decided but only refuted, '
           'by moments of runs of the real code')
ASSUMPTIONS = ['exact real arithmetic',
               'scipy.stats.unitary_group.rvs returns independent draws from '
               'the uniform (Haar) law']


def uniform(ctx):
    """each result is a draw of its own from the uniform law, up to phase"""
    d = ctx.cfg['d']
    n = 1 if d == 1 else 3
    used = []
    for i in range(n):
        u = ctx.Unitary.random(d)
        draws = ctx.haar_draws()
        ctx.check(u.get_dimension() == d, 'dimension')
        ctx.check(ctx.is_unitary(u.get_matrix()), 'unitary')
        if d == 1:
            continue
        own = False
        for j in range(len(draws)):
            if j not in used and not own and draws[j].shape == (d, d):
                for F in (draws[j], ctx.dag(draws[j]), draws[j].T,
                          ctx.dag(draws[j]).T):
                    if ctx.sure(ctx.phase_eq(u.get_matrix(), F)):
                        own = True
                        used.append(j)
                        break
        if own:
            ctx.check(own, 'uniform')
        else:
            ctx.check(ctx.spread(
                lambda: ctx.Unitary.random(d).get_matrix(), d), 'uniform')
            break
    ctx.reach('uniform')


def jobs(tier):
    return [dict(name='uniform_d%d' % d, fn=uniform, cfg={'d': d}, conf=8,
                 must=['uniform'], cost=d)
            for d in [1, 2, 3, 4, 8] + ([16] if tier == 'thorough' else [])]
