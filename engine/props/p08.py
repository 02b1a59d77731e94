from props.nizk import *
HARNESS = ['p08.cpp']
PRELOAD = [prog]
ASSUMPTIONS = ['encryption relation: list size N = n^m and Pedersen key at least n*m long (as Setup is used); bounded sizes, see the bounded tasks']
def tasks(tier):
    ts = [Task('%s.completeness' % n, complete(n)) for n in NS] + [Task('%s.fresh-randomness' % n, nonces(n)) for n in NS]
    sizes = [(2, 1), (2, 2), (3, 1)] + [(2, 3)] + ([(3, 2), (4, 1)] if tier == 'thorough' else [])
    for n, m in sizes:
        for l in range(n ** m): ts.append(Task('EncRelation.completeness.n%d.m%d.l%d' % (n, m, l), er_complete(n, m, l), bounded='list size %d (base %d), witness position %d' % (n ** m, n, l)))
    return ts
