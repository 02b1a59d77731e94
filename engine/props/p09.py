from props.nizk import *
HARNESS = ['p09.cpp']
PRELOAD = [prog]
ASSUMPTIONS = ['SHA-256 is collision free (challenge-binding obligations)', 'the vectors of instance and proof have matching lengths']
def tasks(tier):
    sizes = [(2, 1), (2, 2), (3, 1)] + [(2, 3)] + ([(3, 2), (4, 1)] if tier == 'thorough' else [])
    return [Task('%s.verify.exact' % n, exact(n)) for n in NS] + [Task('EncRelation.verify.exact.n%d.m%d' % (n, m), er_exact(n, m), bounded='list size %d (base %d)' % (n ** m, n)) for n, m in sizes]
