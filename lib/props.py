"""Which harness cases decide which property, and within which bounds."""
from driver import Case
PROPS = {}
def P(pid, cases, **kw): PROPS[pid] = dict(cases=cases, **kw)
KL = ('common', 'man', 'auto')
def KR(tier='quick', timeout=200, covers=('all clusters populated',), defs=(), **p): return Case('kmeans_run.cpp', params=p, libs=KL, timeout=timeout, tier=tier, covers=covers, defs=defs)

P('K01', [
  KR(kind=0, what=1, n=26, d=9, k=5, t=5, it=2, lo=0, hi=3, wide=140, covers=()),
  KR(kind=0, what=1, n=19, d=17, k=11, t=4, it=2, lo=-9, hi=9, wide=400, covers=(), dt=2),
  KR(kind=2, what=1, n=19, d=17, k=11, t=4, it=2, lo=-9, hi=9, wide=400, covers=()),
  KR(kind=0, what=1, n=19, d=17, k=11, t=4, it=2, lo=-9, hi=9, wide=400, covers=(), dt=3),
  KR(kind=0, what=1, n=19, d=17, k=11, t=4, it=2, lo=-9, hi=9, wide=400, covers=(), dt=1),
  KR(kind=0, what=1, n=4, d=1, k=2, t=2, it=2, lo=-2, hi=2),
  KR(kind=0, what=1, n=3, d=2, k=2, t=2, it=2, lo=-1, hi=1),
  KR(kind=0, what=1, n=3, d=1, k=3, t=3, it=2, lo=-2, hi=2),
  KR(kind=0, what=1, n=5, d=1, k=2, t=3, it=1, lo=-4, hi=4, covers=()),
  KR(kind=0, what=1, n=4, d=1, k=2, t=2, it=1, lo=-2, hi=2, dt=2, file=1),
  KR(kind=0, what=1, n=3, d=2, k=2, t=2, it=1, lo=-1, hi=1, dt=3),
  KR(kind=0, what=1, n=3, d=2, k=2, t=1, it=1, lo=-1, hi=2, dt=2),
  KR(kind=0, what=1, n=2, d=2, k=2, t=2, it=1, lo=-1, hi=1, dt=1),
  KR(kind=2, what=1, n=4, d=1, k=2, t=2, it=2, lo=-2, hi=2),
  KR(kind=2, what=1, n=3, d=2, k=2, t=2, it=1, lo=-1, hi=1),
  KR(kind=2, what=1, n=3, d=1, k=3, t=3, it=2, lo=-2, hi=2),
  KR(kind=0, what=1, n=3, d=2, k=3, t=2, it=2, lo=-1, hi=1, tier='thorough', timeout=600),
  KR(kind=0, what=1, n=6, d=1, k=2, t=4, it=3, lo=-3, hi=3, tier='thorough', timeout=600),
  KR(kind=2, what=1, n=5, d=1, k=2, t=2, it=3, lo=-3, hi=3, tier='thorough', timeout=600),
], bounds='2..6 rows, 1..2 columns, 2..3 clusters, 1..4 threads, 2 memory nodes, 1..3 iterations; every integer value of every coordinate of rows and centers in [-4,4] (ranges per case); Euclidean, squared Euclidean, Manhattan, cosine; data in memory and from file; larger shapes with the other values fixed: 26 rows of 9 columns and 19 rows of 17 columns with 5 and 11 clusters, a few coordinates open')
P('K02', [
  KR(kind=0, what=2, n=26, d=9, k=5, t=5, it=2, lo=0, hi=3, wide=140, covers=()),
  KR(kind=2, what=2, n=26, d=9, k=5, t=5, it=2, lo=0, hi=3, wide=140, covers=()),
  KR(kind=1, what=2, n=19, d=17, k=11, t=4, it=2, lo=-9, hi=9, wide=400, covers=()),
  KR(kind=3, what=2, n=19, d=17, k=11, t=4, it=2, lo=-9, hi=9, wide=400, covers=()),
  KR(kind=0, what=2, n=4, d=1, k=2, t=2, it=2, lo=-2, hi=2),
  KR(kind=1, what=2, n=4, d=1, k=2, t=2, it=2, lo=-2, hi=2),
  KR(kind=2, what=2, n=4, d=1, k=2, t=2, it=2, lo=-2, hi=2),
  KR(kind=3, what=2, n=4, d=1, k=2, t=2, it=2, lo=-2, hi=2),
  KR(kind=0, what=2, n=3, d=1, k=3, t=2, it=2, lo=-2, hi=2),
  KR(kind=1, what=2, n=3, d=1, k=3, t=2, it=2, lo=-1, hi=1),
  KR(kind=3, what=2, n=3, d=1, k=3, t=2, it=2, lo=-1, hi=1),
  KR(kind=0, what=2, n=3, d=2, k=2, t=2, it=1, lo=-1, hi=1),
  KR(kind=1, what=2, n=3, d=2, k=2, t=3, it=2, lo=-1, hi=1),
  KR(kind=1, what=2, n=3, d=1, k=2, t=2, it=4, lo=-2, hi=2, **{'from': 4}),
  KR(kind=3, what=2, n=3, d=1, k=2, t=2, it=4, lo=-2, hi=2, **{'from': 4}),
  KR(kind=1, what=2, n=5, d=1, k=3, t=2, it=3, lo=-2, hi=2, tier='thorough', timeout=900),
  KR(kind=3, what=2, n=5, d=1, k=2, t=2, it=3, lo=-3, hi=3, tier='thorough', timeout=900),
], bounds='3..5 rows, 1..2 columns, 2..3 clusters, 2..3 threads, 1..4 iterations; every integer coordinate in [-2,2] (ranges per case); all four engines; larger shapes with the other values fixed: 26 x 9 and 19 x 17 data with 5 and 11 clusters, a few coordinates open')
P('K03', [
  KR(kind=1, what=1, n=26, d=9, k=5, t=5, it=2, lo=0, hi=3, wide=140, covers=()),
  KR(kind=1, what=1, n=19, d=17, k=11, t=4, it=2, lo=-9, hi=9, wide=400, covers=()),
  KR(kind=3, what=1, n=26, d=9, k=5, t=5, it=2, lo=0, hi=3, wide=140, covers=()),
  KR(kind=3, what=1, n=19, d=17, k=11, t=4, it=2, lo=-9, hi=9, wide=400, covers=()),
  KR(kind=1, what=1, n=4, d=1, k=2, t=1, it=2, lo=-2, hi=2, m=1, defs=('MIN_TASK_ROWS=1',)),
  KR(kind=1, what=1, n=3, d=1, k=2, t=2, it=3, lo=-2, hi=2),
  KR(kind=1, what=1, n=4, d=1, k=2, t=2, it=2, lo=-2, hi=2),
  KR(kind=1, what=1, n=3, d=1, k=3, t=2, it=2, lo=-1, hi=1),
  KR(kind=1, what=1, n=3, d=2, k=2, t=2, it=2, lo=-1, hi=1),
  KR(kind=1, what=1, n=3, d=1, k=2, t=1, it=4, lo=-2, hi=2, **{'from': 4}),
  KR(kind=3, what=1, n=3, d=1, k=2, t=2, it=3, lo=-2, hi=2),
  KR(kind=3, what=1, n=4, d=1, k=2, t=2, it=2, lo=-2, hi=2),
  KR(kind=3, what=1, n=3, d=1, k=3, t=2, it=2, lo=-1, hi=1),
  KR(kind=3, what=1, n=3, d=2, k=2, t=2, it=2, lo=-1, hi=1),
  KR(kind=1, what=1, n=4, d=1, k=3, t=1, it=2, lo=-6, hi=6, xo=1, cc=1, c0=0, c1=3, c2=4, **{'from': 2}),
  KR(kind=3, what=1, n=4, d=1, k=3, t=1, it=2, lo=-6, hi=6, xo=1, cc=1, c0=0, c1=3, c2=4, **{'from': 2}),
  KR(kind=1, what=1, n=4, d=1, k=4, t=2, it=3, lo=-6, hi=6, xo=1, cc=1, c0=-3, c1=0, c2=3, c3=4, tier='thorough', timeout=900, **{'from': 2}),
  KR(kind=3, what=1, n=5, d=1, k=3, t=2, it=3, lo=-6, hi=6, xo=1, cc=1, c0=4, c1=0, c2=3, tier='thorough', timeout=900, **{'from': 2}),
  KR(kind=1, what=1, n=5, d=1, k=3, t=2, it=4, lo=-6, hi=6, xo=1, cc=1, c0=4, c1=0, c2=3, tier='thorough', timeout=900, **{'from': 3}),
  KR(kind=1, what=1, n=4, d=1, k=3, t=2, it=3, lo=-2, hi=2, tier='thorough', timeout=1500),
  KR(kind=1, what=1, n=5, d=1, k=2, t=2, it=3, lo=-3, hi=3, tier='thorough', timeout=900),
  KR(kind=3, what=1, n=5, d=1, k=2, t=2, it=3, lo=-3, hi=3, tier='thorough', timeout=900),
], bounds='3..5 rows, 1..2 columns, 2..4 clusters, 1..2 threads, 1..4 iterations; every integer coordinate of rows and centers in [-3,3] (ranges per case), and of rows in [-6,6] listed in ascending order around given starting centers; Euclidean metric; larger shapes with the other values fixed: 26 x 9 and 19 x 17 data with 5 and 11 clusters, a few coordinates open')
def MX(op, tier='quick', covers=('done',), timeout=120, **p): return Case('matrix.cpp', params=dict(op=op, **p), libs=('common',), tier=tier, covers=covers, timeout=timeout)
P('K16', [MX(0, r=7, c=5, wide=40, covers=('done',)), MX(1, r=9, c=7, wide=40), MX(2, r=9, c=7, e=6, wide=40), MX(3, r=9, c=7, wide=40), MX(4, r=9, c=7, wide=40), MX(5, r=9, c=7, wide=40), 
  MX(0, r=2, c=3), MX(1), MX(2, covers=('done', 'rectangular product')), MX(3), MX(4), MX(5, r=2, c=2, hi=3, lo=-3, covers=('done',)), MX(5, r=1, c=3, lo=-2, hi=3, covers=('done', 'rectangular division')), MX(5, r=3, c=1, lo=-2, hi=3, covers=('done', 'rectangular division')),
  MX(6, covers=('done', 'rectangular minus a vector')), MX(7, covers=('done', 'incompatible vector')),
  MX(2, r=4, c=4, e=4, lo=-8, hi=8, tier='thorough', timeout=600), MX(3, r=5, c=5, lo=-8, hi=8, tier='thorough', timeout=600), MX(4, r=4, c=4, lo=-8, hi=8, tier='thorough', timeout=600),
], bounds='every shape up to 3x3 (4x4 and 5x5 in the thorough tier), every integer content in [-4,4] (narrower for division); larger shapes with the other values fixed: every shape up to 9 x 7, a few elements open')
def LA(tier='quick', covers=('done',), timeout=150, logic='QF_BV', **p): return Case('linalg.cpp', params=p, libs=('common',), tier=tier, covers=covers, timeout=timeout, logic=logic)
IS = ('invertible', 'singular')
P('K17', [
  LA(n=1, lo=-5, hi=5, covers=IS), LA(n=2, what=7, lo=-4, hi=4, covers=IS), LA(n=3, what=7, lo=-1, hi=1, covers=IS),
  LA(n=1, what=3, real=1, logic=''), LA(n=2, what=3, real=1, logic=''), LA(n=3, what=3, real=1, logic=''), LA(n=4, what=3, real=1, logic=''),
  LA(n=2, what=4, real=1, logic='', covers=IS), LA(n=2, what=8, real=1, logic=''), LA(n=3, what=8, real=1, logic=''), LA(n=4, what=8, real=1, logic=''),
  LA(n=4, what=5, lo=0, hi=1, covers=IS), LA(n=5, what=3, real=1, logic='', tier='thorough', timeout=600), LA(n=3, what=7, lo=-2, hi=2, covers=IS, tier='thorough', timeout=1500),
], bounds='every real matrix of order 1..4 (5 in the thorough tier) for determinant and adjoint, in exact real arithmetic; inverse for every integer matrix of order 1 ([-5,5]), 2 ([-4,4]), 3 ([-1,1]) and 4 ({0,1})')
def VC(op, tier='quick', covers=('done',), timeout=120, **p): return Case('vec.cpp', params=dict(op=op, **p), libs=('common',), tier=tier, covers=covers, timeout=timeout)
P('K18', [VC(0, n=17, wide=12, lo=-9, hi=9), VC(1, n=9, wide=9), VC(2, n=9, wide=9, covers=('done', 'different lengths')), VC(3, n=9, wide=9), VC(4, r=6, c=5, wide=30, lo=-1, hi=1), VC(0, covers=('done', 'result vector given')), VC(1), VC(2, n=3, covers=('done', 'different lengths', 'equal', 'unequal')), VC(3, n=3, lo=-3, hi=3, den=2), VC(4, lo=-2, hi=2), VC(5),
  VC(0, n=8, lo=-100, hi=100, tier='thorough', timeout=300), VC(1, n=6, lo=-50, hi=50, tier='thorough', timeout=600), VC(2, n=6, lo=-100, hi=100, tier='thorough', timeout=300), VC(3, n=4, lo=-4, hi=4, tier='thorough', timeout=900), VC(4, r=3, c=3, lo=-3, hi=3, tier='thorough', timeout=900), VC(5, k=4000, tier='thorough', timeout=300)],
 bounds='vectors of 0..3 elements (8 thorough), matrices up to 2x2 (3x3), every integer value in the stated range (halves for standardisation); powers of two for every number up to the bound; larger shapes with the other values fixed: vectors of 9 and 17 elements and 6 x 5 matrices, a few elements open')
def AC(what, tier='quick', covers=('done',), timeout=120, **p): return Case('accum.cpp', params=dict(what=what, **p), libs=('common',), tier=tier, covers=covers, timeout=timeout)
AO = ('done', 'member removed', 'member moved', 'mean of several', 'mean form undone', 'merged')
P('K09', [AC(0, l=3, d=9, wide=9, covers=('done',)), AC(1, n=3, d=6, wide=12, covers=('done',)), AC(2, wide=9, d=7, k=5), AC(3, d=9, wide=9), AC(0, l=3, d=1, covers=AO), AC(0, l=3, d=1, cls=1, iter=1, covers=AO), AC(1, n=3, covers=('done', 'means after a move')), AC(1, n=2, cls=2), AC(1, n=2, cls=3), AC(2), AC(3, d=1, lo=-2, hi=2), AC(4, d=1, covers=('done', 'sparse merge')),
  AC(0, 'thorough', AO, 900, l=4, d=1), AC(0, 'thorough', AO, 900, l=4, d=1, cls=1, iter=1), AC(0, 'thorough', AO, 900, l=3, d=2), AC(1, 'thorough', ('done', 'means after a move'), 900, n=4), AC(1, 'thorough', timeout=900, n=3, cls=3)],
 bounds='histories of 3 operations (4 thorough) over 1..2 columns, up to 3 clusters and members with every integer coordinate in the stated range; merges of up to 3 members per accumulator; all four accumulator classes; larger shapes with the other values fixed: 6..9 columns, one value in nine open')
def CT(what, tier='quick', covers=('done',), timeout=120, **p): return Case('containers.cpp', params=dict(what=what, **p), libs=('common',), tier=tier, covers=covers, timeout=timeout)
MC = ('done', 'present key erased', 'grown', 'several keys')
P('K25', [CT(0, l=2, keys=2, covers=MC), CT(0, l=2, keys=2, emp=-1, covers=MC), CT(0, l=3, keys=1, dflt=1, covers=MC), CT(1, l=3), CT(2, l=2, n=3, covers=('done', 'grown by one')),
  CT(0, l=3, keys=2, covers=MC, tier='thorough', timeout=900), CT(0, l=3, keys=3, emp=-1, covers=MC, tier='thorough', timeout=900), CT(1, l=4, tier='thorough', timeout=900), CT(2, l=3, n=4, tier='thorough', timeout=900, covers=('done', 'grown by one'))],
 bounds='histories of 2..3 operations (3..4 thorough), keys 0..2, capacities 0..2, values in [-2,2], empty values 0 and -1; flag vectors of up to 3 flags')
P('K13', [CT(3, l=6, covers=('done', 'both recycled', 'one recycled')), CT(3, l=8, tier='thorough', timeout=900, covers=('done', 'both recycled', 'one recycled'))])
def TB(what, tier='quick', covers=('done',), timeout=120, **p): return Case('table.cpp', params=dict(what=what, **p), libs=('common',), tier=tier, covers=covers, timeout=timeout)
P('K07', [TB(1, n=6, d=2, rounds=1, wide=20, lo=-3, hi=3), TB(2, n=7, d=5, dt=0, wide=30), TB(2, n=7, d=5, dt=2, wide=30), TB(2, n=7, d=5, dt=3, wide=30), TB(0, n=4, l=2, covers=('done', 'reversed pair')), TB(0, n=6, l=1, covers=('done', 'reversed pair')), TB(0, n=3, l=0, mn=1), TB(1, n=3, d=2, lo=-1, hi=1, rounds=1, covers=('done', 'three centers')), TB(1, n=3, d=1, rounds=2, covers=('done', 'three centers')), TB(1, n=4, d=1, rounds=1),
  TB(2, n=3, d=1, dt=0), TB(2, n=2, d=2, dt=0), TB(2, n=3, d=2, dt=2, covers=('done', 'three rows')), TB(2, n=3, d=2, dt=3), TB(2, n=2, d=2, dt=1, lo=-2, hi=2), TB(2, n=3, d=1, dt=1),
  TB(0, n=5, l=3, tier='thorough', timeout=900), TB(1, n=3, d=2, lo=-3, hi=3, rounds=1, tier='thorough', timeout=900), TB(1, n=4, d=1, rounds=2, tier='thorough', timeout=900), TB(2, n=4, d=2, dt=0, tier='thorough', timeout=900), TB(2, n=4, d=2, dt=3, tier='thorough', timeout=900), TB(2, n=3, d=2, dt=1, tier='thorough', timeout=900)],
 bounds='tables of 2..6 items, sequences of 1..2 writes (3 thorough), 1..4 centers and 2..3 rows with 1..2 columns, integer values in [-3,3]; all four metrics; larger shapes with the other values fixed: 6 centers and 7 rows of 5 columns, one coordinate in twenty open')
def MT(what, tier='quick', covers=('done',), timeout=120, logic='QF_BV', **p): return Case('metric.cpp', params=dict(what=what, **p), libs=('common',), tier=tier, covers=covers, timeout=timeout, logic=logic)
LV = ('done', 'longest vector')
P('K08', [MT(0, n=17, min=16, wide=8, lo=-9, hi=9, covers=LV), MT(0, n=8, min=4, wide=5, lo=-9, hi=9, covers=LV), MT(1, n=10, min=9, wide=8, covers=LV), MT(0, n=2, covers=LV), MT(0, n=3, lo=-2, hi=2, min=3), MT(0, n=1, lo=-50, hi=50, den=4), MT(0, n=3, real=1, logic='', covers=LV), MT(1, n=2, lo=-2, hi=2, covers=LV), MT(1, n=1, lo=-9, hi=9)] +
  [MT(2, n=l, covers=('done',) + tuple(c)) for l, c in [(0, ()), (1, ()), (2, ()), (3, ('metric name',)), (4, ('metric name', 'initialisation name')), (5, ('initialisation name',)), (6, ('metric name', 'initialisation name')), (7, ()), (8, ('initialisation name',)), (9, ())]] + [MT(0, 'thorough', timeout=900, n=4, lo=-3, hi=3, min=4), MT(1, 'thorough', timeout=900, n=3, lo=-2, hi=2), MT(2, 'thorough', timeout=600, n=11)],
 bounds='vectors of 1..3 elements (4 thorough): every integer or quarter value in the stated range, and every real value for the order of the metrics; every name of up to 9 characters (11 thorough); larger shapes with the other values fixed: vectors of 4..17 elements, one in eight open')
def RS(what, tier='quick', covers=('done',), timeout=120, **p): return Case('result.cpp', params=dict(what=what, **p), libs=('common',), tier=tier, covers=covers, timeout=timeout)
P('K15', [RS(0, n=9, k=6, d=5, wide=9), RS(0), RS(1, covers=('done', 'sparse ids')), RS(2, n=2, k=2, d=1, covers=('done', 'same', 'different')), RS(3, n=2, k=2, d=1), RS(1, n=5, ids=5, d=1, tier='thorough', timeout=900, covers=('done', 'sparse ids')), RS(0, n=6, k=5, d=3, tier='thorough', timeout=600)],
 bounds='1..3 rows, 1..3 clusters, 1..2 columns, up to 4 sparse ids (5 rows and ids in the thorough tier), centroid values in [-3,3]; larger shapes with the other values fixed: 9 rows, 6 clusters, 5 columns')
def FL(what, tier='quick', covers=('done',), timeout=120, **p): return Case('files.cpp', params=dict(what=what, **p), libs=('common', 'man'), tier=tier, covers=covers, timeout=timeout)
P('K12', [FL(1, n=7, d=4, wide=20, covers=('done',)), FL(2, n=8, d=4, wide=20), FL(0, n=2, d=2, covers=('done', 'seek')), FL(1, n=3, d=2, covers=('done', 'middle rows')), FL(2, n=4, d=2), FL(3, n=3, d=2, covers=('done', 'cluster written')), FL(4, n=2, d=2, covers=('short', 'done')),
  FL(0, 'thorough', ('done', 'seek'), 900, n=4, d=3), FL(1, 'thorough', ('done', 'middle rows'), 900, n=5, d=2), FL(2, 'thorough', timeout=900, n=6, d=3), FL(3, 'thorough', ('done', 'cluster written'), 900, n=4, d=3), FL(4, 'thorough', ('short', 'done'), 900, n=4, d=2)],
 bounds='files of 2..4 rows and 2 columns (6 by 3 thorough) with arbitrary contents; every first row and length of a piece, every cut of the file; 1..4 threads, 1..2 nodes; larger shapes with the other values fixed: up to 8 rows of 5 columns, a few values open')
def PT(what, tier='quick', covers=('done',), timeout=150, **p): return Case('partition.cpp', params=dict(what=what, **p), libs=('common', 'man'), tier=tier, covers=covers, timeout=timeout)
P('K04', [PT(2, n=11, d=5, k=3, t=5, lo=-9, hi=9, wide=60, nmin=11), PT(2, n=11, d=5, k=3, t=5, kind=1, lo=-9, hi=9, wide=60, nmin=11), PT(0), PT(0, kind=1, t=3, k=2), PT(1, n=5, d=2, t=6, covers=('done', 'uneven split')), PT(1, n=4, d=2, t=5, kind=1, k=2, covers=('done', 'uneven split')), PT(1, n=4, d=2, t=3, file=1, covers=('done', 'uneven split')), PT(1, n=4, d=1, t=3, file=1, kind=1, k=2, covers=('done', 'uneven split')),
  PT(2, n=3, d=1, k=2, t=3, lo=-2, hi=2, nmin=3, covers=('done', 'several threads')), PT(2, n=3, d=1, k=2, t=3, kind=1, lo=-2, hi=2, nmin=3, covers=('done', 'several threads')), PT(2, n=3, d=1, k=2, t=2, file=1, lo=-1, hi=1, nmin=3), PT(2, n=3, d=1, k=2, t=2, file=1, kind=1, lo=-1, hi=1, nmin=3),
  PT(0, t=64, tier='thorough', timeout=900), PT(1, n=9, d=3, t=10, nodes=3, tier='thorough', timeout=900), PT(1, n=9, d=3, t=10, nodes=3, kind=1, file=1, k=2, tier='thorough', timeout=900), PT(2, n=5, d=1, k=2, t=5, it=3, nmin=4, tier='thorough', timeout=900), PT(2, n=5, d=1, k=2, t=5, it=3, kind=1, nmin=4, tier='thorough', timeout=900)],
 bounds='split arithmetic: every row count up to 2^30 for 1..8 threads (64 thorough); row lookup: every content of 1..5 rows (9 thorough), 1..6 threads (10), 1..2 nodes (3), memory and file; thread independence: 3 rows (5), 2 clusters, 2 iterations (3), every integer coordinate in the stated range; larger shapes with the other values fixed: 11 rows of 5 columns over 5 threads, one coordinate open')
MTR = ('MIN_TASK_ROWS=2',)
def QU(what, tier='quick', covers=('done',), timeout=150, defs=(), **p): return Case('queue.cpp', params=dict(what=what, **p), libs=('common', 'man'), tier=tier, covers=covers, timeout=timeout, defs=defs)
P('K05', [QU(2, n=9, d=5, k=4, lo=0, hi=4, wide=40, defs=MTR, m=2), QU(0, covers=('done', 'several tasks')), QU(1), QU(0, n=9, defs=MTR, covers=('done', 'several tasks'), m=2), QU(0, n=5, defs=('MIN_TASK_ROWS=1',), covers=('done', 'several tasks'), m=1), QU(2, n=5, lo=-2, hi=2, defs=MTR, covers=('done', 'several rows'), m=2), QU(2, n=3, lo=-2, hi=2, defs=('MIN_TASK_ROWS=1',), covers=('done', 'several rows'), m=1), QU(2, n=4, lo=-1, hi=1, defs=('MIN_TASK_ROWS=1',), covers=('done', 'several rows'), m=1)],
 bounds='queue: every row count up to 40000 and column count up to 2^20 with the real task size (8192), every first row; small queues with task sizes 1 and 2; worker loop: 1..5 rows, 2 clusters, 2 rounds of assignment and k-means++ distances, task sizes 1 and 2, integer coordinates in [-2,2]; larger shapes with the other values fixed: 9 rows of 5 columns, 4 clusters, two coordinates open')
def IN(method, tier='quick', covers=('initialised', 'one iteration'), timeout=200, **p): return Case('init.cpp', params=dict(method=method, **p), libs=KL, random=True, defs=('VF_DRAW_HOOK',), tier=tier, covers=covers, timeout=timeout)
PC = ('initialised', 'one iteration', 'a row away from the centers', 'all rows coincide')
P('K10', [IN(0, kind=0, n=11, d=5, k=4, t=3, lo=0, hi=9, dt=3, uden=4, wide=40, covers=('initialised',)), IN(0, kind=1, n=11, d=5, k=4, t=3, lo=0, hi=9, uden=4, dt=2, wide=40, covers=('initialised',))] + [IN(0, kind=q, n=3, d=1, k=2, lo=-1, hi=2, uden=8, covers=PC) for q in (0, 1, 2, 3)] + [IN(0, kind=q, n=3, d=1, k=3, lo=0, hi=2, uden=4, covers=PC) for q in (0, 1, 2, 3)] +
  [IN(0, kind=0, n=3, d=2, k=2, dt=2, lo=0, hi=1, uden=4, covers=PC), IN(0, kind=1, n=3, d=2, k=2, dt=2, lo=0, hi=1, uden=4, covers=PC), IN(0, kind=0, n=3, d=1, k=2, dt=3, lo=-1, hi=1, uden=4, covers=PC), IN(0, kind=0, n=4, d=1, k=2, t=3, lo=0, hi=2, uden=4, file=1, covers=PC),
   IN(0, kind=4, n=3, d=2, k=2, lo=0, hi=1, uden=4, t=2, iter=0, covers=('initialised',))] +
  [IN(0, kind=q, n=4, d=1, k=3, lo=-1, hi=2, uden=8, t=3, covers=PC, tier='thorough', timeout=900) for q in (0, 1, 2, 3)] + [IN(0, kind=q, n=3, d=2, k=2, lo=-1, hi=1, uden=4, covers=PC, tier='thorough', timeout=900) for q in (0, 1, 2, 3)],
  bounds='3..4 rows, 1..2 columns, 2..3 centers, 1..3 threads; every integer coordinate in the stated range; every draw of the first row; every draw of the form j/8 or j/4 strictly between 0 and 1; four engines and spherical k-means; Euclidean, Manhattan, squared Euclidean and cosine distance; larger shapes with the other values fixed: 11 rows of 5 columns and 4 centers, one coordinate open')
P('K11', [IN(1, kind=0, n=6, d=6, k=2, t=3, lo=0, hi=9, wide=40, covers=('initialised',)), IN(2, kind=1, n=7, d=5, k=2, t=3, lo=0, hi=9, wide=70, covers=('initialised',))] + [IN(1, kind=q, n=3, d=1, k=2, lo=-1, hi=1) for q in (0, 1, 2, 3)] + [IN(2, kind=q, n=3, d=1, k=2, lo=-1, hi=1) for q in (0, 1, 2, 3)] + [IN(1, kind=0, n=3, d=2, k=3, lo=0, hi=1, t=3, file=1), IN(2, kind=1, n=3, d=2, k=2, lo=-1, hi=1, t=3, file=1), IN(2, kind=0, n=4, d=1, k=3, lo=0, hi=1, t=3), IN(2, kind=2, n=4, d=1, k=3, lo=0, hi=1, t=3),
   IN(1, kind=4, n=3, d=2, k=2, lo=0, hi=1, iter=0, covers=('initialised',)), IN(2, kind=4, n=3, d=2, k=2, lo=0, hi=1, iter=0, covers=('initialised',))] +
  [IN(m, kind=q, n=4, d=1, k=3, lo=-2, hi=2, t=3, tier='thorough', timeout=900) for m in (1, 2) for q in (0, 1, 2, 3)],
  bounds='3..4 rows, 1..2 columns, 2..3 centers, 2..3 threads; every integer coordinate in the stated range, every draw; four engines and spherical k-means; larger shapes with the other values fixed: 6..7 rows of 5..6 columns, one coordinate open')
def SK(what, tier='quick', covers=('done',), timeout=200, **p): return Case('skm.cpp', params=dict(what=what, **p), libs=('common', 'man'), tier=tier, covers=covers, timeout=timeout)
P('K20', [SK(0, n=9, d=5, lo=-9, hi=9, k=1, t=2, wide=20, covers=('done',)), SK(1, n=9, d=5, lo=0, hi=9, chi=3, t=3, it=2, wide=30, covers=('done',)), SK(0, n=3, d=1, lo=-4, hi=4, k=1, covers=('done', 'negative feature', 'constant feature')), SK(0, n=3, d=2, lo=-2, hi=1, k=1, covers=('done', 'negative feature', 'constant feature')), SK(1, n=3, d=2, lo=0, hi=1, chi=1, t=3, covers=('done', 'both populated')), SK(1, n=2, d=2, it=2, lo=-1, hi=0, chi=1, covers=('done', 'both populated')), SK(1, n=2, d=2, it=1, lo=0, hi=1, clo=-1, chi=2, nzc=0, covers=('done', 'both populated')),
  SK(1, n=3, d=2, lo=0, hi=2, tier='thorough', timeout=900), SK(1, n=3, d=2, it=3, lo=-1, hi=0, k=2, tier='thorough', timeout=900), SK(1, n=4, d=2, it=1, lo=0, hi=1, chi=1, tier='thorough', timeout=900)],
  bounds='2..3 rows (4 thorough), 1..2 columns, 1..2 centers, 1..3 threads, 0..2 iterations (3 thorough); every integer coordinate in the stated range, every center coordinate in halves; larger shapes with the other values fixed: 9 rows of 5 columns, two coordinates open')
def SH(tier='quick', covers=('finished and released',), timeout=200, **p): return Case('sched.cpp', params=p, libs=KL, sched=True, tier=tier, covers=covers, timeout=timeout, random=True, defs=('VF_DRAW_HOOK',))
P('K06', [SH(kind=0, p=2, what=1), SH(kind=1, p=2, what=1), SH(kind=0, p=1, what=3, it=2, file=1), SH(kind=1, p=1, what=3, it=2, file=1), SH(kind=1, p=0, what=3, kpp=1), SH(kind=0, p=0, what=3, kpp=1), SH(kind=0, p=0, what=3, n=3, k=3, t=3), SH(kind=1, p=0, what=3, n=3, k=3, t=3, nodes=2)]
          + [SH(kind=q, p=1, what=3) for q in (2, 3, 4, 5, 7)] + [SH(kind=6, p=0, what=3), SH(kind=8, p=1, what=3, n=4)]
          + [SH('thorough', kind=q, p=3, what=1, timeout=1500) for q in (0, 1)] + [SH('thorough', kind=q, p=2, what=3, it=2, timeout=1500) for q in (0, 1)] + [SH('thorough', kind=q, p=1, what=3, n=3, k=3, t=3, timeout=1500) for q in (0, 1)]
          + [SH('thorough', kind=1, p=1, what=3, kpp=1, timeout=800)] + [SH('thorough', kind=q, p=2, what=3, timeout=1500) for q in (2, 3, 4, 5, 7, 8)] + [SH('thorough', kind=6, p=1, what=3, timeout=1500)],
 bounds='every engine (k-means with and without pruning, spherical, fuzzy, hierarchical, x-means, g-means, medoids, mini-batch) from construction to destruction; 2..4 rows, 2..3 threads, 1..2 iterations; every schedule with at most 2 preemptions (3 thorough) at synchronisation points for one data set; every pair of conflicting accesses on those schedules not ordered by happens-before is a race')
def HI(tier='quick', covers=('done', 'second round'), timeout=200, **p): return Case('hier.cpp', params=p, libs=KL, sched=True, random=True, defs=('VF_DRAW_HOOK',), tier=tier, covers=covers, timeout=timeout)
RK = ('done', 'second round', 'split taken back', 'split kept'); R3 = ('done', 'third round', 'split taken back', 'split kept')
P('K14', [HI(n=4, lo=0, hi=2, it=2), HI(n=12, lo=0, hi=40, it=5, k=8, t=3, d0=0, d1=11, wide=12, covers=('done', 'second round', 'a partition converged before another')), HI(n=14, lo=0, hi=40, it=5, k=8, t=3, d0=0, d1=11, wide=14, kind=2, strict=0, covers=('done',)), HI(n=4, lo=0, hi=3, it=3, k=4, ms=1, tol4=1, d0=0, d1=3, t=4, covers=('done', 'second round', 'some rows moved')), HI(n=5, lo=0, hi=2, it=1, k=4, ms=3, d0=0, d1=4), HI(n=4, lo=0, hi=2, ms=1), HI(n=4, lo=0, hi=2, k=2, t=2), HI(n=3, d=2, lo=0, hi=1, it=3, t=3, nodes=2), HI(n=6, lo=0, hi=2, k=8, it=2, d0=0, d1=5, covers=('done', 'second round', 'third round')),
          HI(n=4, lo=0, hi=1, kind=1, k=8, t=2, it=2, covers=('done',)), HI(n=6, lo=0, hi=1, k=8, kind=1, d0=0, d1=1, covers=R3), HI(n=5, lo=0, hi=1, kind=1, k=8, d=2, d0=0, d1=1, covers=R3),
          HI(n=6, lo=0, hi=1, kind=2, k=4, strict=0, d0=0, d1=5, covers=RK), HI(n=7, lo=0, hi=1, kind=2, k=8, strict=0, t=2, d0=0, d1=6, covers=R3), HI(n=3, lo=0, hi=2, kind=2, it=2, covers=('done', 'split taken back')),
          HI('thorough', n=5, lo=0, hi=2, it=2, k=8, covers=('done', 'second round', 'third round'), timeout=800), HI('thorough', n=4, lo=0, hi=4, t=3, it=3, timeout=800), HI('thorough', n=5, lo=0, hi=2, kind=1, k=8, covers=RK, timeout=800), HI('thorough', n=6, lo=0, hi=1, k=8, kind=1, covers=R3, timeout=800), HI('thorough', n=6, lo=0, hi=1, kind=2, k=4, strict=0, covers=RK, timeout=1500), HI('thorough', n=4, lo=0, hi=3, d=2, kind=1, d0=0, d1=1, it=2, covers=('done',), timeout=800)],
 bounds='3..7 rows, 1..2 columns, at most 2, 4 or 8 clusters, 1..3 threads, 1..3 iterations per round, up to 3 rounds; every integer coordinate in the stated range; every pair of starting rows (fixed pair in the larger cases); larger shapes with the other values fixed: 12 and 14 rows with one or two open')
def XM(tier='quick', covers=None, timeout=200, **p): return Case('split.cpp', params=p, libs=KL, tier=tier, covers=covers or (('decided', 'kept', 'restored') if p.get('what') else ('assigned', 'partition of a recycled id')), timeout=timeout)
P('K23', [XM(n=3,d=2,hi=1), XM(n=3,t=2,nodes=2), XM(n=2,what=1,covers=('decided','restored')), XM(n=3,what=1,dhi=5,dmul=20), XM(n=4, what=1,dlo=1,dhi=3,d=2,dmul=20), XM(n=4,what=1,dhi=2,dden=8,covers=('decided','restored')),XM(n=5,what=1,parts=2,dhi=2,dmul=70)],
 bounds='means: 3 rows over three cluster identifiers, two rounds, every activity pattern; decision: 2..5 rows in 1..2 clusters, every side per row, every distance on the stated grid')
def AD(tier='quick', covers=None, timeout=200, **p): return Case('adtest.cpp', params=p, libs=KL, tier=tier, covers=covers or {0: ('statistic',), 1: ('decided', 'kept', 'restored', 'no variance'), 2: ('projected',)}[p.get('what', 0)], timeout=timeout)
P('K24', [AD(n=2,hi=4), AD(n=3,hi=4), AD(n=4,hi=2), AD(n=5,what=1,hi=1), AD(n=5,what=1,slo=0,shi=0), AD(n=9,what=1,slo=0,shi=0,hi=1,parts=2), AD(n=10,what=1,slo=0,shi=0,hi=1,done=1), AD(n=5,what=1,slo=1,shi=1,hi=1,sides=1), AD(n=2,d=2,what=2,lo=0), AD(n=3,d=1,what=2,t=3,nodes=2,lo=0,hi=2),
          AD('thorough',n=5,hi=3,timeout=800), AD('thorough',n=6,hi=2,timeout=800), AD('thorough',n=4,hi=5,timeout=800),AD('thorough',n=6,what=1,hi=2,slo=0,shi=0,timeout=800), AD('thorough',n=5,what=1,hi=2,timeout=800), AD('thorough',n=3,d=2,what=2,t=2,timeout=800)],
 bounds='samples of 2..5 values (6 thorough), every integer value in the stated range; 1..2 clusters of 4..5 rows, all five levels; projections of 2..3 rows in 1..2 columns')
def FC(tier='quick', covers=('done', 'a row on a center'), timeout=200, **p): return Case('fcm.cpp', params=p, libs=('common', 'man'), tier=tier, covers=covers, timeout=timeout)
P('K19', [FC(n=11, d=3, k=4, t=3, it=2, lo=0, hi=9, clo=0, chi=9, wide=50, covers=('done',)), FC(n=11, d=3, k=4, t=3, it=1, lo=0, hi=9, clo=0, chi=9, wide=50, dt=1, covers=('done',)), FC(n=3, d=1), FC(n=3, d=1, dt=2, lo=-1, hi=1, clo=-1, chi=1, cden=2), FC(n=3, d=2, t=3, lo=0, hi=1, clo=0, chi=1, dt=3), FC(n=2, d=2, dt=1, lo=-1, hi=1, clo=-1, chi=1), FC(n=3, d=1, m=3, lo=-1, hi=1, clo=-1, chi=1), FC(n=4, d=1, t=3, file=1, lo=0, hi=2, clo=0, chi=2), FC(n=3, d=1, k=3, t=1, it=2, lo=0, hi=2, clo=0, chi=2, covers=('done', 'a row on a center', 'second iteration')), FC(n=3, d=1, t=2, it=2, lo=0, hi=2, clo=0, chi=1, covers=('done', 'a row on a center', 'second iteration')),
  FC('thorough', timeout=900, n=4, d=1), FC('thorough', timeout=900, n=3, d=2, lo=-1, hi=1, clo=-1, chi=1), FC('thorough', timeout=900, n=3, d=1, k=3), FC('thorough', ('done', 'a row on a center', 'second iteration'), 900, n=3, d=1, k=2, it=2)],
 bounds='2..4 rows, 1..2 columns, 2..3 clusters, 1..3 threads, 1..2 iterations, fuzziness 2 and 3; every integer coordinate of rows and centers in the stated range (centers in halves in one case); four metrics; larger shapes with the other values fixed: 11 rows of 3 columns, 4 centers, 3 threads')
def MD(tier='quick', covers=('done', 'medoid replaced', 'every row sampled'), timeout=200, **p): return Case('medoids.cpp', params=p, libs=('common', 'man'), random=True, defs=('VF_DRAW_HOOK',), tier=tier, covers=covers, timeout=timeout)
LM = ('done', 'medoid replaced', 'every row sampled', 'labels moved')
P('K21', [MD(n=7, d=1, it=4, t=1, k=2, lo=0, hi=60, wide=8, first=3, covers=('done',)), MD(n=8, d=3, it=1, t=3, k=2, lo=0, hi=9, wide=50, covers=('done',)), MD(n=4, d=1, it=2, lo=0, hi=2), MD(n=3, d=1, it=2, full=0, rate=4, lo=0, hi=2, covers=LM), MD(n=3, d=2, it=1, dt=0, lo=0, hi=1), MD(n=3, d=2, it=1, dt=1, lo=0, hi=1), MD(n=3, d=2, it=0, dt=2, lo=0, hi=3, covers=("done",)), MD(n=3, d=1, it=1, dt=3, lo=0, hi=3), MD(n=4, d=1, it=1, t=3, nodes=2, file=1, dt=3, lo=0, hi=1), MD(n=4, d=1, it=1, k=3, t=1, lo=0, hi=1),
  MD('thorough', LM, 1500, n=5, d=1, it=3, lo=0, hi=2), MD('thorough', LM, 1500, n=4, d=1, it=2, full=0, rate=4, lo=0, hi=2), MD('thorough', LM, 1500, n=4, d=1, it=2, k=3, t=3, lo=0, hi=3), MD('thorough', timeout=1500, n=4, d=2, it=1, dt=0, lo=0, hi=1)],
  bounds='3..5 rows, 1..2 columns, 2..3 clusters, 1..3 threads, 1..2 memory nodes, 0..3 iterations; every integer coordinate in [0,3] (ranges per case); every pair of starting rows; every row sampled, or every subset of the rows sampled in each iteration; all four metrics; data in memory and from file; larger shapes with the other values fixed: 8 rows of 3 columns over 3 threads, 7 rows over 4 iterations from a fixed first row')
def MB(tier='quick', covers=('done', 'nothing sampled', 'everything sampled', 'a center moved'), timeout=200, **p): return Case('minibatch.cpp', params=p, libs=('common', 'man'), random=True, defs=('VF_DRAW_HOOK',), tier=tier, covers=covers, timeout=timeout)
P('K22', [MB(n=5, d=5, it=1, t=3, k=3, mb=3, lo=0, hi=9, chi=9, wide=60, covers=('done',)), MB(n=3, d=1, it=1, lo=0, hi=2), MB(n=3, d=1, it=2, t=1, lo=0, hi=1, chi=1, cden=2), MB(n=2, d=2, it=1, dt=2, mb=1, lo=0, hi=2, chi=1), MB(n=3, d=1, it=2, mb=3, lo=0, hi=2, covers=('done', 'everything sampled', 'a center moved')), MB(n=3, d=1, it=2, tol=3, lo=0, hi=2, covers=('done', 'stopped early')), MB(n=3, d=1, it=1, file=1, nodes=2, dt=3, lo=0, hi=2), MB(n=3, d=1, it=1, kpp=1, lo=0, hi=2, covers=('done',)),
  MB('thorough', timeout=1500, n=4, d=1, it=1, lo=0, hi=2, t=3, mb=3), MB('thorough', timeout=1500, n=3, d=1, it=3, t=2, lo=0, hi=1, chi=1), MB('thorough', timeout=1500, n=3, d=1, it=1, k=3, lo=0, hi=2), MB('thorough', ('done',), 1500, n=4, d=1, it=2, kpp=1, lo=0, hi=2)],
  bounds='2..4 rows, 1..2 columns, 2..3 clusters, 1..3 threads, 1..2 memory nodes, batches of 1 to all rows, 0..3 iterations; every integer coordinate in [0,2] (centers also half steps), every subset of the rows sampled in each iteration, rows equally near to two centers left out; stopping by tolerance; Euclidean, squared Euclidean, Manhattan; data in memory and from file; given centers or k-means++; larger shapes with the other values fixed: 5 rows of 5 columns, 3 clusters')
def LT(tier='quick', covers=('stopped by the tolerance', 'no label changed', 'the limit ends the run'), timeout=200, **p): return Case('limits.cpp', params=p, libs=KL, random=True, defs=('VF_DRAW_HOOK',), tier=tier, covers=covers, timeout=timeout)
AR = ('accepted', 'rejected'); TL = ('stopped by the tolerance', 'the limit ends the run')
P('K27', [LT(kind=q, n=4, it=4, lo=0, hi=4, chi=4, sorted=1, covers=("stopped by the tolerance", "no label changed")) for q in (0, 1, 2, 3)] + [LT(kind=q, n=3, it=3, lo=0, hi=2, covers=('stopped by the tolerance', 'no label changed')) for q in (0, 1, 2, 3)] + [LT(kind=4, n=3, d=2, it=2, lo=0, hi=1, covers=('stopped by the tolerance',)), LT(kind=6, what=3, n=3, it=3, t=1, lo=0, hi=2, covers=TL), LT(kind=5, n=4, it=1, lo=0, hi=2)]
  + [LT(kind=q, what=1, covers=AR if q > 1 else ('accepted',)) for q in (0, 1, 2, 3)] + [LT(kind=q, what=2, init=i, len=l, covers=AR) for q, i, l in ((0, 0, 4), (0, 1, 4), (1, 0, 6), (1, 1, 5), (2, 0, 3), (2, 1, 6), (3, 0, 4), (3, 1, 8), (4, 1, 6), (5, 0, 4))]
  + [LT('thorough', ('stopped by the tolerance', 'no label changed'), 1500, kind=q, n=4, it=4, lo=0, hi=4, chi=4) for q in (0, 1, 2, 3)] + [LT('thorough', ('stopped by the tolerance',), 1500, kind=4, n=4, d=2, it=3, lo=0, hi=1), LT('thorough', ('no label changed',), 900, kind=5, n=4, it=3, lo=0, hi=2)] + [LT('thorough', ('stopped by the tolerance',), 1500, kind=q, n=4, k=3, it=4, lo=0, hi=3, chi=3, sorted=1) for q in (0, 1, 2, 3)],
  bounds='3..4 rows, 1..2 columns, 2..3 clusters, 2 threads, iteration limits 0..4; every integer coordinate of rows and centers in [0,4] (ranges per case), every tolerance in quarters from -1/4 to 3/4 (fuzzy c-means: 0 to 2); every number of clusters from 0 to rows+2; every option name of 3 to 8 lower case letters')
def DS(tier='quick', covers=('done',), timeout=200, **p): return Case('dist.cpp', params=p, libs=('common', 'man', 'dist'), random=True, defs=('VF_DRAW_HOOK',), incl=('vf_stream.h',), tier=tier, covers=covers, timeout=timeout)
DC = ('done', 'labels moved')
P('K26', [DS(kind=0, n=14, d=4, k=4, np=4, t=2, nodes=2, it=2, lo=0, hi=9, chi=9, wide=40), DS(kind=1, n=14, d=4, k=4, np=4, t=2, nodes=2, it=2, lo=0, hi=9, chi=9, wide=40), DS(kind=0, n=7, d=1, k=3, np=5, t=1, it=2, lo=0, hi=9, chi=9, wide=5), DS(kind=0, n=5, d=1, np=3, it=1, init=3, lo=0, hi=2, wide=3)] + [DS(covers=DC, kind=q, n=3, it=2, lo=0, hi=2) for q in (0, 1)] + [DS(covers=DC, kind=q, n=4, it=3, lo=0, hi=2, chi=1) for q in (0, 1)] + [DS(kind=q, n=4, it=2, np=3, lo=0, hi=1) for q in (0, 1)] + [DS(kind=q, n=3, d=2, it=1, dt=2, lo=0, hi=1) for q in (0,)] + [DS(kind=0, n=3, it=2, dt=3, lo=0, hi=2)]
  + [DS(kind=q, n=5, it=1, np=2, t=2, nodes=2, lo=0, hi=1, chi=1) for q in (0, 1)] + [DS(kind=q, n=3, it=2, init=i, lo=0, hi=2) for q in (0, 1) for i in (1, 2)] + [DS(kind=q, n=3, it=1, init=3, lo=0, hi=2) for q in (0, 1)] + [DS(kind=q, n=3, it=2, np=1, lo=0, hi=2) for q in (0, 1)]
  + [DS(covers=('done', 'stopped by the tolerance'), kind=q, n=4, it=3, tol=1, np=3 - q, sorted=1, lo=0, hi=1) for q in (0, 1)]
  + [DS('thorough', DC, 1500, kind=q, n=5, it=3, np=2, t=2, lo=0, hi=2) for q in (0, 1)] + [DS('thorough', DC, 1500, kind=q, n=5, it=2, np=3, lo=0, hi=2) for q in (0, 1)] + [DS('thorough', DC, 1500, kind=q, n=4, k=3, it=2, lo=0, hi=2) for q in (0, 1)] + [DS('thorough', DC, 1500, kind=q, n=4, it=2, init=i, lo=0, hi=2) for q in (0, 1) for i in (1, 2, 3)] + [DS('thorough', ('done',), 1500, kind=q, n=4, d=2, it=2, lo=0, hi=1) for q in (0, 1)],
  bounds='1..3 processes with 1..2 threads and 1..2 memory nodes each, 3..5 rows (at least one per process), 1..2 columns, 2..3 clusters, 1..3 iterations; every integer coordinate in [0,2] (ranges per case); starting centers given, Forgy, random partition, k-means++, every outcome of the draws (equal on all processes; weights of k-means++ in quarters); tolerance off or every quarter in [-1/4,3/4]; full engine: Euclidean, squared Euclidean, Manhattan, pruned engine: Euclidean; one thread schedule per process (threads: see K06); larger shapes with the other values fixed: 14 rows of 4 columns over 4 processes, 7 rows over 5, k-means++ with 5 rows over 3')
def RE(tier='quick', covers=('done', 'a later start is better', 'starts differ'), timeout=200, **p): return Case('restarts.cpp', params=p, libs=KL, random=True, defs=('VF_DRAW_HOOK',), tier=tier, covers=covers, timeout=timeout)
P('K28', [RE(n=3, lo=0, hi=3), RE(n=3, lo=0, hi=3, dt=3, file=1, t=1), RE(n=3, s=3, lo=0, hi=3, sorted=1, uden=4, t=1), RE(covers=('done',), n=4, d=1, t=3, lo=0, hi=1), RE(covers=('done',), n=2, d=2, t=1, dt=2, lo=0, hi=1), RE(covers=('done',), n=3, k=3, lo=0, hi=1, t=1, uden=4),  RE(covers=('done',), n=3, s=1, lo=0, hi=3), RE(covers=('done',), n=3, d=2, lo=0, hi=2, dt=2, sorted=1, uden=2),
  RE('thorough', timeout=1500, n=4, lo=0, hi=3, sorted=1, uden=4), RE('thorough', timeout=1500, n=4, k=3, lo=0, hi=3, sorted=1, uden=2), RE('thorough', timeout=1500, n=3, s=4, lo=0, hi=3, sorted=1, uden=2), RE('thorough', timeout=1500, n=3, s=3, lo=0, hi=4, file=1)],
  bounds='2..4 rows, 1..2 columns, 2..3 clusters, 1..4 starts, 1..3 threads; every integer coordinate in [0,4] (ranges per case), every first draw of each start, every weight draw in halves to eighths inside (0,1), draws exactly on the border between two rows left out; Euclidean (1 column), squared Euclidean, Manhattan; data in memory and from file')
def PG(prog, tier='quick', covers=('written',), timeout=200, **p): return Case('prog.cpp', 'prog_%s_%s' % (prog, '_'.join('%s%s' % q for q in p.items())), params=p, libs=('common', 'man', 'dist' if prog == 'knord' else 'auto', 'exec/%s.cpp' % prog), random=True, defs=('VF_DRAW_HOOK', 'main=program_main', 'PROG_' + prog), incl=('vf_stream.h',), tier=tier, covers=covers, timeout=timeout)
PGS = ('knori', 'mb_knori', 'knord', 'fcm', 'skmeans', 'medoids', 'xmeans', 'gmeans', 'hmeans', 'kmeanspp')
P('K29', [PG('knori', centers=1, dist=4, prune=1, omp=1, hi=2), PG('knori', iters=2, tol=1, init=3, omp=1, prune=1, n=3, hi=2), PG('knori', covers=('written', 'nothing written'), noout=1, mkfail=1, nodes=2, threads=1)] + [PG(q, covers=('rejected',), bad=3, maxit=1, n=3, hi=2, d=2) for q in PGS] + [PG('mb_knori', extra=2, maxit=1, n=3, hi=2, draws=1)]
  + [PG(q, centers=1, dist=4, extra=2, maxit=1, n=3, hi=2) for q in PGS if q not in ('knori', 'kmeanspp')] + [PG(q, tol=1, extra=1, init=3, prune=1, n=3, hi=2, **(dict(maxit=2) if q == 'mb_knori' else dict(iters=2))) for q in PGS if q not in ('knori', 'kmeanspp', 'gmeans')] + [PG('gmeans', tol=1, iters=2, n=3, hi=2), PG('gmeans', extra=1, strict=1, maxit=2, n=3, hi=2)] + [PG('kmeanspp', dist=4, extra=2)]
  + [PG('knori', 'thorough', centers=1, dist=4, prune=1, omp=1, iters=3, tol=2, init=3, timeout=700)] + [PG(q, 'thorough', tol=2, extra=2, init=3, prune=1, threads=1, nodes=2, draws=1, timeout=500, **(dict(maxit=2) if q in ('mb_knori', 'gmeans') else dict(iters=3))) for q in PGS if q not in ('knori', 'kmeanspp')] + [PG('kmeanspp', 'thorough', dist=4, extra=2, draws=1, sym=2, timeout=500)],
  bounds='main() of all programs but gmm, over a stand-in for the option parser that hands over symbolic option values; 3-4 rows of 1 column, one row of value 1-2 (4) and given centers symbolic, k=2 (up to 4 clusters in the hierarchical programs), 1-2 threads and nodes, 0-2 iterations or the default limit, every metric, initialisation, tolerance (absent, 0.5, -1) and program-specific option; default schedule; draws 1/8 and every row pick; coordinates compared as values before formatting (formatting of doubles and the parser itself outside)')
