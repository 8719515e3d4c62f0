import os
ROOT_ = os.path.dirname(os.path.abspath(__file__))
CHECKS = {}
G = 'girgs/source/Generator.cpp'; GW = 'girgs/source/WeightScaling.cpp'; HS = ['hypergirgs/source/Generator.cpp', 'hypergirgs/source/RadiusLayer.cpp', 'hypergirgs/source/AngleHelper.cpp']
def job(name, h, e, **k): return dict(name=name, h=h, e=e, **k)
def add(pid, jobs, **k): CHECKS[pid] = dict(jobs=jobs, **k)
T = dict(thorough=True)
add('C04', [job('morton_D%d_%s' % (D, v), 'cells.cpp', 'C04_morton', p={'D': D}, variant=v, t=60, cover=['morton'], validate=1 if v == 'std' else 0) for D in range(1, 6) for v in ('std', 'bmi')])
add('C07', [job('tree_D%d' % D, 'cells.cpp', 'C07_tree', p={'D': D}, t=60, cover=['tree'], validate=1) for D in range(1, 6)])
add('C05', [job('%s_D%d_L%d' % (e, D, L), 'cells.cpp', 'C05_' + e, p={'D': D, 'L': L}, t=60, q=30000) for D in range(1, 6) for L in sorted({0, 1, 2, 3, 5, min(12, 31 // D - 1), 31 // D - 1}) for e in ('point', 'nest', 'bounds') if e != 'nest' or L < 30] + [job('nest_D1_L29', 'cells.cpp', 'C05_nest', p={'D': 1, 'L': 29}, t=60, q=30000)])
add('C06', [job('%s_D%d_L%d' % (e, D, L), 'cells.cpp', 'C06_' + e, p={'D': D, 'L': L}, t=60, q=30000) for D in range(1, 6) for L in sorted({0, 1, 2, 3, 4, 5, 6, min(12, 31 // D - 1), 31 // D - 1}) for e in ('touching', 'dist') if e != 'dist' or L < 4 or (D, L) in ((1, 4), (1, 5), (1, 12), (2, 4))] + [job('distf_D%d_L%d' % (D, L), 'cells.cpp', 'C06_dist', p={'D': D, 'L': L, 'fixa': 2}, t=60, q=30000) for D in range(1, 6) for L in sorted({5, 31 // D - 1})] + [job('distf8_D%d_L%d' % (D, L), 'cells.cpp', 'C06_dist', p={'D': D, 'L': L, 'fixa': 8}, t=60, tt=600, q=60000, thorough=True) for D in range(1, 6) for L in sorted({4, 5, min(8, 31 // D - 1), min(16, 31 // D - 1), 31 // D - 1})]
   + [job('pts_D%d_L%d' % (D, L), 'cells.cpp', 'C06_points', p={'D': D, 'L': L}, t=60) for D, L in ((1, 1), (1, 2), (1, 3), (1, 4), (2, 1), (2, 2), (3, 1))])
GS = [G, GW]
def c01(D, n, s, T, **k): return job('thr_D%d_n%d_set%d_T%d%s' % (D, n, s, T, k.get('sfx', '')), 'girg.cpp', 'C01_threshold', p=dict({'D': D, 'n': n, 'set': s, 'T': T}, **{a: k[a] for a in ('lsb', 'fix', 'seed') if a in k}), srcs=GS, **{a: b for a, b in k.items() if a not in ('sfx', 'lsb', 'fix', 'seed')})
add('C01', [c01(1, 2, 0, 1), c01(1,2,0,2), c01(1,2,5,1), c01(1,3,6,1), c01(1,3,7,1), c01(1,3,1,4), c01(2,2,0,1), c01(2,2,5,2), c01(3,2,5,1), c01(4,2,4,1,fix=4), c01(5,2,4,2,fix=5), c01(2,3,3,1),c01(1,2,5,3),c01(1,2,5,5),c01(1,3,0,6,lsb=6),c01(2,2,0,7,lsb=6),c01(1,3,11,3,lsb=30,fix=1),c01(3,2,4,3,fix=3,lsb=30)])
def many(e, D, n, T, **k): v = k.pop('v', 'std'); return job('many_D%d_n%d_T%d%s' % (D, n, T, ''.join('_%s%s' % x for x in k.items())), 'girg.cpp', e, p=dict({'D': D, 'n': n, 'T': T}, **k), srcs=GS, variant=v)
CHECKS['C01']['jobs'] += [many('C01_many',1,24,1,lo=.3,hi=.32),many('C01_many',1,32,3,salt=2,lo=.7,hi=.76,layers=7,base=.01,node=7),many('C01_many',2,20,2,salt=3,lo=0,hi=.25,layers=5,base=.1),many('C01_many',1,30,1,salt=4,symd=0,layers=10,base=.003,v='nd'),many('C01_many',3,20,2,salt=5,lo=.9,base=.3,layers=6,node=3,symd=2,lsb=6),many('C01_many',1,60,4,salt=6,layers=7,lo=.5,hi=.51,node=9,v='nd'),many('C01_many',4,16,2,salt=7,lo=.2,hi=.6,base=.4,layers=4,lsb=6,node=2,v='nd')]
def c02(D, s, T, al, **k): return job('pair_D%d_set%d_T%d_a%s' % (D, s, T, al), 'girg.cpp', 'C02_pair', p=dict({'D': D, 'set': s, 'T': T, 'alpha': al}, **k.pop('pp', {})), srcs=GS, **k)
CHECKS['C01']['jobs'] += [c01(1,2,19,1),c01(1,3,19,2,lsb=6),c01(2,3,20,3,lsb=4),c01(3,2,20,1,lsb=6),c01(5,2,19,2,fix=5)]
def gbig(D, n, T, **k): return job('gbig_D%d_n%d_T%d%s' % (D, n, T, ''.join('_%s%s' % x for x in k.items())), 'girg.cpp', 'C01_big', p=dict({'D': D, 'n': n, 'T': T, 'lsb': 20 if D == 1 else 16}, **k), srcs=GS, variant='nd', t=90, tt=300, i=6e9)
CHECKS['C01']['jobs'] += [gbig(1,20000,2,symd=0,base=.05),gbig(1,20000,3,lo=.3,hi=.300004,base=.05,salt=2),gbig(2,10000,4,symd=0,base=.5,layers=4,salt=3),gbig(3,6000,2,symd=0,base=.3,layers=3,salt=4)]
add('C02', [c02(1, 0, 1, 2), c02(1, 5, 1, 2), c02(1,10,2,2,pp={'fix':1}),c02(1,5,1,1.5,pp={'fix':1}),c02(1,10,1,6.5,pp={'fix':1}),c02(2,5,1,2,pp={'fix':1}),c02(3,10,1,2,pp={'fix':2}),c02(4,10,1,1.5,pp={'fix':4}),c02(1,14,1,9,variant='nd',pp={'fix':1}),c02(2,15,2,10,variant='nd',pp={'fix':2}),c02(1,14,1,3,pp={'fix':1}),c02(1,0,1,20,variant='nd',pp={'fix':1}),c02(1,16,1,2,pp={'pch':8}),c02(1,17,3,1.3,pp={'pch':8}),c02(2,10,1,2.5,pp={'pch':8}),c02(1,17,5,30,pp={'pch':8},variant='nd'),c02(3,17,2,1.1,pp={'pch':6})]
  + [job('skips_D%d_n%d_set%d' % (D, n, s), 'girg.cpp', 'C02_skips', p={'D': D, 'n': n, 'set': s, 'alpha': 3}, srcs=GS) for D, n, s in ((1, 4, 10), (1, 5, 9), (2, 4, 10))])
CHECKS['C02']['jobs'] += [job('big_T4', 'girg.cpp', 'C02_big', p={'T': 4}, srcs=GS, t=120), job('big_small', 'girg.cpp', 'C02_big', p={'na': 300, 'nb': 257}, srcs=GS)]
def c03(D, n, s, T, **k): return job('pairs_D%d_n%d_set%d_T%d_%s' % (D, n, s, T, k.get('variant', 'std')), 'girg.cpp', 'C03_pairs', p=dict({'D': D, 'n': n, 'set': s, 'T': T, 'alpha': 2}, **k.pop('pp', {})), srcs=GS, **k)
C03 = [c03(1,4,5,1),c03(1,4,1,2,variant='nd'),c03(2,4,5,1,variant='nd'),c03(2,3,11,4,pp={'symn':1}),c03(3,4,5,2),c03(4,3,4,1),c03(5,3,4,2,variant='nd'),c03(1,6,11,1,pp={'symn':3}),c03(1,3,0,1,pp={'coarse':3}),c03(2,2,10,2,pp={'coarse':3})]
C03 += [many('C03_many',1,24,1,lo=.2,hi=.205),many('C03_many',1,40,3,salt=2,layers=7,lo=.4,hi=.45,node=11,v='nd'),many('C03_many',2,24,2,salt=3,layers=5,v='nd'),many('C03_many',3,20,4,salt=4,base=.05),many('C03_many',1,50,2,salt=5,symd=0,layers=9,base=.003,alpha=4),many('C03_many',4,16,1,salt=6,base=.05,layers=4,v='nd'),many('C03_many',5,16,3,salt=7,base=.1,layers=4,v='nd')]
HSB = ['-DGIRGS_VERIF_BLOCK=64']
def c10(n, s, R, T, **k): return job('hthr_n%d_set%d_R%s_T%d' % (n, s, R, T), 'hrg.cpp', 'C10_threshold', p=dict({'n': n, 'set': s, 'R': R, 'T': T, 'fix': n - 1}, **k.pop('pp', {})), srcs=HS, defs=HSB, variant=k.pop('variant', 'nd'), **k)
add('C10', [c10(2,0,5,1),c10(2,1,5.3,2),c10(2,4,6,1),c10(3,1,4.2,1),c10(2,0,8,1),c10(2,5,8,4),c10(3,2,3,2),c10(3,7,7,2),c10(2,0,12,1),c10(2,4,10,3),c10(2,1,16,2,t=30,tt=600),c10(2,3,14,1,pp={'na':8},t=30,tt=600),c10(2,8,9.4543,1,pp={'a0':8,'na':8}),c10(2,9,8.2,2,pp={'a0':8,'na':8}),c10(3,1,9,4),c10(2,0,5,8,pp={'fix':0}),c10(2,7,6.5,5),c10(3,3,1.2,3),c10(2,6,3.1,6),c10(2,2,20,1,pp={'na':2},t=30,tt=900)])
def c11(s, R, te, T, **k): return job('hpair_set%d_R%s_temp%s_T%d%s' % (s, R, te, T, k.get('variant', '')), 'hrg.cpp', 'C11_pair', p=dict({'set': s, 'R': R, 'temp': te, 'T': T, 'na': 8}, **k.pop('pp', {})), srcs=HS, defs=HSB, **k)
add('C11', [c11(0,5,0.5,1),c11(1,7,0.3,1),c11(0,8,0.2,1),c11(0,10,0.5,2),c11(4,9,0.8,1,variant='nd'),c11(1,3,0.9,1),c11(0,10,0.1,4,variant='nd'),c11(3,6,0.05,1),c11(8,9.4543,0.09,1,variant='nd',pp={'a0':8}),c11(9,8.2,0.06,2,variant='nd',pp={'a0':8}),c11(8,9.4543,0.3,1,pp={'a0':8}),c11(0,10,0.04,1,variant='nd'),c11(8,9.4543,0.008,1,variant='nd',pp={'a0':8})]
  + [job('hskips_n%d_set%d_R%s_temp%s' % (n, s, R, te), 'hrg.cpp', 'C11_skips', p={'n': n, 'set': s, 'R': R, 'temp': te, 'na': 3}, srcs=HS, defs=HSB) for n, s, R, te in ((3, 0, 10, .4), (4, 0, 9, .3), (4, 2, 11, .5))])
CHECKS['C11']['jobs'] += [job('hbig_T4', 'hrg.cpp', 'C11_big', p={'T': 4}, srcs=HS, defs=HSB, t=120, variant='nd'), job('hbig_small', 'hrg.cpp', 'C11_big', p={'na': 300, 'nb': 257, 'R': 15}, srcs=HS, defs=HSB, variant='nd')]
def c03h(n, s, R, te, T, **k): return job('hpairs_n%d_set%d_R%s_temp%s_T%d%s' % (n, s, R, te, T, k.get('variant', '')), 'hrg.cpp', 'C03_hrg_pairs', p=dict({'n': n, 'set': s, 'R': R, 'temp': te, 'T': T, 'na': 4}, **k.pop('pp', {})), srcs=HS, defs=HSB, **k)
add('C03', C03 + [c03h(3,0,5,.5,1),c03h(4,1,6,.3,1,variant='nd'),c03h(3,0,9,.4,2),c03h(4,7,7,.6,3),c03h(3,2,4,.9,4,variant='nd'),c03h(3,4,8,.2,8),c03h(6,7,5,.5,2,pp={'quad':1}),c03h(5,1,7,.7,9,variant='nd',pp={'quad':1}),c03h(4,7,7,.6,16,variant='nd',pp={'quad':1,'na':2}),c03(1,4,1,16,variant='nd',pp={'symn':2})])
def hmany(e, n, R, T, **k): v = k.pop('v', 'nd'); return job('hmany_n%d_R%s_T%d%s' % (n, R, T, ''.join('_%s%s' % x for x in k.items())), 'hrg.cpp', e, p=dict({'n': n, 'R': R, 'T': T}, **k), srcs=HS, defs=HSB, variant=v)
CHECKS['C10']['jobs'] += [hmany('C10_many',16,8,1,hi=.2),hmany('C10_many',40,9,3,salt=2,symd=2,node=5,na=32),hmany('C10_many',60,11,2,salt=3,symd=2,v='std'),hmany('C10_many',30,6,4,salt=4,symd=2,node=29,na=32),hmany('C10_many',150,14,2,salt=5,symd=2,span=7),hmany('C10_many',80,5,5,salt=6,symd=2),hmany('C10_many',50,20,2,salt=7,symd=2,span=12)]
def hbig(n, R, T, **k): return dict(hmany('C10_big', n, R, T, gran=1<<20, symd=0, **k), name='hbig_n%d_R%s_T%d' % (n, R, T), t=90, tt=300, i=8e9)
CHECKS['C10']['jobs'] += [hbig(4000,18,3,span=9),hbig(3000,15,2,salt=2,span=6),hbig(5000,24,5,salt=3,span=14)]
CHECKS['C03']['jobs'] += [hmany('C03_hmany',20,8,1,symd=1,hi=3.2),hmany('C03_hmany',12,5,3,symd=1,hi=6.28318530717,temp=.8,salt=11),hmany('C03_hmany',20,8,1,symd=2,na=32),hmany('C03_hmany',40,10,3,salt=2,symd=2,temp=.3,node=5),hmany('C03_hmany',80,12,2,salt=3,symd=2,temp=.7),hmany('C03_hmany',30,5,4,salt=4,symd=2,temp=.9,v='std'),hmany('C03_hmany',100,14,3,salt=5,symd=2,temp=.2,span=8)]
def c08(name, e, hyp, n, T, grain=1, th=False, **p): return job('%s_%s_n%d_T%d' % ('hyp' if hyp else 'girgs', name, n, T), 'sort.cpp', e, p=dict({'n': n, 'T': T, 'symaddr': 16 if name[:2] == 'r2' or th else 0}, **p), defs=(['-DHYP'] if hyp else []) + ['-DGIRGS_VERIF_INTSORT_GRAIN=%d' % grain], cover=['sorted'], t=60, tt=400, thorough=th)
add('C08', [j for h in (0, 1) for j in (
  c08('r2_full4', 'C08_sort2', h, 3, 1, keys=1, shift=4, minus=1), c08('r2_pow4', 'C08_sort2', h, 3, 2, keys=1, shift=4, th=True), c08('r2_pow6', 'C08_sort2', h, 2, 2, keys=1, shift=6), c08('r3_full', 'C08_sort3', h, 2, 2, keys=1, max=37), c08('r2_full7', 'C08_sort2', h, 2, 1, keys=1, shift=7, minus=2),
  c08('r2_full5', 'C08_sort2', h, 3, 1, keys=1, shift=5, minus=1, th=True), c08('r3_full', 'C08_sort3', h, 3, 3, keys=1, max=37, th=True), c08('r2_full6', 'C08_sort2', h, 4, 2, keys=1, max=21, th=True),
  c08('r8_16', 'C08_sort8', h, 3, 2, shift=16, over=1), c08('r8_17', 'C08_sort8', h, 3, 1, shift=17, minus=1, over=2), c08('r8_31', 'C08_sort8', h, 3, 4, shift=31, minus=1, over=3), c08('r8_9', 'C08_sort8', h, 4, 2, grain=2, nb=3, max=511),
  c08('r8_8', 'C08_sort8', h, 3, 1, shift=8), c08('r8_20', 'C08_sort8', h, 5, 3, grain=2, nb=2, shift=20, win=1), c08('r8_33', 'C08_sort8l', h, 3, 2, shift=33), c08('r8_1', 'C08_sort8', h, 4, 2, keys=1, max=1), c08('r8_0', 'C08_sort8', h, 2, 2, keys=1, max=0),
  c08('m8_300','C08_many8',h,300,2,max=1000),c08('m8_eq','C08_many8',h,600,3,grain=100,max=300,span=1),c08('m8_70000','C08_many8',h,70000,2+h,grain=8192,shift=24,symn=1),c08('m8_70000eq','C08_many8',h,70000,4,grain=8192,shift=17,span=3,symn=1),c08('m8_70000one','C08_many8',h,70000,1,grain=8192,shift=31,span=65000,div=3,symn=1,over=2*h),c08('m8l','C08_many8l',h,1000,5,grain=64,shift=40),c08('m3','C08_many3',h,200,3,grain=16,max=500))],
  bounds='2 to 5 elements; keys of all values up to 127 (radix width 2 and 3) and all values in windows around 0, 255, max/2, 65535 and max for radix width 8 with max keys up to 2^33; 1 to 4 threads with a lowered grain; all four overloads; 200 to 70000 elements with up to 3 symbolic keys; both copies of the sort',
  outside='more than 5 elements; keys between the windows for radix width 8')
CHECKS['C01']['jobs'] += [c01(D,n,100+i,T,fix=f,lsb=l) for i,(D,n,T,f,l) in enumerate(((1,3,2,1,12),(1,3,3,1,20),(2,2,2,2,10),(2,2,1,2,12),(3,2,4,3,10),(1,3,5,1,10),(4,2,1,4,8),(5,2,3,5,8)))]
CHECKS['C02']['jobs'] += [c02(D,100+i,T,al,pp={'fix':f} if not pc else {'pch':pc},**({'variant':'nd'} if i%2 else {})) for i,(D,T,al,f,pc) in enumerate(((1,1,60,1,0),(1,2,200,1,0),(1,3,1.01,0,8),(2,1,12,2,0),(3,2,4,3,0),(4,4,2.2,4,0),(5,1,3,5,0),(1,1,5,1,0),(2,3,50,0,8),(1,2,1.2,1,0),(5,2,300,0,6),(1,1,300,1,0)))]
CHECKS['C03']['jobs'] += [c03(1,4,101,2),c03(2,4,102,3,variant='nd'),c03(1,5,103,1,pp={'symn':3}),c03(3,4,104,2,variant='nd'),c03h(4,101,8,.5,2,variant='nd',pp={'arnd':1}),c03h(4,102,6,.95,3,variant='nd',pp={'arnd':2,'na':6}),c03h(3,103,12,.1,1,variant='nd',pp={'arnd':3,'na':8}),c03h(5,104,9,.7,5,variant='nd',pp={'arnd':4,'na':3})]
CHECKS['C10']['jobs'] += [c10(2,100+i,R,T,pp={'fix':1,'na':na}) for i,(R,T,na) in enumerate(((3.3,2,4),(4.7,1,4),(6.1,2,4),(7.7,3,4),(8.9,1,4),(2.1,2,4)))]
CHECKS['C11']['jobs'] += [c11(100+i,R,te,T,variant='nd' if i%3 else 'std',pp={'arnd':i+1,'na':16}) for i,(R,te,T) in enumerate(((6,.99,1),(9,.01,1),(11,.5,2),(14,.7,1),(7.5,.03,3),(4,.6,1),(16,.35,1),(3,.15,2),(12,.9,4),(20,.25,1),(8,.98,2),(5,.02,1)))]
def c09(D, n, s, T, lsb, **k): return job('cells_D%d_n%d_set%d_T%d%s' % (D, n, s, T, k.get('variant', '')), 'part.cpp', 'C09_cells', p=dict({'D': D, 'n': n, 'set': s, 'T': T, 'lsb': lsb}, **k.pop('pp', {})), **k)
add('C09', [c09(1,3,1,1,8),c09(1,4,2,2,8,pp={'symn':2}),c09(1,3,4,1,8,variant='nd',pp={'symn':1}),c09(2,2,0,1,8),c09(2,3,2,4,6,pp={'symn':2}),c09(3,2,1,1,8),c09(3,3,0,8,5,pp={'symn':1}),c09(4,2,1,2,5,pp={'symn':1}),c09(5,3,4,1,5,pp={'symn':1}),c09(1,6,5,3,8,pp={'symn':2}),c09(1,3,7,1,8,pp={'symn':2}),c09(2,5,7,2,5,pp={'symn':1}),c09(1,4,8,2,8,pp={'symn':1}),c09(3,6,8,3,4,pp={'symn':1},variant='nd'),c09(1,4,9,1,8,pp={'symn':2})])
CHECKS['C08']['jobs'] += [c08('small_o%d_s%d' % (o, sh), 'C08_sort8', h, n, T, shift=sh, over=o, nb=3) for h in (0, 1) for o, n, T, sh in ((0,0,1,9),(1,0,2,8),(2,0,2,9),(3,0,1,17),(0,1,2,8),(1,1,1,17),(2,1,2,25),(3,1,2,9),(0,2,3,17),(1,2,2,25),(2,2,2,9),(3,2,2,8),(3,2,1,17),(3,3,2,25),(2,2,1,8),(2,3,3,17))] + [c08('m8_o%d_s%d' % (o, sh), 'C08_many8', h, n, T, grain=32, over=o, shift=sh, symn=1) for h in (0, 1) for o, n, T, sh in ((1,400,3,8),(1,300,2,14),(2,500,4,8),(2,300,3,27),(3,700,5,12),(3,300,2,8),(0,900,6,31),(0,500,8,10))]
def c09m(D, n, T, **k): v = k.pop('v', 'std'); return job('cmany_D%d_n%d_T%d%s' % (D, n, T, ''.join('_%s%s' % x for x in k.items())), 'part.cpp', 'C09_many', p=dict({'D': D, 'n': n, 'T': T}, **k), variant=v)
CHECKS['C09']['jobs'] += [c09m(1,100,2,hi=.25),c09m(2,300,3,hi=.5),c09m(3,300,8,hi=.5),c09m(1,70000,4,lo=.5,hi=.51,v='nd'),c09m(1,400,5,symd=0,symw=1),c09m(5,300,2,lmax=2,hi=.3)]
def hy(name, e, variant='std', t=60, **p): return job(name, 'part.cpp', e, p=p, defs=['-DHYP'], srcs=HS, variant=variant, t=t)
def lay0(n, R, h, T, v, **p): return hy('lay0_n%d_R%s_h%s_T%d%s' % (n, R, h, T, v), 'C14_layers', variant=v, **dict({'n': n, 'R': R, 'h': h, 'T': T, 'zero': 1, 'symr': 1, 'syma': 1, 'lmax': 2}, **p))
add('C14', [hy('lay_n%d_R%s_h%s_T%d%s%s' % (n, R, h, T, v, sr), 'C14_layers', variant=v, n=n, R=R, h=h, T=T, symr=sr, syma=sa, lmax=lm) for n, R, h, T, v, sr, sa, lm in ((2,4,1,1,'std',2,2,3),(3,3.5,1,2,'nd',2,2,2),(2,6,1,1,'nd',2,1,4),(3,4,2,3,'nd',2,1,4),(3,2.5,.5,1,'std',3,1,2),(4,5,1,4,'nd',1,2,3))] + [lay0(2,4,1,1,'std'),lay0(3,6,1,2,'nd',symr=2),lay0(2,3,.5,3,'nd'),lay0(2,5.5,1,1,'std')])
CHECKS['C14']['jobs'] += [hy('lmany_n%d_T%d_a%d_r%d' % (n, T, sa, sr), 'C14_many', variant=v, n=n, T=T, syma=sa, symr=sr, **k) for n, T, sa, sr, v, k in ((60,2,1,0,'std',{}),(300,3,1,0,'nd',{'R':14}),(70000,5,0,0,'nd',{}),(200,8,0,1,'nd',{}),(40,4,1,1,'std',{'hi':1}))]
CHECKS['C14']['jobs'] += [hy('lmany_l%d_n%d_T%d' % (lm, n, T), 'C14_many', variant='nd', n=n, T=T, syma=sa, symr=sr, lmax=lm, salt=lm, **k) for lm, n, T, sa, sr, k in ((10,500,3,0,1,{'R':20}),(12,2000,2,1,0,{'R':25,'hi':.05}),(9,100,16,1,0,{'R':18,'h':.7,'hi':.1}),(7,60,4,0,1,{'R':9,'h':1.5}))]
CHECKS['C09']['jobs'] += [c09m(1,500,3,symd=0,symw=1,lmax=8,base=.0005,layers=7,salt=2),c09m(2,400,4,lmax=5,hi=.1,base=.001,layers=8,salt=3,v='nd'),c09m(3,1000,2,symd=0,symw=1,lmax=4,base=.003,layers=9,salt=4,v='nd'),c09m(1,3000,16,lmax=10,lo=.9,hi=.902,base=.0001,layers=12,salt=5,v='nd',lsb=12),c09m(4,500,3,symd=0,symw=1,lmax=3,base=.01,layers=6,salt=6)]
add('C12', [hy('filter_R%s_T%s_m%s' % (R, T, m), 'C12_filter', R=R, T=T, maxp=m, maxc=mc) for R, T, m, mc in ((10,.5,1,1e7),(5,.1,1,1e4),(3,.9,.4,1e3),(20,.3,.05,1e12),(1,.8,.9,1e2),(14,.05,.19,1e7),(10,.98,1,1e6),(8,.02,1,1e5),(30,.6,.01,1e15),(2,.4,.999,50),(6,.25,.0005,1e5),(10,.5,.99,1e13),(4,.9,.3,1e12),(12,.2,1,1e9))])
add('C13', [hy('point_L%d' % L, 'C13_point', L=L, win=int(L > 9)) for L in (0,1,2,3,5,7,9,13,16,20,24,27,29,30)] + [hy('touch_L%d' % L, 'C13_touch', L=L) for L in (0,1,2,3,7,15,24,30)] + [hy('dist_L%d' % L, 'C13_dist', L=L) for L in (0,1,2,3,4)] + [hy('distc_L%d' % L, 'C13_distc', L=L, ci=int(L > 5)) for L in (4,5,9,15,20,21,24,28,30)] + [hy('tree', 'C13_tree')])
add('C15', [hy('level_R%s' % R, 'C15_level', R=R, ni=7) for R in (2.5, 5, 8, 12.3, 18, 25, 1.3, 3.7, 10, 15.5, 30)])
CH = ['-DGIRGS_VERIF_CHUNK=1']
def sm(name, e, hyp=0, **p): return job(name, 'sample.cpp', e, p=p, defs=CH + (['-DHYP'] if hyp else []), srcs=HS if hyp else GS, t=60)
add('C20', [sm('w_n%d_T%d_ple%s' % (n, T, pl), 'C20_weights', n=n, T=T, ple=pl) for n, T, pl in ((1,1,2.5),(2,2,2.5),(3,1,2.1),(4,4,3),(4,2,2.9),(7,3,2.5),(20,1,2.2),(5,5,2.0001),(6,8,3.7),(12,2,5),(40,3,2.4))] + [sm('p_n%d_D%d_T%d' % (n, D, T), 'C20_positions', n=n, D=D, T=T) for n, D, T in ((1,1,1),(2,2,2),(3,5,2),(4,3,4),(5,1,3))]
  + [sm('wi_n%d_T%d' % (n, T), 'C20_indep', n=n, T=T) for n, T in ((3,1),(5,2),(4,4),(7,3))] + [sm('pi_n%d_D%d_T%d' % (n, D, T), 'C20_indep', n=n, D=D, T=T, weights=0) for n, D, T in ((2,2,1),(3,2,3),(5,1,2))])
add('C21', [sm('s%d_n%d_T%d_R%s_a%s' % (w, n, T, R, a), 'C21_sample', 1, what=w, n=n, T=T, R=R, alpha=a) for w, n, T, R, a in ((0,2,1,8,.75),(0,3,3,14,.6),(0,4,2,5,1),(1,3,1,10,1),(1,5,4,10,1),(2,2,2,9,.8),(2,3,2,20,.55),(2,1,1,12,.95),(0,0,4,5,.7),(0,3,1,1,.75),(0,5,2,30,.6),(2,4,5,25,.51),(0,7,8,12,.9),(2,40,3,15,.7))] + [sm('i%d_n%d_T%d' % (w, n, T), 'C21_indep', 1, what=w, n=n, T=T) for w, n, T in ((0,3,2),(1,4,3),(2,2,2),(2,3,1),(0,4,4))])
def smm(name, hyp=0, **p): return job(name, 'sample.cpp', 'samplers_many', p=p, defs=['-DHYP'] if hyp else [], srcs=HS if hyp else GS, variant='nd', t=60)
CHECKS['C20']['jobs'] += [smm('many_w',n=19998),smm('many_w3',n=30000,ple=2.9,ndn=2,nth=5),smm('many_p',what=1,n=19999,ndn=2,D=3),smm('many_w1',n=9999,ndn=2,ple=2.1),smm('many_p2',what=1,n=30007,ndn=1,D=1,nth=6)]
CHECKS['C21']['jobs'] += [smm('many_r',1,n=19999,ndn=2),smm('many_a',1,what=1,n=30007,ndn=1,nth=6),smm('many_ra',1,what=2,n=19999,ndn=2,nth=3,alpha=.6,R=14),smm('many_r1',1,n=9999,ndn=2)]
def sc(D, n, s, al, **p): v = p.pop('v', 'std'); return job('sc_D%d_n%d_set%d_a%s_w%s%s' % (D, n, s, al, p.get('symw', 1), ('_T%d' % p['T'] if 'T' in p else '') + ('_d%s' % p['deg'] if 'deg' in p else '') + ('_m%g' % p['wmul'] if 'wmul' in p else '')), 'scale.cpp', 'C22_scale', p=dict({'D': D, 'n': n, 'set': s, 'alpha': al, 'forksel': 1}, **p), srcs=GS, variant=v, t=60)
def scd(D, n, s, al, hi, lo=.1, **p): return sc(D, n, s, al, symw=0, deg=-lo, deghi=hi, **p)
add('C22', [sc(1,3,1,0),sc(1,2,0,0),sc(2,3,0,0),sc(1,4,2,0,T=2),sc(3,4,1,0),scd(1,5,3,0,3.5),sc(4,4,4,0),sc(5,3,5,0),sc(2,6,4,0,T=3),sc(1,3,2,0,symw=2,deg=.5),scd(2,8,5,0,6),scd(3,8,1,0,6,T=4),scd(5,6,3,0,4),scd(4,7,2,0,5),scd(1,8,5,0,6.5,T=3),sc(1,5,3,0),sc(2,5,1,0,symw=2,deg=1.2)])
CHECKS['C22']['jobs'] += [scd(1,16,6,0,12,gen=1),scd(2,40,7,0,30,gen=1,salt=2),scd(3,120,8,0,60,gen=1,salt=3),scd(1,300,9,0,21,20,gen=1,salt=4),scd(2,1000,10,0,31,30,gen=1,salt=5),scd(1,64,11,0,40,gen=1,salt=6,T=4),scd(5,30,12,0,20,gen=1,salt=7,T=3),scd(1,24,13,0,22.5,gen=1,salt=8),scd(3,60,14,0,58.5,50,gen=1,salt=9),scd(2,8,5,0,6.95,6)]
add('C23', [scd(1,4,2,1.5,2.9),scd(1,5,3,4,3.9),scd(2,5,2,1.3,3.9),scd(2,8,5,6.5,6.9),scd(1,8,3,8,6.9),scd(3,8,1,2,6,T=3),scd(4,7,4,2.5,4),scd(5,6,5,3,3,T=2),scd(1,8,5,1.2,3.5,T=4),scd(2,2,0,2,.9),scd(3,6,2,5,3),scd(1,3,0,2,1.8),dict(sc(1,3,1,2,deg=.8),t=90,thorough=True),dict(sc(1,4,2,2,T=2,deg=1.2),thorough=True),dict(sc(2,3,0,3,deg=.5),thorough=True)])
CHECKS['C23']['jobs'] += [scd(1,16,6,2,5,gen=1),scd(2,40,7,3,12,2,gen=1,salt=2),scd(3,100,8,1.5,6,5,gen=1,salt=3),scd(1,40,9,1.3,12,gen=1,salt=4),scd(2,60,10,8,50,gen=1,salt=5,T=3),scd(5,24,11,7.5,20,gen=1,salt=6),scd(4,12,12,6,10.5,gen=1,salt=7),scd(1,200,13,8,105,100,gen=1,salt=8),scd(3,8,14,5,6.9,gen=1,salt=9),scd(1,8,15,2.5,6.9,gen=1,salt=10)]
def c24(n, al, T, **p): return job('r_n%d_a%s_T%s' % (n, al, T), 'scale.cpp', 'C24_radius', p=dict({'n': n, 'alpha': al, 'T': T}, **p), srcs=HS, defs=['-DHYP'])
def c24n(n, al, T, lo, hi): return job('nk_n%d_a%s_T%s_d%s' % (n, al, T, lo), 'scale.cpp', 'C24_networkit', p={'n': n, 'alpha': al, 'T': T, 'lo': lo, 'hi': hi, 'forksel': 1}, srcs=HS, defs=['-DHYP'], variant='nd', t=25, tt=300)
add('C24', [c24(n, al, T) for n, al, T in ((10,.75,0),(1000,.6,0),(100000,1,0),(1000,.75,.5),(50,.9,.1),(10000,.55,.9),(2000000000,.8,.3),(2,.51,0),(37,5,.5),(100000,.75,.99),(5000,1.3,.01),(1000,.501,.6),(100,.8,.5))] + [c24n(n, al, T, lo, hi) for n, al, T, lo, hi in ((1000,.75,0,5,5.002),(10000,.6,0,7,7.001),(1000,.95,0,20,20.002),(100,.8,0,3,3.001),(300,.7,0,12.1,12.1005),(50,.9,0,6,6.001),(200,.65,0,4,4.0005),(1000,.75,.5,1,20),(500,.6,.9,2,9),(100000,.9,.1,1,100))])
def g16(D, n, s, T, al, **p): return job('g_D%d_n%d_set%d_T%d_a%s%s' % (D, n, s, T, al, ''.join('_%s%s' % x for x in p.items())), 'girg.cpp', 'C16_girg', p=dict({'D': D, 'n': n, 'set': s, 'T': T, 'alpha': al}, **p), srcs=GS)
def h16(n, s, R, te, T, **p): return job('h_n%d_set%d_R%s_t%s_T%d%s' % (n, s, R, te, T, ''.join('_%s%s' % x for x in p.items())), 'hrg.cpp', 'C16_hrg', p=dict({'n': n, 'set': s, 'R': R, 'temp': te, 'T': T, 'na': 2, 'search': 1}, **p), srcs=HS, defs=HSB, variant='nd', t=30, tt=300)
def s16(hyp, what, n, T, **p): return job('s%d%d_n%d_T%d%s' % (hyp, what, n, T, ''.join('_%s%s' % x for x in p.items())), 'sample.cpp', 'C16_sample', p=dict({'n': n, 'T': T, 'what': what}, **p), defs=CH + (['-DHYP'] if hyp else []), srcs=HS if hyp else GS)
add('C16', [g16(1,3,5,2,2),g16(1,3,1,3,1.5,seed=0),g16(2,3,0,2,3,s2=2,sbound=1),g16(1,4,11,4,2,s1=1,s2=0),g16(2,3,3,2,0),g16(1,2,10,1,2,seed=0),
  h16(3,0,8,.5,2),h16(3,1,7,.3,3,seed=0),h16(2,0,9,.4,2,s2=2,sbound=1),h16(3,4,10,.6,4),h16(2,7,8,.2,1,seed=0),h16(3,1,7,0,3),h16(6,7,5,.5,2,quad=1),h16(6,7,4.5,.8,3,quad=1),
  s16(0,0,4,2),s16(0,1,3,3,seed=0),s16(0,0,3,1,par=0,seed=0),s16(0,1,4,2,s2=1),s16(1,0,4,2),s16(1,1,4,3,seed=0),s16(1,2,3,2),s16(1,2,3,1,par=0,seed=0)])
CHECKS['C16']['jobs'] += [many('C16_many',1,30,2,symd=0,v='nd'),many('C16_many',1,40,3,symd=0,salt=2,layers=7,s1=2,s2=1,v='nd'),many('C16_many',2,30,4,symd=0,salt=3,seed=0,v='nd'),many('C16_many',1,24,2,lo=.2,hi=.21,salt=4,v='nd'),hmany('C16_hmany',40,9,2,symd=2),hmany('C16_hmany',60,10,3,symd=2,salt=2,temp=.3,seed=0),hmany('C16_hmany',30,7,4,symd=2,salt=3,seed=0,temp=.8)]
def h17(n, s, R, te, T, **p): v = p.pop('v', 'std'); return job('term_n%d_set%d_R%s_t%s_T%d%s_%s' % (n, s, R, te, T, ''.join('_%s%s' % x for x in p.items()), v), 'hrg.cpp', 'C17_hrg', p=dict({'n': n, 'set': s, 'R': R, 'temp': te, 'T': T, 'na': 2, 'search': 1}, **p), srcs=HS, defs=HSB, variant=v)
add('C17', [h17(2,0,8,0,2),h17(3,1,7,0,3,sbound=1),h17(1,0,5,0,2),h17(2,2,1.5,0,4,sbound=1),h17(3,0,8,.5,2,sbound=1,v='nd'),h17(1,2,1,.5,3),h17(2,0,14,0,2,sbound=1),h17(3,7,9,.3,4,sbound=0),h17(2,1,3,0,3)], kinds=['deadlock', 'nontermination', 'check', 'abort', 'exception'])
def g19(D, n, s, T, T2, **p): return job('g_D%d_n%d_set%d_T%d_%d' % (D, n, s, T, T2), 'girg.cpp', 'C19_girg', p=dict({'D': D, 'n': n, 'set': s, 'T': T, 'T2': T2}, **p), srcs=GS, variant='nd')
def h19(n, s, R, T, T2, **p): return job('h_n%d_set%d_R%s_T%d_%d' % (n, s, R, T, T2), 'hrg.cpp', 'C19_hrg', p=dict({'n': n, 'set': s, 'R': R, 'T': T, 'T2': T2, 'fix': n - 1}, **p), srcs=HS, defs=HSB, variant='nd')
add('C19', [g19(1,2,5,1,2),g19(1,3,0,2,3,lsb=5),g19(2,2,5,1,4,lsb=5),g19(3,2,1,3,1,lsb=4),g19(1,2,4,4,2,seed=-1,seed2=0),g19(5,2,4,1,8,lsb=3),h19(2,0,5,1,2),h19(3,1,6,1,3),h19(2,4,8,2,4,seed=0),h19(2,1,9,1,8),h19(3,2,3,3,2)])
CHECKS['C19']['jobs'] += [many('C19_many',1,40,1,T2=3,lo=.2,hi=.21,salt=2,v='nd'),many('C19_many',2,30,2,T2=5,hi=.2,salt=3,v='nd'),hmany('C19_hmany',60,10,1,T2=4,symd=2),hmany('C19_hmany',100,13,3,T2=2,symd=2,salt=2,seed=0),hmany('C19_hmany',12,8,1,T2=2,salt=3,hi=.5)]
CHECKS['C17']['jobs'] += [h17(2,0,8,0,8,sbound=0,na=1),h17(3,103,10,.2,16,sbound=0,na=1,v='nd'),h17(1,0,20,.9,5,sbound=1,na=1),h17(0,0,8,.5,4,sbound=1),h17(4,104,6,0,2,sbound=1,na=1,v='nd')]
CHECKS['C19']['jobs'] += [g19(1,3,101,1,16,lsb=6),g19(2,2,103,2,9,lsb=6),g19(4,2,104,1,6,lsb=3),h19(2,102,4,1,16),h19(2,105,7,3,5,seed=0)]
BLK = lambda k: ['-DGIRGS_VERIF_BLOCK=%d' % k]
add('C25', [job('g_D%d_n%d_T%d_b%d_thr%d' % (D, n, T, b, t), 'girg.cpp', 'C25_girg', p={'D': D, 'n': n, 'T': T, 'thr': t, 'symn': sn, 'w0': w0, 'sched': sc_, 'sbound': 1}, srcs=GS, defs=BLK(b)) for D, n, T, b, t, sn, w0, sc_ in ((1,5,1,2,1,2,1,0),(1,5,2,2,1,3,1,2),(1,6,3,3,0,2,9,2),(2,5,4,1,1,2,1,0),(1,6,4,4,1,3,40,0),(3,4,2,2,0,2,1,0),(1,4,2,1,1,2,9,2),(1,4,2,3,1,2,1,0))]
  + [job('h_n%d_T%d_R%s_b%d' % (n, T, R, b), 'hrg.cpp', 'C25_hrg', p={'n': n, 'T': T, 'R': R, 'sched': sc_, 'sbound': sb, 'na': 4, 'syma': sa}, srcs=HS, defs=BLK(b), variant=v) for n, T, R, b, sc_, sb, sa, v in ((5,1,8,2,0,0,3,'std'),(4,2,8,2,2,1,0,'nd'),(5,2,8,2,0,0,2,'nd'),(4,3,8,1,2,0,1,'nd'),(6,4,10,3,0,0,3,'nd'),(4,2,6,3,1,0,3,'std'),(6,8,12,4,0,0,1,'nd'))])
add('C26', [job('dot_n%d_D%d_m%d' % (n, D, m), 'girg.cpp', 'C26_dot', p={'n': n, 'D': D, 'm': m}, srcs=GS) for n, D, m in ((1,1,0),(2,2,1),(3,5,2),(4,3,2),(12,1,1))] + [job('deny', 'girg.cpp', 'C26_dot', p={'n': 2, 'D': 2, 'm': 1, 'deny': 1}, srcs=GS), job('many', 'girg.cpp', 'C26_dot', p={'n': 300, 'D': 2, 'm': 700, 'syme': 0}, srcs=GS), job('empty', 'girg.cpp', 'C26_dot', p={'n': 0, 'D': 2, 'm': 0}, srcs=GS)] + [job('old%d' % k, 'girg.cpp', 'C26_dot', p={'n': 3, 'D': 1 + k, 'm': 2, 'old': 1, 'name': k}, srcs=GS) for k in range(4)])
add('C31', [job('pow', 'girg.cpp', 'C31_pow', srcs=GS)])
add('C32', [job('metric_D%d' % D, 'girg.cpp', 'C32_metric', p={'D': D}, srcs=GS, q=30000) for D in range(1, 6)])
add('C34', [job('dim%d_T%d_thr%d' % (D, T, t), 'girg.cpp', 'C34_dimension', p={'D': D, 'n': n, 'T': T, 'thr': t}, srcs=GS) for D, n, T, t in ((6,2,1,1),(7,3,2,0),(9,2,4,1),(0,2,1,1),(0,3,3,0),(32,1,1,0))])
def c25l(D, n, T, b, t, sn, nc, sched=0): return job('l_D%d_n%d_T%d_b%d_thr%d_c%d_s%d' % (D, n, T, b, t, nc, sched), 'girg.cpp', 'C25_light', p={'D': D, 'n': n, 'T': T, 'thr': t, 'symn': sn, 'clusters': nc, 'sched': sched, 'sbound': 1}, srcs=GS, defs=BLK(b), variant='nd')
CHECKS['C25']['jobs'] += [c25l(1,6,2,1,1,6,2),c25l(1,6,2,2,1,3,2,2),c25l(1,6,3,1,1,6,3),c25l(2,6,4,2,1,4,4),c25l(1,12,4,3,1,4,2),c25l(1,4,2,1,0,0,2),c25l(3,4,2,1,1,4,2),c25l(1,5,8,1,1,4,4)]
def c25hl(n, T, R, b, sn, nc, sched=0, v='nd'): return job('hl_n%d_T%d_R%s_b%d_c%d_s%d' % (n, T, R, b, nc, sched), 'hrg.cpp', 'C25_hlight', p={'n': n, 'T': T, 'R': R, 'symn': sn, 'clusters': nc, 'sched': sched, 'sbound': 1}, srcs=HS, defs=BLK(b), variant=v)
CHECKS['C25']['jobs'] += [c25hl(6,2,8,1,6,2),c25hl(6,2,9,2,3,3,1),c25hl(8,3,8,3,2,4),c25hl(6,4,10,1,4,4),c25hl(5,2,8,1,2,2,2,'std'),c25hl(4,8,9,1,2,2)]
CHECKS['C25']['jobs'] += [job('big_T%d_n%d' % (T, n), 'girg.cpp', 'C25_big', p={'n': n, 'T': T, 'thr': thr, 'sched': sc_}, srcs=GS, variant='nd', t=150, tt=300) for n, T, thr, sc_ in ((1460,1,1,0),(2100,2,1,1))] + [job('hbig_T%d_n%d' % (T, n), 'hrg.cpp', 'C25_hbig', p={'n': n, 'T': T, 'sched': sc_}, srcs=HS, variant='nd', t=150, tt=300) for n, T, sc_ in ((1460,1,0),(2100,2,1))]
def race(j, name, **p): d = dict(j, name='race_' + name, p=dict(j.get('p', {}), race=1, **p), noreplay=True); d.pop('cover', None); d.pop('validate', None); return d
add('C18', [race(c03(1,4,5,2),'girg1'),race(c03(1,4,1,3,variant='nd'),'girg2'),race(c03(2,4,5,4,variant='nd'),'girg3',m=2,symn=2),race(c03(3,4,5,2),'girg4',m=2,symn=2),race(c03(1,6,11,3,pp={'symn':2}),'girg5',entry=1),race(c03(2,5,3,2,pp={'symn':1}),'girg6',entry=1),
  race(c03h(3,0,9,.4,2),'hrg1',sched=2,sbound=1,search=1,na=2),race(c03h(4,7,7,.6,3),'hrg2',sched=1,na=2),race(c03h(3,1,6,0,4,variant='nd'),'hrg3',sched=1,na=3,entry=1),race(c03h(2,2,2,.5,2),'hrg4',sched=2,sbound=2,na=1,entry=1,search=1),race(c03h(4,0,8,.3,2),'hrg5',na=2,entry=1),
  race(h17(3,1,7,0,3),'hrg6',sched=2,sbound=1),race(job('x','hrg.cpp','C25_hrg',p={'n':4,'T':2,'R':8,'sched':0,'na':1,'syma':0},srcs=HS,defs=BLK(1),variant='nd'),'hrg7'),race(job('x','hrg.cpp','C25_hrg',p={'n':5,'T':3,'R':8,'sched':0,'na':2,'syma':1},srcs=HS,defs=BLK(2),variant='nd'),'hrg8'),race(job('x','girg.cpp','C25_girg',p={'D':1,'n':5,'T':2,'thr':1,'symn':0,'w0':1,'sched':2,'sbound':1},srcs=GS,defs=BLK(2)),'girg7'),race(job('x','girg.cpp','C25_girg',p={'D':2,'n':5,'T':4,'thr':0,'symn':0,'w0':1,'sched':2,'sbound':1},srcs=GS,defs=BLK(1)),'girg8'),race(c25hl(5,2,8,1,0,2),'hrg9',sched=1),race(c25hl(6,3,8,1,0,3),'hrg10',sched=1),race(c03h(6,7,5,.5,2),'hrg11',sched=1,quad=1,na=1,entry=1),race(c03h(6,7,4.5,.6,3,variant='nd'),'hrg12',sched=1,quad=1,na=1),race(c25l(1,6,2,1,1,0,2),'girg9',sched=2,sbound=1),race(c25l(1,6,3,1,0,0,3),'girg10',sched=1),race(c25l(2,6,4,2,1,0,4),'girg11',sched=2,sbound=1),race(c09(1,6,5,3,8,pp={'symn':2}),'part1'),race(c09(2,3,2,4,6,pp={'symn':1}),'part2'),race(hy('x','C14_layers',n=3,R=3.5,h=1,T=3,symr=1,syma=1,lmax=2),'lay1'),race(hy('x','C14_layers',n=4,R=5,h=1,T=4,symr=1,syma=1,lmax=3),'lay2'),
  race(c08('x','C08_sort8',0,5,3,grain=2,nb=2,shift=20,win=1),'sort1'),race(c08('x','C08_sort8',1,4,2,grain=2,nb=3,max=511),'sort2'),race(c08('x','C08_sort8',0,3,4,shift=31,minus=1,over=3),'sort3'),race(c08('x','C08_sort8',1,3,2,shift=16,over=1),'sort4'),race(c08('r2','C08_sort2',0,3,2,keys=1,shift=4,minus=1),'sort5'),
  race(sm('x','C20_weights',n=4,T=2),'smp1'),race(sm('x','C20_positions',n=4,D=2,T=3),'smp2'),race(sm('x','C21_sample',1,what=2,n=4,T=3,R=9,alpha=.8),'smp3'),race(sm('x','C21_sample',1,what=0,n=3,T=2,R=9,alpha=.8),'smp4'),race(sm('x','C21_sample',1,what=1,n=4,T=4,R=9,alpha=.8),'smp5'),
  race(sc(2,6,4,0,T=3,symw=0,deg=1),'scale1'),race(sc(2,6,4,2,T=3,symw=0,deg=1),'scale2'),race(sc(1,4,2,0,T=2),'scale3')], kinds=['race', 'omp'])
CHECKS['C18']['jobs'] += [race(many('C03_many',1,30,3,symd=0,sched=1,v='nd'),'girg_many1'),race(many('C01_many',2,40,4,symd=0,sched=1,salt=2),'girg_many2'),race(many('C03_many',1,24,2,symd=0,layers=7,base=.003,salt=3,sched=1),'girg_many3'),race(hmany('C03_hmany',60,10,3,symd=2,na=2,sched=1),'hrg_many1'),race(hmany('C10_many',80,11,4,symd=2,na=2,sched=1,salt=2),'hrg_many2'),race(hmany('C03_hmany',40,8,8,symd=0,na=2,sched=1,salt=3,v='std'),'hrg_many3'),race(c09m(2,300,8,symd=0,sched=1),'part_many'),race(hy('x','C14_many',variant='nd',n=300,T=8,syma=0,sched=1),'lay_many'),race(c08('m8','C08_many8',0,1000,4,grain=64,shift=20,symn=0,sched=1),'sort_many1'),race(c08('m8','C08_many8',1,70000,3,grain=8192,shift=20,symn=0),'sort_many2'),race(smm('x',n=30000,ndn=1,nth=4),'smp_many1'),race(smm('x',what=1,n=30000,ndn=1,nth=4),'smp_many2'),race(smm('x',1,what=2,n=30000,ndn=1,nth=4),'smp_many3'),race(scd(2,40,7,3,12,11.5,gen=1,T=4),'scale_many'),race(job('x','girg.cpp','C25_big',p={'n':1460,'T':3,'thr':1},srcs=GS,variant='nd',t=60),'girg_big')]
def cli(hrg, name, **p): v = p.pop('v', 'std'); return job('%s_%s' % ('genhrg' if hrg else 'gengirg', name), 'cli.cpp', 'CLI', p=p, srcs=['cli/%s/main.cpp' % ('genhrg' if hrg else 'gengirg')], srcdefs=['-include', ROOT_ + '/harness/cli_main.h'], defs=['-DHRG'] if hrg else [], variant=v, q=30000, validate=2)
for h, c in ((0, 'C27'), (1, 'C28')): add(c, [cli(h, 'one', pm=0), cli(h, 'allbut', pm=1, nth=2, fixn=7), cli(h, 'all', pm=2, rev=1, nth=3), cli(h, 'small', pm=2, small=1, nth=1), cli(h, 'help', mode=3), cli(h, 'text_one', mode=1, pm=0), cli(h, 'text_all', mode=1, pm=3, mask=0xfff if not h else 0xeff, nth=1, small=1), cli(h, 'deny_txt', mode=2, pm=2, nth=1, small=1)] + ([cli(h, 'deny_dot', mode=2, ext=1, pm=2, nth=1)] if not h else [cli(h, 'deny_hyp', mode=2, ext=2, pm=2, nth=1, small=1), cli(h, 'coord', pm=3, small=1, mask=0xf01, m=0)]))
for h, c in ((0, 'C27'), (1, 'C28')): CHECKS[c]['jobs'] += [cli(h, 'old', pm=2, small=1, nth=1, old=1, m=4, fname=-1), cli(h, 'old_sym', pm=3, mask=(0x83c if not h else 0x40e) | 0x200, old=1, m=7), cli(h, 'old_default', pm=3, mask=0xc01 | (0 if not h else 0x100), small=1, old=1, m=60), cli(h, 'm0', pm=3, mask=0xc01 | (0 if not h else 0x100), small=1, m=0)]
add('C29', [job('pts_R%s_fix%d_na%d_%s' % (R, f, na, v), 'hrg.cpp', 'C29_points', p={'R': R, 'fix': f, 'na': na, 'nr': nr}, srcs=HS, variant=v, t=60) for R, f, na, nr, v in ((8,1,4,5,'std'),(3,1,5,6,'nd'),(16,1,4,5,'nd'),(5,0,1,4,'nd'),(1.5,1,4,6,'std'),(25,1,2,5,'nd'))])
add('C30', [job('convert', 'girg.cpp', 'C30_convert', srcs=GS, validate=2)])
def ub(j, name, v='ub', **p): d = dict(j, name='ub_' + name, variant=v, p=dict(j.get('p', {}), **p)); d.pop('cover', None); d.pop('validate', None); d['t'] = min(d.get('t', 60), 60); return d
add('C33', [ub(c03(1,4,5,1),'girg1'),ub(c03(1,4,1,2),'girg2','ubnd',symn=2),ub(c03(2,4,5,1),'girg3',symn=2),ub(c03(3,4,5,2),'girg4','ubnd',symn=2),ub(c03(4,3,4,1,pp={'symn':1}),'girg5'),ub(c03(5,3,4,2),'girg6','ubnd'),dict(ub(c03(1,2,12,1),'girg_small1',symn=1),tt=900,i=4e9,thorough=True),dict(ub(c03(2,2,12,1),'girg_small2','ubnd',symn=1),tt=900,i=4e9,thorough=True),ub(job('x','girg.cpp','C33_ratio',srcs=GS),'girg_ratio','ub'),ub(job('x','part.cpp','C09_cells',p={'D':1,'n':2,'set':6,'T':1,'lsb':3,'symn':0}),'girg_small_part','ub'),
  ub(c02(1,5,1,2),'pair1'),ub(c02(2,5,1,2,pp={'fix':1}),'pair2','ubnd'),ub(c01(1,2,5,1),'thr1'),ub(c01(2,2,5,2),'thr2','ubnd'),ub(c09(1,3,1,1,6),'part1'),ub(c09(2,3,2,4,6,pp={'symn':2}),'part2'),ub(c09(3,3,0,8,5,pp={'symn':1}),'part3','ubnd'),
  ub(c03h(3,0,5,.5,1),'hrg1'),ub(c03h(4,1,6,.3,1),'hrg2','ubnd'),ub(c03h(3,0,9,.4,2),'hrg3',na=2),ub(c03h(2,4,8,.2,8),'hrg4',na=2),ub(c03h(2,0,45,.5,1),'hrg_sparse1',na=1),ub(h17(2,0,60,0,2),'hrg_sparse2','ubnd',na=1),ub(c10(2,0,5,1),'hthr1','ubnd'),ub(hy('x','C14_layers',n=3,R=3.5,h=1,T=2,symr=2,syma=2,lmax=2),'lay1'),ub(hy('x','C14_layers',n=2,R=6,h=1,T=1,symr=2,syma=1,lmax=4),'lay2','ubnd'),
  ub(sm('x','C20_weights',n=4,T=2,ple=2.5),'smp1'),ub(sm('x','C20_positions',n=3,D=2,T=3),'smp2'),ub(sm('x','C21_sample',1,what=2,n=3,T=2,R=9,alpha=.8),'smp3'),ub(sm('x','C21_sample',1,what=0,n=3,T=2,R=9,alpha=.8),'smp4'),
  ub(sc(1,3,1,0),'scale1'),ub(scd(2,8,5,0,6),'scale2'),ub(scd(1,5,3,4,3.5),'scale3'),ub(c24(1000,.75,.5),'radius'),ub(hy('x','C12_filter',R=10,T=.5,maxp=1,maxc=1e7),'filter'),ub(hy('x','C13_point',L=5),'angle1'),ub(hy('x','C13_dist',L=3),'angle2'),
  ub(c08('x','C08_sort8',0,5,3,grain=2,nb=2,shift=20,win=1),'sort1'),ub(c08('x','C08_sort8',1,3,4,shift=31,minus=1,over=3),'sort2'),ub(c08('x','C08_sort8l',0,3,2,shift=33),'sort3'),ub(c08('r2','C08_sort2',1,2,2,keys=1,shift=4,minus=1),'sort4')]
  + [ub(job('x','cells.cpp','C05_point',p={'D':D,'L':31//D-1},q=30000),'cell%d'%D,'ub') for D in range(1,6)] + [ub(job('x','cells.cpp','C06_dist',p={'D':D,'L':31//D-1 if D<3 else 2},q=20000),'dist%d'%D,'ub') for D in range(1,6)] + [ub(job('x','cells.cpp','C07_tree',p={'D':D}),'tree%d'%D) for D in (1,3,5)],
  kinds=['memory', 'ub', 'assert', 'abort', 'exception'])
CHECKS['C33']['jobs'] += [ub(many('C03_many',1,30,2,symd=0,salt=8),'many_girg1'),ub(many('C01_many',2,24,2,symd=0,salt=9,layers=9,base=.003),'many_girg2'),ub(many('C03_many',3,16,2,symd=0,salt=3,base=.1,layers=4),'many_girg3','ubnd'),ub(many('C03_many',5,12,1,symd=0,salt=4,base=.1,layers=4),'many_girg5'),ub(hmany('C03_hmany',40,10,2,symd=2,na=2),'many_hrg1'),ub(hmany('C10_many',60,20,3,symd=2,na=2,span=12),'many_hrg2','ubnd'),ub(c09m(2,300,3,symd=0),'many_part'),ub(hy('x','C14_many',n=300,T=3,syma=0),'many_lay','ubnd'),ub(c08('m8','C08_many8',0,1000,3,grain=64,shift=20,symn=0),'many_sort1'),ub(c08('m8','C08_many8',1,1000,4,grain=64,shift=31,symn=0),'many_sort2'),ub(smm('x',n=19998,ndn=1),'many_smp1','ubnd'),ub(smm('x',1,what=2,n=19999,ndn=1,nth=3),'many_smp2','ubnd'),ub(scd(2,200,7,3,30,29.9,gen=1,T=2),'many_scale')]
add('C35', [job('tiny_D%d_T%d%s' % (D, T, v), 'girg.cpp', 'C35_tiny', p={'D': D, 'T': T, 'sched': int(T == 2), 'par': T % 2}, srcs=GS, variant=v, t=60) for D, T, v in ((1,1,'std'),(1,2,'nd'),(2,1,'nd'),(2,3,'std'),(3,4,'std'),(4,1,'std'),(5,2,'nd'),(1,16,'std'))]
  + [job('htiny_T%d%s' % (T, v), 'hrg.cpp', 'C35_htiny', p={'T': T, 'sched': int(T == 2), 'par': T % 2}, srcs=HS, defs=HSB, variant=v, t=60) for T, v in ((1,'std'),(1,'nd'),(2,'std'),(3,'nd'),(8,'nd'),(4,'std'))], kinds=['check', 'memory', 'abort', 'exception', 'assert', 'nontermination', 'deadlock'])
add('C36', [job('in_D%d_n%d_T%d_thr%d' % (D, n, T, t), 'girg.cpp', 'C36_inputs', p={'D': D, 'n': n, 'T': T, 'thr': t, 'set': s, 'lsb': l}, srcs=GS, variant=v) for D, n, T, t, s, l, v in ((1,3,1,1,1,5,'std'),(1,3,2,0,11,4,'nd'),(2,2,3,1,5,4,'std'),(3,2,1,0,1,2,'nd'),(5,2,2,1,4,2,'std'))]
  + [job('hin_n%d_R%s_t%s_T%d' % (n, R, te, T), 'hrg.cpp', 'C36_hinputs', p={'n': n, 'R': R, 'temp': te, 'T': T, 'set': s, 'fix': f}, srcs=HS, defs=HSB, variant='nd') for n, R, te, T, s, f in ((2,5,0,1,0,1),(3,6,0,2,1,2),(3,7,.5,1,2,3),(4,8,.3,3,7,4))])
add('C37', [job('prof_D%d_n%d_T%d_a%s' % (D, n, T, al), 'girg.cpp', 'C37_profile', p={'D': D, 'n': n, 'T': T, 'alpha': al, 'set': s}, srcs=GS, variant=v) for D, n, T, al, s, v in ((1,3,1,2,1,'std'),(1,4,2,0,5,'nd'),(2,3,3,3,11,'nd'),(3,3,2,1.5,4,'std'),(4,3,1,0,1,'nd'),(5,3,4,2,4,'nd'))]
  + [job('hprof_n%d_R%s_t%s_T%d' % (n, R, te, T), 'hrg.cpp', 'C37_hprofile', p={'n': n, 'R': R, 'temp': te, 'T': T, 'set': s}, srcs=HS, defs=HSB, variant=v) for n, R, te, T, s, v in ((3,6,0,1,1,'std'),(3,8,.5,2,0,'nd'),(2,6,.5,2,1,'nd'),(2,8,.7,3,0,'nd'),(2,7,.9,4,5,'nd'),(2,9,.5,1,0,'std'),(4,7,.3,3,7,'nd'),(3,5,0,4,2,'nd'))])
add('C38', [job('rej_n%d_D%d_T%d' % (n, D, T), 'scale.cpp', 'C38_reject', p={'n': n, 'D': D, 'T': T}, srcs=GS, q=30000) for n, D, T in ((3,1,1),(1,2,2),(6,5,1),(2,3,3))] + [job('list_n%d_D%d_T%d' % (n, D, T), 'scale.cpp', 'C38_reject', p={'n': n, 'D': D, 'T': T, 'list': 1}, srcs=GS, q=30000) for n, D, T in ((3,1,1),(6,4,2))])
def c39(e, hyp, v='nd', **p): return job(e[4:] + ''.join('_%s%s' % (k, x) for k, x in p.items()), 'hist.cpp', e, p=p, srcs=HS if hyp else GS, defs=(['-DHYP'] if hyp else []) + HSB + CH, variant=v)
add('C39', [c39('C39_edges', 0, n=3, D=1, T=1, alpha=2, v='std'), c39('C39_edges', 0, n=3, D=2, T=2, alpha=0, D2=2, alpha2=3), c39('C39_edges', 0, n=3, D=1, T=3, alpha=1.5, n2=9, D2=1, alpha2=0, T2=5, small=1), c39('C39_edges', 0, n=4, D=3, T=1, alpha=2.5, D2=3, n2=2, alpha2=7, T2=2), c39('C39_edges', 0, n=3, D=5, T=2, alpha=0, D2=4), c39('C39_edges', 0, n=5, D=1, T=1, alpha=0, n2=3, alpha2=2, v='std'),
  c39('C39_samples', 0, n=4, D=2, T=2), c39('C39_samples', 0, n=3, D=1, T=1, par=0, par2=0, seed2=3, v='std'), c39('C39_samples', 0, n=5, D=3, T=3, D2=3, n2=7, seed2=3, T2=3), c39('C39_samples', 0, n=3, D=4, T=1, par=0, n2=2, seed2=3),
  c39('C39_scale', 0, n=4, alpha=0), c39('C39_scale', 0, n=5, D=2, T=2, alpha=2, alpha2=0), c39('C39_scale', 0, n=6, D=3, alpha=1.5, D2=3, alpha2=3, n2=6, v='std'), c39('C39_scale', 0, n=3, D=1, alpha=7, alpha2=1.2),
  c39('C39_tree', 0, n=3, T=1, alpha=2), c39('C39_tree', 0, n=3, T=3, alpha=1.5, v='std'), c39('C39_tree', 0, n=4, T=2, alpha=0),
  c39('C39_hedges', 1, n=2, T=1, R=6, temp=.5), c39('C39_hedges', 1, n=3, T=1, R=6, temp=.5, search=1), c39('C39_hedges', 1, n=3, T=2, R=8, temp=0, R2=5), c39('C39_hedges', 1, n=3, T=1, R=7, temp=.3, temp2=0, T2=3, search=1), c39('C39_hedges', 1, n=4, T=3, R=9, temp=.8, R2=9, temp2=.8, n2=3, search=1), c39('C39_hedges', 1, n=4, T=1, R=5, temp=0, R2=14, temp2=.5),
  c39('C39_hsamples', 1, n=3, T=2), c39('C39_hsamples', 1, n=3, T=1, par=0, par2=0, seed2=3), c39('C39_hsamples', 1, n=4, T=3, seed2=3, n2=4, R2=6, T2=1), c39('C39_hsamples', 1, n=3, T=1, par=0, par2=1, seed2=3, alpha2=.75, v='std'),
  c39('C39_radius', 1), c39('C39_htree', 1, n=2, T=2, R=6, temp=.5), c39('C39_htree', 1, n=3, T=2, R=8, temp=.7, search=1), c39('C39_htree', 1, n=4, T=3, R=5, temp=0)])
CHECKS['C02']['jobs'] += [c02(1,19,1,2,pp={'fix':1}),c02(2,20,2,1.2,pp={'pch':8}),c02(1,19,1,50,pp={'pch':8},variant='nd')]
CHECKS['C03']['jobs'] += [many('C03_many',1,40,12,symd=0,salt=12,layers=4,sched=1,v='nd'),many('C03_many',1,30,20,symd=0,salt=13,layers=2,base=.05,v='nd'),many('C03_many',2,40,16,symd=0,salt=14,layers=3),many('C03_many',1,40,1,symd=0,salt=15,layers=5,alpha=70,v='nd'),many('C03_many',2,30,2,symd=0,salt=16,layers=4,alpha=100),many('C03_many',3,30,1,symd=0,salt=17,layers=5,base=.1,alpha=300,v='nd'),hmany('C03_hmany',60,11,12,symd=0,salt=18,sched=1),hmany('C03_hmany',60,9,20,symd=0,salt=19,temp=.8),hmany('C03_hmany',60,12,2,symd=0,salt=20,temp=.05),hmany('C03_hmany',60,10,1,symd=0,salt=21,temp=.012)]
CHECKS['C09']['jobs'] += [c09(1,4,11,2,6,pp={'symn':1},variant='nd'),c09(2,6,10,3,4,pp={'symn':1},variant='nd')]
CHECKS['C03']['jobs'] += [job('top_D%d_k%d_a%d%d_al%s_T%d' % (D, k, a, b, al, T), 'girg.cpp', 'C03_top', p=dict({'D': D, 'k': k, 'a': a, 'b': b, 'alpha': al, 'T': T}, **p), srcs=GS, variant=v) for D, k, a, b, al, T, v, p in ((1,10,0,0,70,1,'nd',{}),(1,12,1,0,100,2,'std',{}),(2,11,0,0,64,1,'nd',{}),(3,14,1,2,300,1,'nd',{}),(1,14,2,1,16,1,'std',{}),(1,9,0,0,1.5,3,'nd',{}),(4,13,0,1,40,1,'nd',{}),(5,17,0,0,120,2,'nd',{}))]
CHECKS['C33']['jobs'] += [ub(sm('w',  'C20_weights', n=3, T=3), 'seed_w', seed=2147483647), ub(sm('p', 'C20_positions', n=3, D=2, T=2), 'seed_p', seed=2147483646), ub(sm('s', 'C21_sample', 1, what=2, n=3, T=4), 'seed_s', seed=2147483645), ub(g16(1,3,5,2,2), 'seed_g', seed=2147483647), ub(h16(3,0,8,.5,2), 'seed_h', seed=2147483647)]
CHECKS['C20']['jobs'] += [sm('w_seed%d' % i, 'C20_weights', n=4, T=3, seed=s) for i, s in enumerate((0, 1, 2147483640))] + [sm('p_seed%d' % i, 'C20_positions', n=4, D=2, T=3, seed=s) for i, s in enumerate((0, 1, 2147483640))]
CHECKS['C21']['jobs'] += [sm('s%d_seed%d' % (w, i), 'C21_sample', 1, what=w, n=4, T=3, seed=s) for i, (w, s) in enumerate(((0, 0), (1, 1), (2, 2147483640), (1, 0), (0, 1)))]
CHECKS['C03']['jobs'] += [many('C03_many',1,30,6,symd=0,salt=22,layers=3,seed=0,v='nd'),many('C03_many',2,30,3,symd=0,salt=23,layers=3,seed=2147483640),hmany('C03_hmany',40,9,5,symd=0,salt=24,seed=0),hmany('C03_hmany',40,9,3,symd=0,salt=25,seed=2147483640)]
CHECKS['C22']['jobs'] += [scd(*a, wmul=m, **k) for m, a, k in ((1e5,(1,5,3,0,3.5),{}),(1e-5,(2,6,4,0,4),{}),(1e7,(3,40,7,0,30),dict(gen=1,salt=3)),(1e-7,(1,60,8,0,30),dict(gen=1,salt=4,T=3)))]
CHECKS['C23']['jobs'] += [scd(*a, wmul=m, **k) for m, a, k in ((1e5,(1,4,2,1.5,2.9),{}),(1e-5,(2,5,2,1.3,3.9),{}),(1e6,(3,30,6,2.5,6),dict(gen=1,salt=5)),(1e-6,(1,30,9,3,12),dict(gen=1,salt=6)))]
CHECKS['C11']['jobs'] += [dict(c11(s,R,te,T,variant=v,pp={'arnd':a,'na':na}), name='hdeep_set%d_R%s_temp%s_T%d' % (s,R,te,T)) for s,R,te,T,v,a,na in ((0,30,.8,1,'nd',5,28),(1,26,.8,2,'nd',6,28))]
CHECKS['C03']['jobs'] += [dict(c03h(3,s,R,te,T,variant='nd',pp={'arnd':a,'na':na}), name='hdeep_set%d_R%s' % (s,R)) for s,R,te,T,a,na in ((0,28,.6,1,9,16),)]
CHECKS['C15']['jobs'] += [hy('level_R%s' % R, 'C15_level', R=R, ni=7) for R in (1.05, 1.7, 2.1, 2.9, 3.3, 4.2, 4.6, 5.7, 6.4, 6.9, 7.7, 8.8, 9.6, 11.1, 13.4, 14.9, 16.7, 19.3, 20.6, 22.4, 23.9, 26.5, 28.2, 33.3)]
CHECKS['C14']['jobs'] += [hy('lmany_s%d_n%d_T%d' % (s, n, T), 'C14_many', variant=v, n=n, T=T, syma=sa, symr=1 - sa, salt=s, R=R, h=h) for s, n, T, sa, R, h, v in ((21,130,7,1,11,1,'nd'),(22,1000,12,0,19,1,'nd'),(23,257,2,1,7,.5,'std'),(24,90,20,0,13,2,'nd'),(25,64,3,1,16,1.3,'std'))]
CHECKS['C12']['jobs'] += [hy('filter_R%s_T%s_m%s' % (R, T, m), 'C12_filter', R=R, T=T, maxp=m, maxc=mc) for R, T, m, mc in ((1.5,.95,.2,1e4),(7,.01,.6,1e4),(16,.4,.75,1e9),(25,.7,.08,1e14),(2.2,.15,1,30),(40,.5,.19,1e18))]
CHECKS['C23']['jobs'] += [scd(D,n,50+i,al,hi,lo,gen=1,salt=50+i,T=T) for i,(D,n,al,lo,hi,T) in enumerate(((1,10,1.1,.2,7,1),(2,20,1.9,.1,12,2),(3,50,2.2,1,30,1),(1,30,4.5,.1,25,3),(4,25,3.3,.5,18,1),(5,40,6.6,.2,30,2),(2,15,7.9,.1,12,1),(1,100,2.9,10,60,5)))]
B = {
 'C39': ('2 to 5 nodes in 18 arrangements (9 nodes, other dimensions, parameters, seeds and thread counts in the earlier call), one or two earlier calls of the same function, one tree object used twice; draws symbolic', 'longer histories; earlier calls of other functions; more nodes'),
 'C35': ('0 and 1 nodes, dimensions 1 to 5, 1 to 16 threads, alpha in {1.3, 2, 9, infinity}, T in {0, .05, .5, .95}, 4 weights, 4 radii, all positions on the 2^-10 lattice, four windows of angles', 'other parameters'),
 'C36': ('2 to 4 nodes with symbolic positions on a lattice or angles, dimensions 1, 2, 3, 5, 1 to 3 threads', 'more nodes'),
 'C37': ('3 to 4 nodes at symbolically chosen positions or angles, all draws, 1 to 4 threads', 'more nodes; what is printed'),
 'C38': ('all IEEE values of alpha that are not positive or equal 1; 1 to 6 weights, dimensions 1, 2, 3, 5', 'other weights'),
 'C01': ('2 to 60 nodes (all symbolic up to 3 nodes, 1 or 2 symbolic nodes among many pseudo-random ones in the jobs "many"), dimensions 1 to 5, fixed and pseudo-random weight vectors (ratios up to 10^4), 1 to 7 threads; every coordinate is any multiple of 2^-10 in [0,1) (2^-6 or 2^-30 in some jobs; the first node is fixed in jobs with "fix")', 'many nodes at arbitrary positions at once; other weights; pairs within 1e-9 (relative) of the threshold; positions off the lattice'),
 'C02': ('one pair of nodes: all positions on the 2^-10 lattice or lists of positions, all draws; alpha 1.01 to 300; dimensions 1 to 4; skip order: 4 to 5 nodes in the same cells, dimensions 1 and 2; one session over more than 2^32 pairs with listed skips', 'other skip sessions over more than 5 nodes; pairs within 1e-9 of the probability; quality of the random number generators'),
 'C03': ('3 to 6 nodes at symbolically chosen positions (8 values including 0, cell borders and coinciding points) or on a coarse lattice, several weight layers, dimensions 1 to 5; HRG: angles from lists, 3 to 4 nodes, several layers; 0 to 2 such nodes among up to 100 pseudo-random ones; 1 to 20 threads; the pair of the largest probability in cells that do not touch, alpha 1.5 to 300', 'more symbolic nodes; arbitrary real positions (covered for pairs by C01, C02)'),
 'C04': ('none: all codes and coordinates of the stated domain', ''),
 'C05': ('levels 0 to 3, 5, 12, the deepest level (31/D - 1) and level 29 for dimension 1; all cells; all IEEE positions', 'levels in between'),
 'C06': ('adjacency: levels 0 to 6, 12 and the deepest level, distance: levels 0 to 3 (some deeper), all pairs of cells; distance from 2 cells to all cells on level 5 and the deepest level (8 cells, more levels in the thorough tier); distance of points: levels up to 4', 'levels in between; other pairs of cells on deep levels'),
 'C07': ('none: all cells of all levels that fit 32 bit', ''),
 'C09': ('2 to 6 nodes of which 1 to 3 have symbolic coordinates on a lattice of 3 to 8 bits; 11 weight vectors (ratios to 10^10) including weights next to powers of two times the minimum; levels up to 4 compared cell by cell; up to 70000 nodes of which 0 to 2 are symbolic; 1 to 8 threads', 'more symbolic nodes; cells deeper than level 4 (the ranges there are differences of the same prefix sums)'),
 'C10': ('2 to 3 nodes, one or more symbolic angles (any real), radius vectors and R from lists; one such node among up to 150 pseudo-random ones; 1 to 8 threads', 'pairs within 1e-6 of R; symbolic radii'),
 'C11': ('one pair of nodes, angles from lists of 8 around the circle (some pseudo-random), radii, R (3 to 30) and T (.01 to .99) from lists, all draws; skip order: 3 to 4 nodes; one session over more than 2^32 pairs with listed skips', 'symbolic angles; pairs within 1e-4 of the probability'),
 'C12': ('20 combinations of R (1 to 40), T (.02 to .98) and the maximal probability; all draws; all values of cosh(distance) up to 50..1e15', 'draws within 1e-9 of the exact probability; other R and T'),
 'C13': ('levels 0 to 9 (points; 16 windows of 5 cells each on levels up to 30), up to 30 (adjacency), 0 to 4 (distance of all cells), up to 30 (distance of listed cells); all angles and cells', 'angles within 1e-12 of a cell border'),
 'C14': ('2 to 4 nodes, 1 to 3 symbolic radii in [1e-3,R] and angles, R 2.5 to 6, layer heights 0.5 to 2, 1 to 4 threads; up to 70000 nodes (1 symbolic) with up to 8 threads; radius 0; levels up to 4', 'more symbolic nodes; deeper levels'),
 'C15': ('35 values of R from 1.05 to 33, layers 0,1,2,4,7,11,16; all angular distances of cells that do not touch', 'radii strictly inside a layer (monotone between the evaluated corners); other layer heights'),
 'C16': ('2 to 4 nodes with 1 to 4 threads, up to 100 nodes (1 symbolic) with up to 8 threads; schedule of the second run explored at every synchronisation, work-distribution and dispatch point, up to the preemption bound of the job; seeds 0 and 3/5', 'more nodes; preemption inside straight-line code (C18 shows that there is nothing to observe)'),
 'C17': ('0 to 4 nodes, 2 to 16 threads; schedules explored at every lock, wait, notify and work-distribution point with up to 1 preemption', 'more preemptions, more threads'),
 'C18': ('the parallel regions of both libraries with 2 to 4 (partition: 8) threads on the inputs of the listed jobs, up to 100 nodes (graphs) and 70000 elements (sorting, partition) with up to 8 threads', 'races that need larger inputs to be reached'),
 'C19': ('2 to 3 nodes, symbolic positions (lattice) or angles, up to 100 nodes with one symbolic; thread counts 1 to 16; one pair of seeds per job', 'more nodes'),
 'C20': ('1 to 40 weights, exponents 2.0001 to 5, 1 to 5 positions, dimensions 1 to 5, 1 to 4 threads with a chunk size of 1; the production chunk size with 20000 to 30007 values (concrete draws); all draws within the bracket of each path', 'other n'),
 'C21': ('0 to 40 nodes, 1 to 8 threads with a chunk size of 1; the production chunk size with 20000 to 30007 values (concrete draws); R from 1 to 30, alpha from 0.51 to 1; all draws within the bracket of each path', 'other n'),
 'C22': ('2 to 8 nodes with 1 to 2 symbolic weights in [0.5,2] and listed degrees; 2 to 1000 nodes with fixed or pseudo-random skewed weights and a symbolic degree from 0.1 up to 99 percent of n-1; weights scaled by 1e-7 to 1e7; dimensions 1 to 5, 1 to 4 threads', 'symbolic weights and degree at once; other weights; more nodes'),
 'C23': ('2 to 200 nodes with fixed or pseudo-random skewed weights, dimensions 1 to 5, alpha from 1.2 to 8, symbolic degree from 0.1 up to 98 percent of n-1', 'other weights; more nodes'),
 'C24': ('n from 10 to 2*10^9, alpha from 0.55 to 1, T from 0 to 0.9; all degrees from 1 to n-1 (calculateRadius) or in intervals (NetworKit formula)', 'other n, alpha, T; for T = 0 of the NetworKit search degrees outside the listed windows'),
 'C25': ('4 to 12 nodes, buffer capacity 1 to 4 (2^20 in production), 1 to 8 threads; complete graphs and clusters of coinciding light nodes; the production capacity with complete graphs on 1460 and 2100 nodes', 'other graphs; other capacities'),
 'C26': ('0 to 12 nodes, up to 2 symbolic edges, dimensions 1 to 5; 300 nodes with 700 fixed edges; existing files; four file names; all weights in [0,1000] and positions in [0,1]', 'decimal formatting by the C++ library; weights of other magnitude'),
 'C27': ('all values of every option (alone, all others, all together), listed texts that are no numbers, listed thread counts and file names, existing files, graphs of 0 to 60 edges', 'degrees strictly between n-1 and n; repeated options; option values with trailing text'),
 'C28': ('all values of every option (alone, all others, all together), listed texts that are no numbers, listed thread counts and file names, existing files, graphs of 0 to 60 edges', 'degrees strictly between n-1 and n; repeated options; option values with trailing text'),
 'C29': ('R from 1.5 to 25; radii from lists; one symbolic angle (any real in [0,2 pi)), the other from a list or symbolic', 'values within 1e-9 (relative) of R; symbolic radii'),
 'C30': ('R in [1,40], radii in [0,40], weights in [1e-3,1e6], four scalings; all angles and positions', 'larger values'),
 'C31': ('exponents 0 to 16; all reals in [-1000,1000]', 'higher exponents'),
 'C32': ('none: all positions in [0,1]^D, dimensions 1 to 5', ''),
 'C33': ('the inputs of the listed jobs in builds with clang -fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,bounds; out of range float to integer conversions are checked by the executor; every memory access of the executed IR is checked for bounds, lifetime and initialisation', 'inputs outside the jobs'),
 'C34': ('dimensions 0, 6, 7, 9, 32; 2 to 3 nodes', 'other dimensions'),
}
for k, v in B.items():
    if k in CHECKS and 'bounds' not in CHECKS[k]: CHECKS[k]['bounds'], CHECKS[k]['outside'] = v
