"""P10 ranges, strided boxes, index sets, bins and reshaping"""
import random, copy, itertools, numpy as np
from pixell import utils
from lib import q, qf
TRACE = "TraceP10"
MC  = [dict(module="RangesMC", cfg="RangesMC.cfg", min_states=10000)]
GEN = []
ASSUMPTIONS = ["numpy's basic array operations are correct"]
KINDS = ["rsub","runion","rnorm","rcut","mask","sbox","smul","sdiv","sint1","sint","swrap","find","near","common",
	"perm","csplit","seq","tinds","linbin","expbin","bin","cums","bincount","sumid","unmask","block","pflat","shape",
	"groups","split","bshape","box","unwrapr","num","nditer","sdown","outer","resize","wq"]

def ranges(rng, n, m, allow0=False, gaps=True):
	"""Disjoint ranges inside 0..m, in random order"""
	if n == 0: return []
	c = sorted(rng.sample(range(0, m+1), min(2*n, (m+1)//2*2)))
	r = [[c[2*i],c[2*i+1]] for i in range(len(c)//2)]
	if rng.random() < 0.4: # adjacent ones
		for i in range(len(r)-1):
			if rng.random() < 0.5: r[i+1][0] = r[i][1]
	rng.shuffle(r)
	return r
def sbox(rng, n, m, allow=True):
	"""Strided box with n>0 elements inside 0..m-1"""
	while True:
		st = rng.choice([1,1,2,3,-1,-1,-2,-3])
		n1 = rng.randint(1,n)
		if (n1-1)*abs(st) >= m: continue
		lo = rng.randint(0, m-1-(n1-1)*abs(st))
		start = lo if st > 0 else lo+(n1-1)*abs(st)
		end = start+n1*st
		# the end need not be a whole step
		if rng.random() < 0.5: end -= (1 if st > 0 else -1)*rng.randint(0,abs(st)-1)
		return [start,end,st]
def ints(rng, n, lo, hi): return [rng.randint(lo,hi) for i in range(n)]

def cases(tier, seed, gen):
	rng = random.Random(seed)
	N = 150 if tier == "quick" else 1500
	for k in KINDS:
		for it in range(N*dict(swrap=5,sint1=3,rsub=3).get(k,1)):
			a = globals()["gen_"+k](rng, it)
			if a is not None: yield dict(k=k, a=a)

class Guard:
	"""Passes arguments on as arrays, and checks that they are left alone"""
	def __init__(self): self.seen = []
	def __call__(self, x, dtype=None):
		arr = np.array(x, dtype)
		self.seen.append((arr, arr.copy()))
		return arr
	def ok(self): return all([a.shape == b.shape and np.array_equal(a,b) for a,b in self.seen])
def sh(x): return dict(sh=list(np.shape(x)), v=qf(x))
def run(k, a):
	g = Guard()
	o = globals()["do_"+k](a, g)
	o["same"] = g.ok()
	return o

# Ranges
def gen_rsub(rng, it):
	a = ranges(rng, rng.choice([0,1,2,3,4]), rng.choice([4,9,14])); b = ranges(rng, rng.choice([0,1,2,3,4]), rng.choice([4,9,14]))
	if rng.random() < 0.2 and a:
		p = rng.randint(0,14)
		if not any([r[0] <= p <= r[1] for r in a]): a.insert(rng.randint(0,len(a)), [p,p])
	return dict(A=a, B=b)
def do_rsub(a, g):
	c, rmap, abmap = utils.range_sub(g(a["A"],int), g(a["B"],int), mapping=True)
	c2 = utils.range_sub(a["A"], a["B"])
	return dict(c=q(c), rmap=q(rmap), abmap=q(abmap), c2=q(c2), shape=list(c.shape))
def gen_runion(rng, it):
	return dict(A=[[x,x+rng.randint(0,4)] for x in ints(rng, rng.choice([0,1,2,4,6]), 0, 14)])
def do_runion(a, g):
	c, rmap = utils.range_union(g(a["A"],int), mapping=True)
	return dict(c=q(c), rmap=q(rmap), c2=q(utils.range_union(a["A"])), shape=list(c.shape))
def gen_rnorm(rng, it): return dict(A=[[x,x+rng.randint(-3,4)] for x in ints(rng, rng.choice([0,1,2,4,6]), 0, 14)])
def do_rnorm(a, g):
	c = utils.range_normalize(g(a["A"],int))
	return dict(c=q(c), shape=list(c.shape))
def gen_rcut(rng, it): return dict(A=ranges(rng, rng.choice([1,1,2,3]), 14), C=sorted(rng.sample(range(0,15), rng.randint(0,5))))
def do_rcut(a, g): return dict(c=q(utils.range_cut(g(a["A"],int), g(a["C"],int))))
def gen_mask(rng, it): return dict(m=ints(rng, rng.choice([0,1,2,5,8,12]), 0, 1))
def do_mask(a, g):
	c = utils.mask2range(g(a["m"], bool))
	return dict(c=q(c), shape=list(c.shape))

# Strided boxes
def gen_sbox(rng, it): return dict(s=sbox(rng, 6, 15))
def do_sbox(a, g):
	s = g(a["s"],int); arr = np.arange(15)
	f = utils.sbox_fix(s)
	s2 = g([a["s"],f.tolist()],int)
	return dict(fix=q(f), flip=q(utils.sbox_flip(f)), size=int(utils.sbox_size(s)), sl=q(arr[utils.sbox2slice(s[None])]),
		two=q(utils.sbox_fix(s[:2])), sizes=q(utils.sbox_size(s2)), fixs=q(utils.sbox_fix(s2)), flips=q(utils.sbox_flip(utils.sbox_fix(s2))))
def gen_smul(rng, it):
	s = sbox(rng, 7, 15); n = len(range(*s)); return dict(s=s, t=sbox(rng, n, n))
def do_smul(a, g):
	s, t = g(a["s"],int), g(a["t"],int)
	return dict(c=q(utils.sbox_mul(s,t)), c2=q(utils.sbox_mul([a["s"],a["s"]],[a["t"],[0,1,1]])))
def do_sdiv(a, g):
	# the first argument is what the second one's elements look like through t
	el = list(range(*a["s"])); sub = [el[i] for i in range(*a["t"])]
	st = a["s"][2]*a["t"][2]
	b = [sub[0], sub[0]+len(sub)*st, st]
	return dict(a=b, c=q(utils.sbox_div(g(b,int), g(a["s"],int))), c2=q(utils.sbox_div(g([b,b],int), g([a["s"]]*2,int))))
gen_sdiv = gen_smul
def gen_sint1(rng, it):
	w = rng.choice([0,0,12,15,20])
	while True:
		s, t = sbox(rng, 8, 15), sbox(rng, 8, 15)
		if w:
			s0 = sbox(rng, 8, 15); off = rng.randint(-w,w); s = [s0[0]+off,s0[1]+off,s0[2]]
			t0 = sbox(rng, 8, 15); off = rng.randint(-w,w); t = [t0[0]+off,t0[1]+off,t0[2]]
			if any([max(range(*x))-min(range(*x)) >= w for x in (s,t)]): continue
		return dict(s=s, t=t, w=w)
def do_sint1(a, g): return dict(c=q(utils.sbox_intersect_1d(g(a["s"],int), g(a["t"],int), wrap=a["w"])))
def gen_sint(rng, it):
	return dict(s=[sbox(rng,4,8),sbox(rng,4,8)], t=[[sbox(rng,4,8),sbox(rng,4,8)] for i in range(rng.randint(1,3))], w=[0,rng.choice([0,0,9])])
def do_sint(a, g):
	s = g(a["s"],int)
	one = utils.sbox_intersect(s, g(a["t"][0],int), wrap=a["w"])
	many= utils.sbox_intersect(s[None], g(a["t"],int), wrap=a["w"])
	return dict(one=q([list(map(list,x)) for x in one]) if len(one) else [], many=[q([list(map(list,x)) for x in m]) if len(m) else [] for m in many[0]], shape=list(many.shape))
def gen_swrap(rng, it):
	nd = rng.choice([1,2,2]); S, W, C = [], [], []
	for d in range(nd):
		s = sbox(rng, 6, 9); off = rng.randint(-9,9)
		w = rng.choice([0,0,3,4,7,10]); c = rng.choice([0,w,w,max(w-2,1)]) if w else rng.choice([0,5,8])
		S.append([s[0]+off,s[1]+off,s[2]]); W.append(w); C.append(c)
	return dict(S=S, w=W, c=C)
def do_swrap(a, g):
	r = utils.sbox_wrap(g(a["S"],int), wrap=g(a["w"],int), cap=g(a["c"],int))
	return dict(r=[[q(i),q(o)] for i,o in r])

# Finding things
def gen_find(rng, it):
	arr = rng.sample(range(-9,10), rng.choice([0,1,3,6])) if rng.random() < 0.7 else ints(rng, 5, -3, 3)
	good = [rng.choice(arr) for i in range(rng.choice([0,1,4]))] if arr else []
	return dict(arr=arr, good=good, vals=ints(rng, rng.choice([0,1,4,7]), -10, 10))
def do_find(a, g):
	arr, good, vals = g(a["arr"],int), g(a["good"],int), g(a["vals"],int)
	o = dict(good=q(utils.find(arr, good)), dft=q(utils.find(arr, vals, default=-1)), any=q(utils.find_any(arr, vals)),
		cont=q(utils.contains(arr, vals)))
	try: utils.find(arr, vals); o["raised"] = False
	except ValueError: o["raised"] = True
	return o
def gen_near(rng, it): return dict(arr=rng.sample(range(-20,20), rng.choice([1,2,5,8])), vals=ints(rng, 6, -22, 22))
def do_near(a, g):
	arr, vals = g(a["arr"],int), g(a["vals"],int)
	s = sorted(a["arr"])
	return dict(ind=q(utils.nearest_ind(arr, vals)), sind=q(utils.nearest_ind(g(s), vals, sorted=True)), sarr=s, perm=q(utils.inverse_order(np.argsort(arr))), order=q(np.argsort(arr)))
def gen_common(rng, it): return dict(arrs=[rng.sample(range(0,10), rng.choice([0,2,5,8])) for i in range(rng.choice([2,2,3]))])
def do_common(a, g):
	arrs = [g(x,int) for x in a["arrs"]]
	return dict(vals=q(utils.common_vals(arrs)), inds=[q(x) for x in utils.common_inds(arrs)], union=q(utils.union(arrs)))
def gen_perm(rng, it):
	n = rng.randint(0,8); p = list(range(n)); rng.shuffle(p)
	return dict(n=n, p=p, sub=rng.sample(range(n), rng.randint(0,n)))
def do_perm(a, g):
	return dict(inv=q(utils.inverse_order(g(a["p"],int))), comp=q(utils.complement_inds(a["sub"], a["n"])), compn=q(utils.complement_inds(None, a["n"])))
def gen_csplit(rng, it):
	return dict(sizes=ints(rng, rng.randint(1,7), 0, 4), caps=ints(rng, rng.randint(1,4), 0, 6), lens=ints(rng, rng.randint(1,4), 0, 4), sel=[rng.choice("innss") for i in range(rng.randint(1,7))], nd=ints(rng, rng.randint(1,3), 1, 3))
def do_csplit(a, g):
	arr = g(np.arange(10, 10+sum(a["lens"])))
	o = dict(cs=q(utils.cumsplit(g(a["sizes"],int), g(a["caps"],int))), uncat=[q(x) for x in utils.uncat(arr, a["lens"])])
	# split a slice over groups of dimensions
	sel, nfree = [], sum(a["nd"])
	for i, c in enumerate(a["sel"]):
		if c != "n":
			if nfree == 0: continue
			nfree -= 1
		sel.append(None if c == "n" else slice(i,i+1) if c == "s" else i)
	code = lambda s: [-1 if x is None else 100+x.start if isinstance(x, slice) and x.start is not None else -2 if isinstance(x,slice) else int(x) for x in s]
	o["sel"] = code(sel); o["parts"] = [code(x) for x in utils.split_slice(tuple(sel), a["nd"])]
	j = len(sel)//2
	o["eparts"] = [code(x) for x in utils.split_slice(tuple(sel[:j])+(Ellipsis,)+tuple(sel[j:]), a["nd"])]
	o["esel"] = code(sel[:j]+[slice(None)]*nfree+sel[j:])
	return o
def gen_seq(rng, it): return dict(d=ints(rng, rng.choice([0,1,3,5,8]), 0, 3), e=rng.randint(0,3), n=rng.randint(1,12), i1=0, sub=[])
def do_seq(a, g):
	d = g(a["d"],int); L = list(a["d"])
	o = dict(dedup=q(utils.dedup(d)), ls=[list(x) for x in utils.listsplit(L, a["e"])])
	if len(L): o["rep"] = q(utils.repeat_filler(d, a["n"])); inds = [i%len(L)-(len(L) if i%2 else 0) for i in range(a["n"]%4)]
	else: o["rep"] = [0]*0; inds = []
	o["inds"] = inds; o["wo"] = list(utils.without_inds(L, inds)); o["on"] = list(utils.only_inds(L, inds))
	if len(L): o["one"] = [list(utils.without_inds(L, 0)), list(utils.only_inds(L, -1))]
	else: o["one"] = [[],[]]
	o["mm"] = q(utils.minmax(d)) if len(L) else []
	return o
def gen_tinds(rng, it):
	r, c = rng.randint(1,5), rng.randint(1,5); return dict(r=r, c=c, inds=ints(rng, rng.randint(0,6), 0, r*c-1))
def do_tinds(a, g):
	s = ",".join(["%d" % i if i%3 else "%d:%d:%d" % (i,i+5,1+i%2) if i%2 else "%d:%d" % (i,i+3) for i in a["inds"]]) if a["inds"] else "4"
	return dict(t=q(utils.transpose_inds(g(a["inds"],int), a["r"], a["c"])), nums=q(utils.parse_ints(s)))

# Bins
def gen_linbin(rng, it): return dict(n=rng.randint(1,60), nbin=rng.randint(1,12), bsize=rng.randint(1,9))
def do_linbin(a, g):
	b = utils.linbin(a["n"], a["nbin"]); b2 = utils.linbin(a["n"])
	e = utils.bins2edges(b)
	return dict(b=q(b), b2=q(b2), b3=q(utils.linbin(a["n"], bsize=a["bsize"])), e=q(e), eb=q(utils.edges2bins(g(e))))
def gen_expbin(rng, it): return dict(n=rng.choice([1,2,5,rng.randint(3,100),rng.randint(50,1000)]), nbin=rng.choice([0,1,3,6,12,20]), nmin=rng.choice([1,2,8,8,8,20]), nmax=rng.choice([0,0,0,5,13,40]))
def do_expbin(a, g): return dict(b=q(utils.expbin(a["n"], nbin=a["nbin"] or None, nmin=a["nmin"], nmax=a["nmax"])))
def gen_bin(rng, it):
	n = rng.randint(1,12); c = sorted(set(rng.sample(range(1,n), rng.randint(0,min(3,n-1))) if n > 1 else []))
	e = [0]+c+[n]; pre = rng.choice([[],[2],[2,2]])
	return dict(e=e, pre=pre, d=ints(rng, int(np.prod(pre+[n])), -9, 9), op=rng.choice(["sum","max","mean"]))
def do_bin(a, g):
	n = a["e"][-1]; d = g(np.array(a["d"]).reshape(a["pre"]+[n])); bins = g(utils.edges2bins(np.array(a["e"])))
	op = dict(sum=np.sum, max=np.max, mean=np.mean)[a["op"]]
	r = utils.bin_data(bins, d.astype(float), op=op)
	x = utils.bin_expand(bins, r)
	return dict(r=sh(r*2520), x=sh(x*2520), edges=q(utils.bins2edges(bins)), rr=sh(utils.bin_data(bins, x)*2520))
def gen_cums(rng, it):
	s = rng.choice([[5],[1],[2,3],[3,2],[2,2,2]]); return dict(s=s, d=ints(rng, int(np.prod(s)), -9, 9), ax=rng.choice([-1]+list(range(len(s)))+[-99]), end=rng.choice([True,False]))
def do_cums(a, g):
	d = g(np.array(a["d"]).reshape(a["s"])); ax = None if a["ax"] == -99 else a["ax"]
	return dict(r=sh(utils.cumsum(d, endpoint=a["end"], axis=ax)), axis=(0 if ax is None else ax%len(a["s"])), s=(a["s"] if ax is not None else [len(a["d"])]))
def gen_bincount(rng, it):
	pre = rng.choice([[],[2],[2,2]]); n = rng.randint(1,6); s = [rng.randint(1,4),rng.randint(1,4)]
	return dict(pre=pre, n=n, p=ints(rng, int(np.prod(pre+[n])), 0, 4), w=ints(rng, n, -5, 5), ml=rng.choice([0,3,7]), s=s, pix=[ints(rng,n,-1,5),ints(rng,n,-1,5)])
def do_bincount(a, g):
	p = g(np.array(a["p"]).reshape(a["pre"]+[a["n"]])); w = g(a["w"],float); pix = g(a["pix"],int)
	return dict(c=sh(utils.bincount(p, minlength=a["ml"])), cw=sh(utils.bincount(p, weights=w, minlength=a["ml"])), m=sh(utils.bin_multi(pix, a["s"])), mw=sh(utils.bin_multi(pix, a["s"], weights=w)))
def gen_sumid(rng, it):
	s = rng.choice([[5],[4,2],[2,4],[2,3,2]]); ax = rng.randrange(len(s))
	return dict(s=s, ax=ax, d=ints(rng, int(np.prod(s)), -9, 9), ids=ints(rng, s[ax], 0, 3))
def do_sumid(a, g): return dict(r=sh(utils.sum_by_id(g(np.array(a["d"]).reshape(a["s"])), g(a["ids"],int), axis=a["ax"])))
def gen_unmask(rng, it):
	ms = rng.choice([[5],[2,3]]); m = ints(rng, int(np.prod(ms)), 0, 1); pre = rng.choice([[],[2]])
	return dict(ms=ms, m=m, pre=pre, d=ints(rng, int(np.prod(pre+[sum(m)])), 1, 9), fill=rng.choice([0,-7]))
def do_unmask(a, g):
	d = g(np.array(a["d"],int).reshape(a["pre"]+[sum(a["m"])])); m = g(np.array(a["m"],bool).reshape(a["ms"]))
	return dict(r=sh(utils.unmask(d, m, axis=len(a["pre"]), fill=a["fill"])))
def gen_block(rng, it):
	s = rng.choice([[7],[12],[2,7],[7,2]]); ax = int(np.argmax(s)); b = rng.randint(1,5)
	return dict(s=s, ax=ax, b=b, off=rng.randint(0,b-1), inc=rng.random()<0.7 or b > 4, d=ints(rng, int(np.prod(s)), -9, 9))
def do_block(a, g):
	d = g(np.array(a["d"]).reshape(a["s"])); kw = dict(axis=a["ax"], off=a["off"], inclusive=a["inc"])
	r = utils.block_reduce(d, a["b"], op=np.sum, **kw)
	rm = utils.block_reduce(d, a["b"], **kw)
	x = utils.block_expand(r, a["b"], a["s"][a["ax"]], **kw)
	return dict(r=sh(r), rm=sh(rm*60), x=sh(x))

# Shapes
def gen_pflat(rng, it):
	s = ints(rng, rng.randint(1,4), 1, 3); nd = len(s); axes = rng.sample(range(nd), rng.randint(0,nd-1) if nd > 1 else 0)
	neg = [ax-nd if rng.random() < 0.3 else ax for ax in axes]
	return dict(s=s, axes=neg, ax=axes, pos=rng.randint(0,len(axes)), n=rng.randint(1,nd), mode=rng.choice(["rwc","rw"]), view=rng.random() < 0.4)
def do_pflat(a, g):
	n = int(np.prod(a["s"])); d = g(np.arange(n).reshape(a["s"]))
	f = utils.partial_flatten(d, a["axes"], a["pos"]); o = dict(f=sh(f), back=sh(utils.partial_expand(f, a["s"], a["axes"], a["pos"])))
	w = np.arange(n).reshape(a["s"])
	if a["view"]: w = np.zeros(list(a["s"])+[2],int)[...,0]; w[...] = d
	with utils.flatview(w, a["axes"], mode=a["mode"], pos=a["pos"]) as fw:
		o["fv"] = sh(fw)
		fw += 1000*(1+np.arange(fw.size).reshape(fw.shape))
	o["w"] = sh(w)
	with utils.flatview(d, a["axes"], mode="r", pos=a["pos"]) as fr: o["fr"] = sh(fr)
	return o
def gen_shape(rng, it):
	s = ints(rng, rng.randint(1,4), 1, 3); nd = len(s)
	return dict(s=s, n=rng.randint(0,nd), m=rng.randint(1,6), ax=rng.randint(0,nd), add=sorted(rng.sample(range(nd+1), rng.randint(0,2))), dele=rng.sample(range(nd), rng.randint(0,nd)))
def do_shape(a, g):
	d = g(np.arange(int(np.prod(a["s"]))).reshape(a["s"])); nd = d.ndim; n = a["n"]
	o = dict(pre=sh(utils.preflat(d, n)), post=sh(utils.postflat(d, n)), al=sh(utils.atleast_Nd(d, a["m"])), add=sh(utils.addaxes(d, a["add"])), dele=sh(utils.delaxes(d, a["dele"])))
	o["pren"]  = sh(utils.preflat(d, n-nd)) if n < nd else o["pre"]
	o["ndn"] = []
	if a["m"] >= nd: o["nd"] = sh(utils.to_Nd(d, a["m"], axis=a["ax"])); o["ndn"] = [sh(utils.to_Nd(d, a["m"], axis=-1))]
	else:
		ax = min(a["ax"], a["m"]-1); o["nd"] = sh(utils.to_Nd(d, a["m"], axis=ax)); o["ndn"] = [sh(utils.to_Nd(d, a["m"], axis=ax-a["m"]))]
	return o
def gen_groups(rng, it):
	n, c = rng.randint(1,8), rng.randint(1,3)
	return dict(n=n, c=c, rows=[ints(rng, c, 0, rng.choice([1,2,3])) for i in range(n)])
def do_groups(a, g):
	rows = g(a["rows"],int)
	uv, order, edges = utils.find_equal_groups_fast(rows[:,0])
	return dict(gr=[q(x) for x in utils.find_equal_groups(rows)], uv=q(uv), order=q(order), edges=q(edges), lu=q(utils.label_unique(rows, axes=[1])), lu1=q(utils.label_unique(rows[:,0])),
		lm=q(utils.label_multi([rows[:,0]]+[np.array(["x%d" % v for v in col]) for col in rows.T[1:]])))
def gen_split(rng, it): return dict(w=ints(rng, rng.randint(0,8), 0, 9), n=rng.randint(1,4))
def do_split(a, g):
	w = g(a["w"],int)
	gs, cost, work = utils.greedy_split(a["w"], a["n"], costfun=lambda ws: max([x or 0 for x in ws])) if len(a["w"]) else ([[]]*a["n"],0,[0]*a["n"])
	return dict(eq=[q(x) for x in utils.equal_split(w, a["n"])], gs=[q(x) for x in utils.greedy_split_simple(w, a["n"])], g=[q(x) for x in gs], cost=int(cost or 0), work=[int(x or 0) for x in work])
def gen_bshape(rng, it):
	full = ints(rng, rng.randint(1,4), 1, 3)
	sub = lambda: [x if rng.random() < 0.6 else 1 for x in full[rng.randint(0,len(full)):]]
	A = [sub() for i in range(rng.randint(1,3))]
	if rng.random() < 0.2: A.append([rng.randint(2,4)])
	return dict(A=A, pre=[rng.randint(0,1) for x in A], none=rng.random()<0.3, pd=rng.randint(2,3))
def do_bshape(a, g):
	try: s = list(utils.broadcast_shape(*[tuple(x) for x in a["A"]])); o = dict(ok=True, s=s)
	except ValueError: return dict(ok=False, s=[], arrs=[], none=[])
	# arrays with some leading axes exempt
	arrs = [g(np.arange(int(np.prod(p*[a["pd"]]+x))).reshape(p*[a["pd"]]+x)) for p, x in zip(a["pre"], a["A"])]
	inp = ([None] if a["none"] else [])+arrs; pre = ([0] if a["none"] else [])+a["pre"]
	res = utils.broadcast_arrays(*inp, npre=pre)
	o["none"] = [r is None for r in res[:1]] if a["none"] else []
	o["arrs"] = [sh(r) for r in res if r is not None]
	return o
def gen_box(rng, it):
	def b2():
		p = [sorted(rng.sample(range(0,9),2)) for d in range(2)]
		return [[p[0][0],p[1][0]],[p[0][1],p[1][1]]]
	return dict(A=[b2() for i in range(rng.randint(1,3))], B=[b2() for i in range(rng.randint(1,2))], pad=rng.randint(0,3), desc=rng.random()<0.5)
def do_box(a, g):
	A, B = g(a["A"],int), g(a["B"],int)
	d = g(A[0,:,:]); 
	if a["desc"]: d[:,1] = d[::-1,1].copy(); g.seen[-1] = (d, d.copy())
	return dict(bb=q(utils.bounding_box(A)), bp=q(utils.bounding_box(A.reshape(-1,2))), sl=q(utils.box_slice(A,B)), sl1=q(utils.box_slice(A[0],B[0])), area=q(utils.box_area(A)), ov=q(utils.box_overlap(A,B)), d=q(d), pad=q(utils.pad_box(d,a["pad"])),
		cor=q(utils.box2corners(A[0])), cor3=q(utils.box2corners([[1,2,3],[4,5,6]])), wid=q(utils.widen_box(d.astype(float),2*a["pad"],relative=False)), widr=q(utils.widen_box(d.astype(float),2)))
def gen_unwrapr(rng, it): return dict(w=rng.choice([5,10,360]), r=[ints(rng,2,-400,400),ints(rng,2,-400,400)])
def do_unwrapr(a, g): return dict(r=q(utils.unwrap_range(g(a["r"],float), nwrap=a["w"])))
def gen_num(rng, it): return dict(n=rng.randint(1,400), m=rng.randint(1,60), f=rng.choice([[2],[2,3],[3,2],[2,3,5],[2,3,5,7],[7,5,3,2],[3],[5,3]]), e=rng.randint(0,3))
def do_num(a, g):
	o = dict(p=utils.primes(a["n"]), gcd=utils.gcd(a["n"],a["m"]), lcm=utils.lcm(a["n"],a["m"]))
	if a["n"] >= min(a["f"]) or True:
		o["lo"] = utils.nearest_product(a["n"], a["f"], "below"); o["hi"] = utils.nearest_product(a["n"], a["f"], "above")
		o["m"] = utils.nearest_product(a["m"], a["f"])
	x = g([a["n"]/10-20, -a["m"]/7, a["m"]/4])
	o["x"] = q(x*1000); o["nint"] = q(utils.nint(x)); o["ceil"] = q(utils.ceil(x)); o["floor"] = q(utils.floor(x))
	return o
def gen_nditer(rng, it):
	s = ints(rng, rng.randint(1,3), 0 if rng.random() < 0.2 else 1, 3)
	return dict(s=s, axes=rng.sample(range(len(s)), rng.randint(0,len(s))), lists=[ints(rng, rng.randint(1,3), 0, 9) for i in range(rng.randint(1,3))])
def do_nditer(a, g):
	code = lambda I: [-1 if isinstance(i, slice) else int(i) for i in I]
	return dict(all=[code(I) for I in utils.nditer(a["s"])], some=[code(I) for I in utils.nditer(a["s"], a["axes"])], comb=[[int(x) for x in c] for c in utils.list_combination_iter(a["lists"])])
def gen_sdown(rng, it):
	n = rng.randint(4,12); st = rng.choice([1,2,3,-1,-2,-3])
	i, j = sorted(rng.sample(range(n),2))
	return dict(n=n, d=ints(rng, n, -9, 9), s=[i,j,st] if st > 0 else [j,i,st], two=rng.random()<0.5)
def do_sdown(a, g):
	d = g(a["d"],int); s = slice(*a["s"])
	r = utils.slice_downgrade(np.stack([d,d+1],-1) if a["two"] else d, s, axis=0)
	return dict(r=q(60*(r[:,0] if a["two"] else r)), full=q(60*utils.slice_downgrade(d, slice(None,None,2))))
def gen_outer(rng, it):
	return dict(A=[ints(rng, rng.randint(1,3), -5, 5) for i in range(rng.randint(1,3))], rows=[sorted(ints(rng, 4, 0, 9)) for i in range(3)], v=ints(rng, 3, -1, 10))
def do_outer(a, g):
	rows = g(a["rows"],int); v = g(a["v"],int)
	return dict(r=sh(utils.outer_stack([g(x,int) for x in a["A"]])), left=q(utils.search(rows, v)), right=q(utils.search(rows, v, side="right")))
def gen_resize(rng, it):
	s = ints(rng, rng.randint(1,3), 1, 4); ax = rng.sample(range(len(s)), rng.randint(1,len(s)))
	return dict(s=s, ax=ax, size=ints(rng, len(ax), 1, 5), val=rng.choice([0,-1]))
def do_resize(a, g):
	d = g(np.arange(10, 10+int(np.prod(a["s"]))).reshape(a["s"]))
	return dict(r=sh(utils.resize_array(d, a["size"], axis=a["ax"], val=a["val"])))
def gen_wq(rng, it):
	n = rng.randint(1,6); return dict(n=n, d=[rng.sample(range(-9,10), n) for i in range(2)], w=[ints(rng, n, 1, 4) for i in range(2)], q=rng.choice([0,1,2,3,4]))
def do_wq(a, g):
	d, w = g(a["d"],float), g(a["w"],float)
	r = utils.weighted_quantile(d, w, a["q"]/4)
	m = utils.weighted_median(d)
	i = int(a["n"]*0.5)//2
	return dict(r=q(r, 1e5), m=q(m, 2), mm=q(utils.medmean(d[0])*60), med=q(utils.maskmed(d, d != 0), 2), rt=q(utils.weighted_quantile(d.T, w.T, a["q"]/4, axis=0),1e5))
