"""P01 indexing"""
import random, numpy as np
from pixell import enmap, utils
from lib import q, qf
from geo import mkwcs, wkey, to_base, KINDS
TRACE = "TraceP01"
MC  = [dict(module="SlicingMC", cfg="SlicingMC.cfg", min_states=1000),
       dict(module="SlicingMC", cfg="SlicingMCbig.cfg", min_states=1000, tier="thorough", timeout=800)]
GEN = [dict(name="chains", module="SlicingGen", cfg="SlicingGen.cfg", simulate=700, depth=8, min=400, thorough_factor=6)]
ASSUMPTIONS = ["base geometries are inside the valid range of their projection", "astropy/wcslib evaluates the header correctly"]
NONE = 999
def sl(s): return slice(*[None if v == NONE else v for v in s])

def cases(tier, seed, gen):
	rng = random.Random(seed)
	pres = [[], [], [2], [3], [2,2], [1]]
	for n, g in enumerate(gen["chains"]):
		kind = KINDS[n % len(KINDS)]
		flip = rng.choice([[1,-1],[1,1],[-1,-1],[-1,1]])
		a = dict(n=g["shape"], chain=g["chain"], pre=rng.choice(pres), kind=kind, flip=flip)
		yield dict(k="chain", a=a)
		if n % 2 == 0: yield dict(k="geo", a=a)
		if n % 4 == 1: yield dict(k="geoclass", a=a)
	# empty and very out of range slices
	for s in [[3,1,NONE],[2,2,1],[-50,2,1],[50,1,-1],[-1,-50,-1],[50,60,1],[0,5,-1],[-20,-10,2],[7,-9,-2],[1,NONE,-1],[0,NONE,-2],[-3,-3,NONE],[2,99,3]]:
		for kind in ["car", "tan"]:
			for which in range(2):
				ch = [s, [NONE,NONE,NONE]]
				if which: ch = ch[::-1]
				a = dict(n=[5,6], chain=[ch], pre=[], kind=kind, flip=[1,-1])
				for k in ["chain", "geo", "geoclass"]: yield dict(k=k, a=a)
	nidx = 900 if tier == "quick" else 5000
	for n in range(nidx):
		pre = rng.choice([[], [2], [3], [2,3], [1,2]])
		shape = [rng.randint(1,6), rng.randint(1,6)]
		dims = pre + shape
		nd = len(dims)
		nuse = rng.randint(0, nd)
		items = []
		hasarr = False
		for d in range(nuse):
			c = rng.random()
			if c < 0.65:
				def e(): return rng.choice([NONE, NONE]+list(range(-8,9)))
				items.append(dict(t="s", v=[e(), e(), rng.choice([NONE,1,1,-1,2,-2,3])]))
			else:
				items.append(dict(t="i", v=[0]))
		if rng.random() < 0.5: items.insert(rng.randint(0, len(items)), dict(t="e", v=[]))
		if rng.random() < 0.35: items.insert(rng.choice([0, rng.randint(0, len(items))]), dict(t="n", v=[]))
		# now that the axis of each item is known, fill in integers
		cons = [it for it in items if it["t"] in "sia"]
		ell  = [i for i, it in enumerate(items) if it["t"] == "e"]
		nleft = sum(1 for it in items[:ell[0]] if it["t"] in "sia") if ell else len(cons)
		for c, it in enumerate(cons):
			axis = c if c < nleft else nd-len(cons)+c
			if it["t"] == "i": it["v"] = [rng.randint(-dims[axis], dims[axis]-1)]
		# an index array on the leading axis, with only slices besides it
		if pre and items and items[0]["t"] == "s" and all(it["t"] in "se" for it in items) and rng.random() < 0.3:
			items[0] = dict(t="a", v=[rng.randint(-dims[0], dims[0]-1) for _ in range(rng.randint(1,4))])
		yield dict(k="index", a=dict(n=shape, pre=pre, items=items, kind=rng.choice(KINDS), flip=rng.choice([[1,-1],[-1,1]])))

def pos(wcs, base, shape):
	if min(shape[-2:]) <= 0: return [], []
	y, x = to_base(wcs, base, shape[-2], shape[-1])
	return qf(y, 1000), qf(x, 1000)

def run(k, a):
	ny, nx = a["n"]
	wcs  = mkwcs(a["kind"], ny, nx, a["flip"])
	key  = wkey(wcs)
	dims = tuple(a["pre"]) + (ny, nx)
	m = enmap.ndmap(np.arange(np.prod(dims), dtype=float).reshape(dims), wcs)
	base = wcs.deepcopy()
	o = {}
	if k == "chain":
		r = m
		for c in a["chain"]: r = r[..., sl(c[0]), sl(c[1])]
		o["shape"] = list(r.shape)
		o["data"] = qf(r)
		o["type"] = type(r).__name__
		o["ypos"], o["xpos"] = pos(r.wcs, base, r.shape)
		r[...] = -1-np.arange(r.size).reshape(r.shape)
		o["written"] = qf(m)
		o["basesame"] = wkey(m.wcs) == key and wkey(wcs) == key
	elif k in ("geo", "geoclass"):
		if k == "geo":
			shape, w = dims, wcs
			for c in a["chain"]:
				shape, w = enmap.slice_geometry(shape, w, (sl(c[0]), sl(c[1])))
		else:
			g = enmap.Geometry(dims, wcs)
			for c in a["chain"]: g = g[sl(c[0]), sl(c[1])]
			shape, w = g.shape, g.wcs
		o["shape"] = list(shape)
		o["ypos"], o["xpos"] = pos(w, base, shape)
		o["basesame"] = wkey(wcs) == key
	elif k == "index":
		sel = tuple({"s": lambda v: sl(v), "i": lambda v: v[0], "e": lambda v: Ellipsis, "n": lambda v: None, "a": lambda v: list(v)}[it["t"]](it["v"]) for it in a["items"])
		if len(sel) == 1: sel = sel[0]
		r = m[sel]
		o["type"] = "ndmap" if isinstance(r, enmap.ndmap) else "ndarray"
		if not isinstance(r, np.ndarray): r = np.asarray(r)
		o["shape"] = list(r.shape)
		o["data"] = qf(r)
		o["ypos"], o["xpos"] = pos(r.wcs, base, r.shape) if o["type"] == "ndmap" else ([], [])
		o["basesame"] = wkey(m.wcs) == key
	return o
