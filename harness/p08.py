"""P08 tile maps against the dense maps they stand for"""
import random, operator, numpy as np
from pixell import enmap, utils, tilemap
from lib import q, qf
import geo
TRACE = "TraceP08"
MC  = [dict(module="TilesMC", cfg="TilesMC.cfg", min_states=20000)]
GEN = [dict(name="hist", module="TilesGen", cfg="TilesGen.cfg", simulate=250, depth=14, min=120, thorough_factor=6)]
ASSUMPTIONS = ["wcslib (astropy) evaluates headers correctly"]
OPS = ["add","sub","mul","gt","lt","eq","ne","ge","le","floordiv","truediv","maximum","hypot2","rsub","radd"]

def cases(tier, seed, gen):
	rng = random.Random(seed)
	N = 1 if tier == "quick" else 8
	for h in gen["hist"]:
		A = h["A"]
		A = [int(k) for k, v in A.items() if v] if isinstance(A, dict) else [k for k, v in enumerate(A) if v]
		rng.shuffle(A)
		yield dict(k="hist", a=dict(n=h["n"], t=h["t"], P=h["P"], act0=A, hist=h["hist"], geo=rng.choice(geo.KINDS), dt=rng.choice(["f8","f4","i8"])))
	for it in range(500*N):
		n = [rng.randint(1,7), rng.randint(1,7)]; t = [rng.randint(1,4), rng.randint(1,4)]
		nt = -(-n[0]//t[0])*-(-n[1]//t[1])
		act = rng.sample(range(nt), rng.randint(0, min(nt,6)))
		a = dict(n=n, t=t, act=act, P=rng.choice([0,1,2,3]), geo=rng.choice(geo.KINDS), seed=rng.randint(0,10**6))
		k = ["geom","oper","tiles"][it%3]
		if k == "oper": a["f"] = rng.choice(OPS); a["P2"] = rng.choice([0,a["P"],a["P"],-1]); a["dt"] = rng.choice(["f8","f4"])
		if k == "tiles": a["P"] = rng.choice([0,1,2,2])
		yield dict(k=k, a=a)
	yield dict(k="loose", a=dict(f="mul"), tag="tm-loose-mul")

def vals(n, P, dt="f8"):
	p = np.arange(1, n[0]*n[1]+1)
	v = np.array([((5*p+3*c)%11)-5 for c in range(1, max(P,1)+1)]).astype(dt).reshape((-1,)+tuple(n))
	return v if P else v[0]
def comps(x, nd):
	"""List of flattened components"""
	x = np.asarray(x)
	return [qf(c) for c in (x.reshape((int(np.prod(x.shape[:-nd])),)+x.shape[-nd:]) if x.ndim > nd else x[None])]
def mk(n, t, P, act, wcs, dt="f8", v=None):
	g = tilemap.geometry(((P,) if P else ())+tuple(n), wcs, t, active=act)
	v = vals(n, P, dt) if v is None else v
	m = tilemap.zeros(g, dt)
	for gi in act:
		gy, gx = divmod(gi, -(-n[1]//t[1]))
		m.tiles[gi] = v[...,gy*t[0]:(gy+1)*t[0],gx*t[1]:(gx+1)*t[1]]
	return m

def run(k, a): return globals()["do_"+k](a)

def do_hist(a):
	n, t, P = a["n"], a["t"], a["P"]
	wcs = geo.mkwcs(a["geo"], *n)
	objs = [mk(n, t, P, a["act0"], wcs, a["dt"])]
	F = dict(add=operator.add, sub=operator.sub, mul=operator.mul)
	FI = dict(add=operator.iadd, sub=operator.isub, mul=operator.imul)
	def snap(m):
		r = dict(istm=isinstance(m, tilemap.TileMap) and m.dtype == np.dtype(a["dt"]))
		r["act"] = q(m.active); r["pre"] = list(m.pre)
		r["raw"] = comps(m, 1)
		d = tilemap.to_enmap(m)
		if d.shape[-2:] != tuple(n) or geo.wkey(d.wcs) != geo.wkey(wcs): r["istm"] = False
		r["dense"] = comps(d, 2)
		r["none"] = [bool(x is None) for x in m.tiles]
		pos = []
		for tile in m.active_tiles:
			y, x = geo.to_base(tile.wcs, wcs, 1, 1)
			pos.append([int(round(y[0])), int(round(x[0]))] if abs(y[0]-round(y[0]))+abs(x[0]-round(x[0]))<1e-3 else [-9,-9])
		r["pos"] = pos
		return r
	snaps = []
	for o in a["hist"]:
		op, m = o["op"], objs[o["i"]-1]
		j = objs[o["j"]-1] if o.get("j",0) > 0 else None
		ref = False
		v = m.dtype.type(o["v"]) if "v" in o else None
		try:
			if   op == "copy": objs.append(m.copy())
			elif op == "comp": objs.append(m[o["c"]-1])
			elif op == "bin" and o["f"] in ("add","sub") and m.pre == j.pre and (len(objs)+o["i"])%2: objs.append(m.insert(j, op=F[o["f"]]))
			elif op == "bin":  objs.append(F[o["f"]](m, j))
			elif op == "binc": objs.append(F[o["f"]](m, v))
			elif op == "ibin": objs[o["i"]-1] = FI[o["f"]](m, j)
			elif op == "ibinc": objs[o["i"]-1] = FI[o["f"]](m, v)
			elif op == "with": objs.append(m.with_tiles(j if j is not None else o["act"], strict=o["strict"]))
			elif op == "tile": m.tiles[o["gi"]] = v
			elif op == "pix":
				tile = m.tiles[o["gi"]]
				if tile is None: raise IndexError
				y, x = divmod(o["k"]%(tile.shape[-2]*tile.shape[-1]), tile.shape[-1])
				if o["k"]%2: tile[...,y,x] = v
				else: m.tiles[o["gi"],...,y,x] = v
			elif op == "sum": objs.append(m.sum(0) if o["i"]%2 else np.sum(m, axis=0))
			elif op == "insert": objs.append(m.insert(j))
		except (ValueError, IndexError):
			if op not in ("ibin","tile","pix"): raise
			ref = True
		snaps.append(dict(refused=ref, objs=[snap(m) for m in objs]))
	return dict(snaps=snaps)

def do_geom(a):
	n, t, P, act = a["n"], a["t"], a["P"], a["act"]
	wcs = geo.mkwcs(a["geo"], *n)
	g = tilemap.geometry(((P,) if P else ())+tuple(n), wcs, t, active=act)
	rng = random.Random(a["seed"])
	pos, shapes, idx = [], [], []
	for i in range(g.ntile):
		tg = g.tiles[i]
		y, x = geo.to_base(tg.wcs, wcs, 1, 1)
		pos.append(q([y[0],x[0]])); shapes.append(list(tg.shape[-2:]))
		idx.append(q(g.ind2grid(i)))
	if rng.random() < 0.5: g = g.copy(active=[0]).copy(active=act)
	other = act[1:]+act[:1]
	return dict(grid=list(g.grid_shape), ntile=g.ntile, shapes=q(g.tile_shapes), npixs=q(g.npixs), lookup=q(g.lookup), size=int(g.size),
		ind2grid=idx, grid2ind=[int(g.grid2ind(*v)) for v in idx], tpos=pos, tshapes=shapes,
		compat=[g.compatible(g.copy()), g.compatible(g.copy(active=other)), g.compatible(g.copy(add_active="all")),
			g.compatible(tilemap.geometry(g.shape, wcs, [t[0]+1,t[1]]))])

def do_oper(a):
	n, t, P, act = a["n"], a["t"], a["P"], a["act"]
	wcs = geo.mkwcs(a["geo"], *n)
	r = np.random.default_rng(a["seed"])
	f = a["f"]
	m = mk(n, t, P, act, wcs, a["dt"], v=r.integers(-4,5,((P,) if P else ())+tuple(n)))
	if a["P2"] < 0: b = m.dtype.type(r.choice([-3,2,1]))
	else: b = mk(n, t, a["P2"], act, wcs, a["dt"], v=r.choice([-3,-2,-1,1,2,3],((a["P2"],) if a["P2"] else ())+tuple(n)))
	if f == "truediv": b = np.sign(b)
	m0, b0 = np.array(m), np.array(b)
	if   f == "maximum": out = np.maximum(m, b)
	elif f == "hypot2":  out = np.square(m)+np.square(b)
	elif f == "rsub": out = b-m
	elif f == "radd": out = b+m
	else: out = getattr(operator, f)(m, b)
	same = np.array_equal(m, m0) and np.array_equal(b, b0)
	if a["P2"] < 0: d2 = [[int(b)]*m.shape[-1]]
	else: d2 = comps(b, 1)
	nc = max(P, a["P2"], 0)
	ok = isinstance(out, tilemap.TileMap) and list(out.active) == act and tuple(out.geometry.shape) == ((nc,) if nc else ())+tuple(n)
	if ok: ok = tilemap.to_enmap(out).shape == out.geometry.shape
	return dict(d1=comps(m,1), d2=d2, out=comps(out,1), samegeo=bool(ok), same=same)

def do_tiles(a):
	n, t, P, act = a["n"], a["t"], a["P"], a["act"]
	wcs = geo.mkwcs(a["geo"], *n)
	shape = ((P,) if P else ())+tuple(n)
	g = tilemap.geometry(shape, wcs, t, active=act)
	v = enmap.ndmap(vals(n, P), wcs)
	m = mk(n, t, P, act, wcs)
	full = []
	for gi in range(g.ntile):
		gy, gx = g.ind2grid(gi)
		full.append(v[...,gy*t[0]:(gy+1)*t[0],gx*t[1]:(gx+1)*t[1]] if gi in act else None)
	g2 = tilemap.geometry(tuple(n) if act else shape, wcs, t)
	m1 = tilemap.from_tiles(full, g2)
	m2 = tilemap.from_active_tiles([full[gi] for gi in act], tilemap.geometry(tuple(n) if act else shape, wcs, t, active=act))
	tl = lambda x: [] if x is None else comps(x, 2)
	try:
		tilemap.from_active_tiles([full[gi] for gi in act]+[v], g); refused = False
	except ValueError: refused = True
	try:
		m + mk([n[0],n[1]], [t[0]+1,t[1]], P, act[:0], wcs); refused = False
	except ValueError: pass
	res = dict(from_tiles=comps(tilemap.to_enmap(m1),2), from_active=comps(tilemap.to_enmap(m2),2),
		tiles=[tl(m.tiles[i]) for i in range(len(m.tiles))], iter=[tl(x) for x in m.tiles],
		atiles=[tl(m.active_tiles[i]) for i in range(len(m.active_tiles))], aiter=[tl(x) for x in m.active_tiles],
		rows=[tl(m.active_tiles[i,...,:1,:]) for i in range(len(act))], full=comps(tilemap.to_enmap(tilemap.full(g, 7)),2), refused=refused,
		plain=type(m[...,:1]) is np.ndarray, mul=[], mat=[])
	if P == 2:
		mat = np.array([[1,-2],[3,1]]); res["mat"] = mat.tolist()
		M = tilemap.zeros(tilemap.geometry((2,2)+tuple(n), wcs, t, active=act)); M[:] = mat[:,:,None]
		res["mul"] = comps(tilemap.to_enmap(tilemap.map_mul(M, m)), 2)
	return res

def do_loose(a):
	wcs = geo.mkwcs("car", 1, 2)
	x = mk([1,2],[1,1],0,[0],wcs,v=np.array([[3.,4]])); y = mk([1,2],[1,1],0,[1],wcs,v=np.array([[5.,6]]))
	return dict(got=comps(tilemap.to_enmap(x*y),2), want=comps(tilemap.to_enmap(x)*tilemap.to_enmap(y),2))
