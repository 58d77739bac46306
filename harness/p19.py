"""P19 padded tiles"""
import random, numpy as np
from pixell import enmap, utils, wcsutils
from lib import q
TRACE = "TraceP19"
MC  = [dict(module="PadtilesMC", cfg="PadtilesMC.cfg", min_states=10000)]
GEN = []
ASSUMPTIONS = ["the padding is at most half the tile size, as documented", "the maps that are written to are floating point, and are not the ones being read"]
D = utils.degree
def mkwcs(per, ny, nx, flip):
	if per == 0: w = wcsutils.WCS(naxis=2); w.wcs.cdelt = [1,1]; w.wcs.crpix = [1,1]
	else:
		c = 360./per; w = wcsutils.WCS(naxis=2); w.wcs.ctype = ["RA---CAR","DEC--CAR"]
		w.wcs.cdelt = [c if flip else -c, min(c,180./max(ny,1)/1.5)]; w.wcs.crval = [30,0]; w.wcs.crpix = [nx/2., (ny+1)/2.]
	w.wcs.set(); return w
def cases(tier, seed, gen):
	rng = random.Random(seed); N = 1 if tier == "quick" else 8
	for _ in range(260*N):
		ny, nx = rng.randint(1,9), rng.randint(1,9)
		kind = rng.choice(["full","full","part","patch","plain"])
		per = dict(full=nx, part=nx+rng.randint(1,4), patch=360, plain=0)[kind]
		if kind in ("full","part") and per < 3: per = nx = 6
		t = [rng.randint(1,6), rng.randint(1,6)]
		p = [rng.randint(0,t[0]//2), rng.randint(0,t[1]//2)]; g = [rng.randint(0,3), rng.randint(0,3)]
		if rng.random() < 0.2: t = [rng.randint(1,6)]*2; v = rng.randint(0,t[0]//2); p = [v,v]; g = [rng.randint(0,3)]*2
		nt = -(-ny//t[0])*-(-nx//t[1]); area = (t[0]+2*(p[0]+g[0]))*(t[1]+2*(p[1]+g[1]))
		if nt*area > 1500: continue
		modes = rng.choice(["auto","auto","auto","rw","rw","wr","r","w","rrw","ww","rww"])
		nm = len(modes) if modes != "auto" else rng.choice([1,2,2,3])
		maps = [dict(pre=rng.choice([[],[],[],[2],[1,2],[1]]), seed=rng.randint(0,10**6)) for _ in range(nm)]
		k = rng.choice([1,1,1,2,3]); order = list(range(k)); rng.shuffle(order)
		if rng.random() < 0.15: order = order[:1]
		yield dict(k="pad", a=dict(n=[ny,nx], per=per, flip=rng.random() < 0.5, t=t, p=p, g=g, modes=modes, maps=maps, step=k, order=order,
			A=rng.choice([1,1,1,2,0]), B=rng.choice([0,0,1,3]), C=rng.choice([0,0,1]), dt=rng.choice(["f8","f8","f4"]), scalar=rng.random() < 0.5, via=rng.choice(["padtiles","padtiles","class"])))
	for _ in range(50*N):
		ny, nx = rng.randint(1,7), rng.randint(1,7); per = rng.choice([nx if nx > 2 else 360,360,0])
		yield dict(k="stamps", a=dict(n=[ny,nx], per=per, flip=rng.random() < 0.5, sh=[rng.randint(1,5),rng.randint(1,5)], scalar=rng.random() < 0.2, pos=[[rng.randint(-3,ny+1),rng.randint(-3,nx+1)] for _ in range(rng.randint(1,3))], aslist=rng.random() < 0.5, seed=rng.randint(0,10**6)))
	for _ in range(30*N):
		hs = [rng.randint(1,3) for _ in range(rng.randint(1,3))]; ws = [rng.randint(1,3) for _ in range(rng.randint(1,3))]
		yield dict(k="join", a=dict(hs=hs, ws=ws, pre=rng.choice([[],[2]]), per=rng.choice([0,360,12]), seed=rng.randint(0,10**6)))
def ints(seed, shape, dt="f8"):
	return np.random.default_rng(seed).integers(-9, 10, shape).astype(dt)
def offset(m, tile, per):
	"""Pixel of m where the sky position of the tile's first two corners are"""
	o = []
	for y, x in [(0,0),(tile.shape[-2]-1,tile.shape[-1]-1)]:
		pix = [y,x] if per == 0 else m.sky2pix(enmap.pix2sky(tile.shape, tile.wcs, [y,x], safe=False), safe=False)
		if per == 0: pix = m.wcs.wcs_world2pix(*tile.wcs.wcs_pix2world(x,y,0),0)[::-1]
		o += [q(pix[0],1000), q(pix[1],1000)]
	return o
def run(k, a):
	if k == "pad":
		ny, nx = a["n"]; w = mkwcs(a["per"], ny, nx, a["flip"])
		maps = [enmap.ndmap(ints(d["seed"], tuple(d["pre"])+(ny,nx), a["dt"]), w.deepcopy()) for d in a["maps"]]
		old = [np.array(m) for m in maps]
		sc = lambda v: v[0] if a["scalar"] and v[0] == v[1] else tuple(v)
		modes = a["modes"]
		real = modes if modes != "auto" else ("r" if len(maps) == 1 else "r"*(len(maps)-1)+"w")
		its = []
		for start in a["order"]:
			kw = dict(tshape=sc(a["t"]), pad=sc(a["p"]), margin=sc(a["g"]), start=start, step=a["step"])
			if a["via"] == "class":
				tiler = enmap.Padtiler(**kw)
				it = utils.zip2(*[tiler.read(m) if io == "r" else tiler.write(m) for m, io in zip(maps,real)])
			else: it = enmap.padtiles(*maps, mode=modes, **kw)
			ti = start
			for tiles in it:
				rec = [dict(sh=list(t.shape), d=q(np.array(t).reshape(-1)), off=offset(m,t,a["per"])) for t, m in zip(tiles,maps)]
				its.append(rec)
				r = [t for t, io in zip(tiles,real) if io == "r"]
				src = np.array(r[0]).reshape((-1,)+r[0].shape[-2:])[0] if r else np.zeros(tiles[0].shape[-2:])
				for t, io in zip(tiles,real):
					if io == "w":
						v = np.array([a["A"]*src+a["B"]*(ti+1)+a["C"]*c for c in range(int(np.prod(t.shape[:-2])))])
						t[:] = v.reshape(t.shape)
					else: t[:] = 55 # writes to read tiles are discarded
				ti += a["step"]
		full = (2*a["p"][0]+1)*(2*a["p"][1]+1)
		return dict(real=[c for c in real], its=its, old=[q(o.reshape(-1)) for o in old], new=[q(np.array(m).reshape(-1), full) for m in maps],
			pre=[int(np.prod(d["pre"])) for d in a["maps"]])
	if k == "stamps":
		ny, nx = a["n"]; m = enmap.ndmap(ints(a["seed"],(ny,nx)), mkwcs(a["per"],ny,nx,a["flip"]))
		sh = a["sh"][0] if a["scalar"] else a["sh"]
		r = enmap.stamps(m, a["pos"], sh, aslist=a["aslist"])
		return dict(m=q(np.array(m).reshape(-1)), n=len(r), sh=list(r[0].shape), d=[q(np.array(x).reshape(-1)) for x in r], off=[offset(m,x,a["per"]) for x in (r if a["aslist"] else r[:1])])
	if k == "join":
		H, W = sum(a["hs"]), sum(a["ws"]); w = mkwcs(a["per"],H,W,False); m = enmap.ndmap(ints(a["seed"],tuple(a["pre"])+(H,W)), w)
		ys, xs = np.cumsum([0]+a["hs"]), np.cumsum([0]+a["ws"])
		r = enmap.tile_maps([[m[...,ys[i]:ys[i+1],xs[j]:xs[j+1]] for j in range(len(a["ws"]))] for i in range(len(a["hs"]))])
		return dict(m=q(np.array(m).reshape(-1)), d=q(np.array(r).reshape(-1)), sh=list(r.shape), off=offset(m,r,a["per"]), msh=list(m.shape))
