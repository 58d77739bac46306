"""P05 padding, downgrading, upgrading, shifting, stamps, apodisation, cropping: histories of operations on one map"""
import random, numpy as np
from pixell import enmap, utils, wcsutils
from lib import q, qf
import geo
TRACE = "TraceP05"
MC = [dict(module="ResampleMC", cfg="ResampleMC.cfg", min_states=5000)]
ASSUMPTIONS = ["wcslib (astropy) evaluates headers correctly"]
U = 10000

def cases(tier, seed, gen):
	rng = random.Random(seed)
	N = 1 if tier == "quick" else 8
	for it in range(1400*N):
		n = [rng.randint(1,6), rng.randint(1,7)]
		yield dict(k="chain", a=dict(n=n, pre=rng.choice([[],[],[],[2],[1,2]]), geo=rng.choice(geo.KINDS), flip=[rng.choice([1,-1]),rng.choice([1,-1])],
			seed=rng.randint(0,10**6), nop=rng.choice([1,1,2,3]), dt=rng.choice(["f8","f8","f4"]), op=rng.choice(OPS)))

OPS = ["pad","pad","downgrade","downgrade","downgrade","upgrade","upgrade","shift","fftshift","stamp","apod","blank","crop","geo","geo","tile","union"]

def st(m):
	return dict(pre=q(m.shape[:-2]), n=q(m.shape[-2:]), d=[qf(c, U) for c in np.asarray(m).reshape((-1,)+m.shape[-2:])])
def pos(wcs, base, n):
	y, x = geo.to_base(wcs, base, n[0], n[1], maxn=1000)
	return dict(py=qf(y,1000), px=qf(x,1000))

def run(k, a):
	rng = random.Random(a["seed"])
	nr  = np.random.default_rng(a["seed"])
	shape = tuple(a["pre"])+tuple(a["n"])
	vals = nr.integers(-20, 20, shape) if rng.random() < 0.7 else nr.integers(0,2,shape)*5
	m = enmap.ndmap(vals.astype(a["dt"]), geo.mkwcs(a["geo"], a["n"][0], a["n"][1], a["flip"]))
	steps = []
	for i in range(a["nop"]):
		op = a["op"] if i == a["nop"]-1 else rng.choice(["pad","downgrade","upgrade","shift","stamp"])
		s, m = step(op, m, rng)
		steps.append(s)
		if min(m.shape[-2:]) == 0 or m.size > 200: break
	return dict(steps=steps)

def step(op, m, rng):
	ny, nx = m.shape[-2:]
	w0, d0 = m.wcs.deepcopy(), np.array(m)
	s = dict(op=op); s["in"] = st(m)
	out = None
	if op == "pad":
		form = rng.choice([0,1,2])
		pix = [[rng.choice([0,0,1,2,3]) for _ in range(2)] for _ in range(2)]
		if form == 0: pix = [[pix[0][0]]*2]*2
		if form == 1: pix = [pix[0],pix[0]]
		arg = [pix[0][0], pix[0], pix][form]
		s["wrap"] = rng.random() < 0.5; v = rng.choice([0,0,7])
		arg0 = np.array(arg)
		kw = dict(value=v) if v else {}
		out, sl = enmap.pad(m, arg0, return_slice=True, wrap=s["wrap"], **kw)
		if np.any(arg0 != np.array(arg)): s["wrap"] = "modified"
		s.update(pix=pix, value=v*U, inner=st(out[sl])["d"])
	elif op == "downgrade":
		f = [rng.randint(1,4), rng.randint(1,4)]
		if rng.random() < 0.3: f[1] = f[0]
		incl = rng.random() < 0.4
		f = [min(f[0],max(ny,1)), min(f[1],max(nx,1))]
		mode = rng.choice(["none","off","ref"])
		off = [0,0]; kw = {}
		if mode == "off":
			off = [rng.randint(0,f[0]-1), rng.randint(0,f[1]-1)]
		elif mode == "ref":
			rp = [rng.randint(0,ny-1), rng.randint(0,nx-1)]
			off = [rp[0]%f[0], rp[1]%f[1]]
		if not incl: # must leave at least a block
			for j,n in enumerate((ny,nx)):
				if (n-off[j])//f[j] < 1: off, mode = [0,0], "none"
		if mode == "off": kw["off"] = off if rng.random()<0.5 or off[0]!=off[1] else off[0]
		if mode == "ref":
			p = w0.wcs_pix2world([[rp[1],rp[0]]],0)[0][::-1]*utils.degree
			kw["ref"] = p
		red = rng.choice(["mean","mean","sum","max","min"])
		if red != "mean": kw["op"] = getattr(np, red)
		if incl: kw["inclusive"] = True
		if f == [1,1]: off = [0,0]; incl = False
		out = enmap.downgrade(m, f[0] if f[0]==f[1] and rng.random()<0.5 else f, **kw)
		for j in range(2):
			if f[j] == 1: off[j] = 0
		s.update(f=f, off=off, incl=incl, red=red)
	elif op == "upgrade":
		f = [rng.randint(1,4), rng.randint(1,4)]
		incl = rng.random() < 0.4
		off = [rng.randint(0,f[0]-1), rng.randint(0,f[1]-1)] if rng.random() < 0.5 else [0,0]
		osh = []; kw = {}
		if any(off): kw["off"] = off
		if incl: kw["inclusive"] = True
		if incl and rng.random() < 0.6:
			# a shape that the input could be the result of downgrading
			for j,n in enumerate((ny,nx)):
				nb = n-(off[j]>0)
				osh.append(off[j]+max(0,nb-1)*f[j]+(rng.randint(1,f[j]) if nb > 0 else 0))
			kw["oshape"] = tuple(osh)
		elif not incl and rng.random() < 0.4:
			osh = [off[j]+n*f[j]+rng.randint(0,f[j]-1) for j,n in enumerate((ny,nx))]
			kw["oshape"] = tuple(osh)
		out = enmap.upgrade(m, f, **kw)
		s.update(f=f, off=off, incl=incl, oshape=osh)
	elif op == "shift":
		off = [rng.randint(-8,8), rng.randint(-8,8)]
		keep = rng.random() < 0.3
		frac = rng.random() < 0.3 and m.dtype == np.float64
		if frac: out = enmap.fractional_shift(m, np.array(off,float), keepwcs=keep)
		else:
			inplace = rng.random() < 0.3
			if inplace:
				c = m.copy(); r = enmap.shift(c, off, inplace=True, keepwcs=keep); out = c
			else: out = enmap.shift(m, off, keepwcs=keep)
		s.update(off=off, keep=keep, frac=frac)
	elif op == "fftshift":
		s["inv"] = rng.random() < 0.5
		f = enmap.ifftshift if s["inv"] else enmap.fftshift
		out = f(m)
	elif op == "stamp":
		n = [rng.randint(1,5), rng.randint(1,5)]
		o = [[rng.randint(-7,ny+2), rng.randint(-7,nx+2)] for _ in range(rng.randint(1,3))]
		mode = rng.choice(["padslice","stamps","list"])
		v = 0
		if   mode == "padslice":
			o = o[:1]; dv = rng.choice([0,3,None])
			box = [o[0],[o[0][0]+n[0],o[0][1]+n[1]]]
			out = enmap.padslice(m, box, **({} if dv is None else dict(default=dv))); v = q(np.nan) if dv is None else dv*U
		else:
			v = q(np.nan)
			r = enmap.stamps(m, o, n if rng.random()<0.5 or n[0]!=n[1] else n[0], aslist=mode=="list")
			j = 0 if mode == "stamps" else rng.randrange(len(o))
			if len(r) != len(o): v = -1
			out = r[j]; o = [o[j]]
		s.update(n=n, o=o[0], value=v)
		if np.any(~np.isfinite(out)):
			s.update(out=st(out), same=bool(np.array_equal(d0, m) and geo.wkey(w0)==geo.wkey(m.wcs)), **pos(out.wcs, w0, out.shape[-2:]))
			return s, enmap.ndmap(np.nan_to_num(out, nan=2), out.wcs)
	elif op == "apod":
		fill = rng.choice(["zero","zero","mean","crossfade"])
		prof = "lin" if fill == "crossfade" else rng.choice(["lin","cos"])
		ws = [w for w in (0,1,2,3,5) ]
		w = [rng.choice([v for v in ws if v <= n]) for n in (ny,nx)]
		if fill == "crossfade": w = [min(w[0],ny//2), min(w[1],nx//2)]
		if rng.random() < 0.3: w = [min(w)]*2
		inplace = rng.random() < 0.3
		src = m.copy() if inplace else m
		out = enmap.apod(src, w if w[0]!=w[1] else w[0], profile=prof, fill=fill, inplace=inplace)
		if inplace: out = src
		s.update(fill=fill, profile=prof, w=w)
	elif op in ("blank","crop"):
		# a map with margins
		m = enmap.ndmap(np.round(np.array(m),3), w0).reshape((-1,)+m.shape[-2:])[0]
		v = rng.choice([0,0,7])
		m = enmap.pad(m, [[rng.randint(0,3),rng.randint(0,3)],[rng.randint(0,3),rng.randint(0,3)]], value=v)
		if np.all(m == v): m[0,0] = v+1
		s["in"] = st(m); w0, d0 = m.wcs.deepcopy(), np.array(m); s["value"] = v*U
		if op == "blank":
			s["blanks"] = q(enmap.find_blank_edges(m, v)); s.update(out=st(m), py=[], px=[])
		else:
			s["margin"] = rng.choice([0,0,1,2,5])
			# padding beyond the map is with zeros
			if v != 0: s["margin"] = 0
			out, info = enmap.autocrop(m, value=v, margin=s["margin"], return_info=True)
			s["again"] = st(enmap.padcrop(m, info))["d"]
	elif op == "geo":
		which = rng.choice(["down","up","scale","Gdown","Gscale"])
		shape = m.shape
		if which in ("down","Gdown"):
			f = [rng.randint(1,min(3,ny)), rng.randint(1,min(3,nx))]
			r = enmap.downgrade_geometry(shape, m.wcs, f) if which=="down" else enmap.Geometry(shape, m.wcs).downgrade(f)
			e = [ny//f[0], nx//f[1]]
			ey, ex = [[1000*i*f[j]+500*(f[j]-1) for i in range(e[j])] for j in range(2)]
		else:
			f = [rng.randint(1,3), rng.randint(1,3)]
			r = enmap.upgrade_geometry(shape, m.wcs, f) if which=="up" else enmap.scale_geometry(shape, m.wcs, f) if which=="scale" else enmap.Geometry(shape, m.wcs).scale(f)
			e = [ny*f[0], nx*f[1]]
			ey, ex = [[int(round(1000*((i+0.5)/f[j]-0.5))) for i in range(e[j])] for j in range(2)]
		osh, owcs = r
		s.update(shape=q(osh), eshape=list(m.shape[:-2])+e, ey=ey, ex=ex, out=st(m), **pos(owcs, w0, osh[-2:]))
	elif op == "tile":
		cy = sorted(set([0,ny]+[rng.randint(0,ny) for _ in range(2)])); cx = sorted(set([0,nx]+[rng.randint(0,nx) for _ in range(2)]))
		out = enmap.tile_maps([[m[...,y1:y2,x1:x2] for x1,x2 in zip(cx[:-1],cx[1:])] for y1,y2 in zip(cy[:-1],cy[1:])])
	elif op == "union":
		boxes = []
		for _ in range(rng.randint(1,3)):
			y, x = rng.randint(-3,4), rng.randint(-3,4)
			boxes.append([[y,x],[y+rng.randint(1,4),x+rng.randint(1,4)]])
		geos = []
		for b in boxes:
			w = w0.deepcopy(); w.wcs.crpix -= b[0][::-1]
			geos.append(((b[1][0]-b[0][0], b[1][1]-b[0][1]), w))
		osh, owcs = enmap.union_geometry(geos)
		s.update(boxes=boxes, out=dict(pre=[],n=q(osh),d=[]), **pos(owcs, w0, osh))
	if out is not None:
		s["out"] = st(out); s.update(pos(out.wcs, w0, out.shape[-2:]))
	s["same"] = bool(np.array_equal(d0, np.asarray(m)) and geo.wkey(w0) == geo.wkey(m.wcs))
	return s, (m if out is None else out)
