"""P11 distance maps, labels, masks and catalogue matching"""
import random, numpy as np
from pixell import enmap, utils, distances, pointsrcs
from lib import q
TRACE = "TraceP11"
MC  = [dict(module="DistancesMC", cfg="DistancesMC.cfg", min_states=40000)]
GEN = []
ASSUMPTIONS = ["the methods that propagate fronts may be off by up to a pixel and a half, as documented for domains narrower than a pixel", "angular distances of the oracle are computed in double precision outside the specification", "rmax is positive"]
D = utils.degree; U = 1e7
def vec(p): return np.array([np.cos(p[0])*np.cos(p[1]),np.cos(p[0])*np.sin(p[1]),np.sin(p[0])])
def dmat(a, b):
	"""angular distances between positions a[2,n] and b[2,m]"""
	va, vb = vec(a).T[:,None], vec(b).T[None]
	return 2*np.arctan2(np.sqrt(np.sum((va-vb)**2,-1)), np.sqrt(np.sum((va+vb)**2,-1)))
def geom(g):
	ny, nx, r = g["ny"], g["nx"], g["res"]/1000*D
	if g["kind"] == "full": return enmap.fullsky_geometry(res=g["res"]/1000*D, variant=g["var"])
	if g["kind"] == "car":
		dec, ra = g["dec"]*D, g["ra"]*D; s = g["flip"]
		return enmap.geometry(np.array([[dec-s[0]*ny*r/2,ra+s[1]*nx*r/2],[dec+s[0]*ny*r/2,ra-s[1]*nx*r/2]]), shape=(ny,nx), proj=g["proj"])
	return enmap.geometry(np.array([g["dec"],g["ra"]])*D, res=r, shape=(ny,nx), proj=g["kind"])
def pixsize(g, shape, wcs): return float(np.max(np.abs(wcs.wcs.cdelt)))*D
def cases(tier, seed, gen):
	rng = random.Random(seed); N = 1 if tier == "quick" else 6
	def geo(big=14):
		k = rng.choice(["full","car","car","car","tan","zea"])
		if k == "full": return dict(kind=k, ny=0, nx=0, res=rng.choice([20000,30000,36000]), var=rng.choice(["CC","fejer1"]))
		ny, nx, res = rng.randint(1,big), rng.randint(1,big), rng.choice([500,1000,3000])
		dec = rng.choice([0,0,30,-60,75]) if k == "car" else rng.choice([0,40,80,90])
		return dict(kind=k, ny=ny, nx=nx, res=res, dec=dec if abs(dec)*1000+ny*res/2 < 89000 or k != "car" else 0, ra=rng.choice([0,10,180,359]), flip=[rng.choice([1,1,-1]),rng.choice([1,1,-1])], proj=rng.choice(["car","car","cea"]))
	def rmax(): return rng.choice([0,0,rng.randint(5,60)]) # tenths of a pixel
	for _ in range(260*N):
		g = geo(); n = rng.choice([0,1,1,2,3,4,6,8]); where = rng.choice(["pix","pix","in","out","one"])
		yield dict(k="from", a=dict(g=g, n=n, where=where, seed=rng.randint(0,10**6), method=rng.choice(["cellgrid","cellgrid","bubble","simple"]), rmax=rmax(), labels=rng.random() < 0.7,
			given=rng.choice([0,0,1]), bsize=rng.choice([0,0,1,2,3,5]), wrap=rng.choice([0,0,1,-1]), step=rng.choice([1024,2])))
	for _ in range(110*N):
		g = geo(8) ; g["res"] = max(g["res"],30000) if g["kind"] == "full" else g["res"]
		yield dict(k="mask", a=dict(g=g, fill=rng.choice([0,20,50,80,95,100]), shape=rng.choice(["rand","disk"]), seed=rng.randint(0,10**6), op=rng.choice(["dist","dist","grow","shrink"]), method=rng.choice(["cellgrid","cellgrid","bubble","simple"]), rmax=rmax(), pre=rng.choice([0,0,2])))
	for _ in range(70*N):
		g = geo(8); g["res"] = max(g["res"],30000) if g["kind"] == "full" else g["res"]
		yield dict(k="label", a=dict(g=g, n=rng.randint(0,4), seed=rng.randint(0,10**6), size=rng.randint(0,2), method=rng.choice(["cellgrid","bubble"]), rmax=rmax(), given=rng.random() < 0.3, pre=rng.choice([0,0,1,2])))
	for _ in range(60*N):
		nside = rng.choice([1,2,2,4])
		yield dict(k="hp", a=dict(nside=nside, op=rng.choice(["from","from","mask","label"]), n=rng.choice([0,1,2,3,5]), seed=rng.randint(0,10**6), where=rng.choice(["pix","in"]), fill=rng.choice([20,60,95]), pre=rng.choice([0,0,2]), method=rng.choice(["bubble","heap"]), rmax=rng.choice([0,0,rng.randint(5,30)])))
	for _ in range(70*N):
		n1, n2 = rng.choice([0,1,3,8,20]), rng.choice([1,3,8,25])
		if n1 == 0: n1 = 1
		yield dict(k="cross", a=dict(n=[n1,n2], r=rng.choice([1,5,20,60]), seed=rng.randint(0,10**6), coords=rng.choice(["auto","radec","phitheta","cartesian"]), mode=rng.choice(["all","closest","first","nearest"]), clump=rng.random() < 0.5, dup=rng.random() < 0.3))
def lab(x): return [int(v) for v in np.asarray(x).reshape(-1)]
def dd(x): return [-2 if not np.isfinite(v) else q(v,U) for v in np.asarray(x,float).reshape(-1)]
def mem(x, f, nd=2): return [f(y) for y in np.asarray(x).reshape((-1,)+np.shape(x)[-nd:])]
def run(k, a):
	if k in ("from","mask","label"):
		shape, wcs = geom(a["g"]); shape = shape[-2:]; rng = np.random.default_rng(a["seed"])
		pos = np.array(enmap.posmap(shape, wcs)).reshape(2,-1); ps = pixsize(a["g"], shape, wcs)
		rm = a["rmax"]/10*ps if a["rmax"] else None; o = dict(rmax=-1 if rm is None else q(rm,U))
	if k == "from":
		n, (ny,nx) = a["n"], shape
		if   a["where"] == "pix": pp = np.array([rng.integers(0,ny,n),rng.integers(0,nx,n)],float)
		elif a["where"] == "in":  pp = np.array([rng.uniform(-.45,ny-.55,n),rng.uniform(-.45,nx-.55,n)])
		elif a["where"] == "one": pp = np.array([rng.integers(0,ny),rng.integers(0,nx)])[:,None]+rng.uniform(-.4,.4,(2,n))
		else: pp = np.array([rng.uniform(-5,ny+4,n),rng.uniform(-5,nx+4,n)])
		pts = np.array(enmap.pix2sky(shape, wcs, pp, safe=False)) if n else np.zeros((2,0))
		pts[0] = np.clip(pts[0],-np.pi/2,np.pi/2); pts = pts[:,np.all(np.isfinite(pts),0)]
		ip = pts.copy(); ip[1] += 2*np.pi*a["wrap"]
		kw = dict(method=a["method"])
		if a["method"] != "simple" and rm is not None: kw["rmax"] = rm
		else: o["rmax"] = -1; rm = None
		if a["given"]: kw["omap"] = enmap.zeros(shape, wcs)+77
		if a["given"] and a["labels"]: kw["odomains"] = enmap.zeros(shape, wcs, np.int32)+77
		sep = a["g"]["kind"] in ("full","car")
		if a["bsize"] and a["method"] == "cellgrid" and pts.size:
			y, x = enmap.posaxes(shape, wcs) if sep else enmap.posmap(shape, wcs)
			r = distances.distance_from_points_cellgrid(np.asarray(y), np.asarray(x), ip, utils.nint(enmap.sky2pix(shape, wcs, ip)), domains=a["labels"], bsize=a["bsize"], **{i:v for i,v in kw.items() if i != "method"})
		else: r = enmap.distance_from(shape, wcs, ip, domains=a["labels"], step=a["step"], **kw)
		d, l = r if a["labels"] else (r, None)
		o.update(n=int(pts.shape[1]), sh=list(d.shape), wsh=[int(v) for v in shape], d=[-2 if not np.isfinite(v) else q(v,U) for v in np.asarray(d).reshape(-1)], D=q(dmat(pos,pts),U) if pts.size else [],
			l=lab(l) if l is not None else [], tol=0 if a["method"] == "simple" else q((1.0 if a["where"] == "pix" else 1.5)*ps,U),
			same=bool(not a["given"] or np.array_equal(kw["omap"],d) or np.any(np.isinf(d))))
		return o
	if k == "mask":
		if a["op"] == "dist" and a["method"] == "simple": rm = None; o["rmax"] = -1
		pre = (a["pre"],) if a["pre"] else (); npix = int(np.prod(shape))
		m = rng.integers(0,100,pre+tuple(shape)) < a["fill"]
		if a["shape"] == "disk":
			yx = np.mgrid[:shape[0],:shape[1]]; m = np.broadcast_to(np.hypot(yx[0]-shape[0]/2,yx[1]-shape[1]/2) < a["fill"]/100*max(shape)/2, pre+tuple(shape)).copy()
		m = enmap.ndmap(m, wcs); before = m.copy()
		rr = rm if rm is not None else (0.0 if a["op"] != "dist" else None)
		if a["op"] == "dist": r = enmap.distance_transform(m, rmax=rm, method=a["method"])
		else:
			r = (enmap.grow_mask if a["op"] == "grow" else enmap.shrink_mask)(m, rr)
		o.update(D=q(dmat(pos,pos),U), m=[[int(v) for v in x.reshape(-1)] for x in m.preflat], tol=0 if a["method"] == "simple" or a["op"] != "dist" else q(1.0*ps,U),
			d=[[-2 if not np.isfinite(v) else q(v,U) for v in np.asarray(x,float).reshape(-1)] for x in r.preflat] if a["op"] == "dist" else [], g=[lab(x) for x in r.preflat] if a["op"] != "dist" else [],
			r=0 if rr is None else q(rr,U), same=bool(np.array_equal(before,m)), sh=list(r.shape), wsh=[int(v) for v in m.shape], slop=q(1.0*ps,U))
		return o
	if k == "label":
		pre = (a["pre"],) if a["pre"] else ()
		m = np.zeros((max(1,a["pre"]),)+tuple(shape), np.int32)
		for c in range(len(m)):
			for j in rng.permutation(a["n"]):
				y, x = rng.integers(0,shape[0]), rng.integers(0,shape[1]); s = a["size"]
				m[c,max(0,y-s):y+s+1,max(0,x-s):x+s+1] = j+1
		m = enmap.ndmap(m.reshape(pre+tuple(shape)), wcs); kw = {}
		if a["given"]: kw = dict(omap=enmap.zeros(m.shape,wcs)+5, odomains=enmap.zeros(m.shape,wcs,np.int32)+9)
		d, l = enmap.labeled_distance_transform(m, rmax=rm, method=a["method"], **kw)
		o.update(D=q(dmat(pos,pos),U), m=mem(m,lab), d=mem(d,dd), l=mem(l,lab), tol=q(1.0*ps,U))
		return o
	if k == "hp":
		import healpy
		pre = (a["pre"],) if a["pre"] else ()
		ns = a["nside"]; npix = 12*ns*ns; rng = np.random.default_rng(a["seed"]); th, ph = healpy.pix2ang(ns, np.arange(npix)); pos = np.array([np.pi/2-th,ph])
		ps = np.sqrt(4*np.pi/npix); rm = a["rmax"]/10*ps if a["rmax"] else None; o = dict(rmax=-1 if rm is None else q(rm,U))
		if a["op"] == "from":
			pts = pos[:,rng.integers(0,npix,a["n"])] if a["where"] == "pix" else np.array([np.arcsin(rng.uniform(-1,1,a["n"])),rng.uniform(0,2*np.pi,a["n"])])
			d, l = enmap.distance_from_healpix(ns, pts, domains=True, rmax=rm, method=a["method"])
			o.update(n=int(pts.shape[1]), sh=[npix], wsh=[npix], d=[-2 if not np.isfinite(v) else q(v,U) for v in d], D=q(dmat(pos,pts),U) if pts.size else [], l=lab(l), tol=q((1.0 if a["where"] == "pix" else 2.0)*ps,U), same=True)
		elif a["op"] == "mask":
			m = rng.integers(0,100,pre+(npix,)) < a["fill"]; d = enmap.distance_transform_healpix(m, rmax=rm, method=a["method"])
			o.update(D=q(dmat(pos,pos),U), m=mem(m,lab,1), tol=q(1.0*ps,U), d=mem(d,dd,1), g=[], r=0, same=True, sh=list(d.shape), wsh=list(m.shape), slop=0)
		else:
			m = np.zeros((max(1,a["pre"]),npix),int)
			for x in m:
				for j in rng.permutation(a["n"]): x[rng.integers(0,npix,3)] = j+1
			m = m.reshape(pre+(npix,))
			d, l = enmap.labeled_distance_transform_healpix(m, rmax=rm, method=a["method"])
			o.update(D=q(dmat(pos,pos),U), m=mem(m,lab,1), d=mem(d,dd,1), l=mem(l,lab,1), tol=q(1.0*ps,U))
		return o
	if k == "cross":
		rng = np.random.default_rng(a["seed"]); n1, n2 = a["n"]; c = a["coords"]
		def cat(n):
			dec, ra = np.arcsin(rng.uniform(-1,1,n)), rng.uniform(-np.pi,np.pi,n)
			if a["clump"]: dec, ra = 0.9+rng.normal(0,0.1,n), 3.1+rng.normal(0,0.2,n)
			return np.array([dec,ra])
		p1, p2 = cat(n1), cat(n2)
		if a["dup"]: p2[:,0] = p1[:,0]
		if a["mode"] == "nearest":
			res = pointsrcs.crossmatch(np.array(p1[::-1].T), np.array(p2[::-1].T), tol=a["r"]*D)
			return dict(D=q(dmat(p1,p2),U), r=q(a["r"]*D,U), s=[[int(x),int(y)] for x,y in res])
		if c == "cartesian": i1, i2 = vec(p1).T, vec(p2).T; Dm = np.sqrt(np.sum((i1[:,None]-i2[None])**2,-1))
		else:
			i1, i2 = [np.array([p[1], p[0] if c != "phitheta" else np.pi/2-p[0]]).T for p in (p1,p2)]; Dm = dmat(p1,p2)
		r = a["r"]*D
		res = utils.crossmatch(i1, i2, r, mode=a["mode"], coords=c)
		return dict(D=q(Dm,U), r=q(r,U), s=[[int(x),int(y)] for x,y in res])
