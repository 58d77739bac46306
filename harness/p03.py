"""P03 pixel <-> sky"""
import random, numpy as np
from pixell import enmap, utils, wcsutils
from lib import q, qf
from geo import wkey
TRACE = "TraceP03"
MC = [dict(module="UnwindMC", cfg="UnwindMC.cfg", min_states=1000), dict(module="UnwindMC", cfg="UnwindMC8.cfg", min_states=1000)]
ASSUMPTIONS = ["wcslib (astropy) evaluates headers of projections other than plate carree correctly"]
DEG = np.pi/180

def mkwcs(a):
	import astropy.wcs
	w = astropy.wcs.WCS(naxis=2)
	if not a["plain"]:
		w.wcs.ctype = ["RA---%s" % a["proj"], "DEC--%s" % a["proj"]]
		if a["proj"] == "CEA": w.wcs.set_pv([(2,1,0.8)])
	w.wcs.cdelt = [a["hx"]["cd"]/1000, a["hy"]["cd"]/1000]
	w.wcs.crval = [a["hx"]["cv"]/1000, a["hy"]["cv"]/1000]
	w.wcs.crpix = [a["hx"]["cp"]/2, a["hy"]["cp"]/2]
	w.wcs.cunit = ["deg","deg"]
	return w

def ref(wcs, y, x):
	"""wcslib's own answer, in 1e-6 degrees"""
	w = wcs.deepcopy(); w.wcs.bounds_check(False, False)
	r = w.wcs_pix2world(np.stack([np.ravel(x), np.ravel(y)], -1).astype(float), 0)
	return r[:,1], r[:,0]

def header(rng, proj):
	s = [rng.choice([1,-1]), rng.choice([1,-1])]
	if proj in ("TAN","ZEA","SIN","ARC"):
		n = [rng.randint(1,6), rng.randint(1,6)]
		return dict(n=n, hy=dict(cd=s[0]*rng.choice([50,100,500]), cv=rng.choice([0,20000,-60000,84000]), cp=rng.randint(-4,14)),
			hx=dict(cd=s[1]*rng.choice([50,100,500]), cv=rng.choice([0,179900,-179900,45000,300000]), cp=rng.randint(-4,14)))
	n = [rng.randint(1,6), rng.choice([1,2,3,5,8,12,24])]
	cdx = rng.choice([15000,30000,7500,1000,500])
	return dict(n=n, hy=dict(cd=s[0]*rng.choice([500,1000,3000]), cv=0, cp=rng.randint(-10,24)),
		hx=dict(cd=s[1]*cdx, cv=rng.choice([0,500,90000,179500,180000,-77000]), cp=rng.randint(-30,60)))

def cases(tier, seed, gen):
	rng = random.Random(seed)
	N = 1 if tier == "quick" else 8
	projs = ["CAR","CAR","CAR","CEA","MER","TAN","ZEA","SIN","ARC","OBL","plain"]
	for it in range(1500*N):
		proj = rng.choice(projs)
		a = header(rng, proj)
		a["plain"] = proj == "plain"
		a["proj"] = "CAR" if proj in ("OBL","plain") else proj
		if proj == "OBL":
			a["hy"]["cv"] = rng.choice([20000,-40000])
			a["hx"]["cd"] = rng.choice([500,-500]); a["hx"]["cp"] = rng.randint(0,10); a["hy"]["cp"] = rng.randint(0,10)
		a["car"] = proj in ("CAR","plain")
		cyl = proj in ("CAR","CEA","MER")
		k = rng.choice(["pix2sky","pix2sky","sky2pix","sky2pix","posmap","posmap","round","posaxes","pixmap","contains"])
		a["corner"] = rng.random() < 0.3
		a["safe"] = rng.random() < 0.75
		per = abs(360000/a["hx"]["cd"])*1000 if not a["plain"] else 0
		a["per"] = int(round(per))
		# pixel coordinates in tenths. Rows of the sky: stay within +-80 degrees
		ny, nx = a["n"]
		def ypix():
			for _ in range(50):
				y = rng.randint(-30, 10*ny+30)
				if not cyl and not a["plain"] and not (-5 <= y <= 10*ny): continue
				d = (y+10-5*a["hy"]["cp"])*a["hy"]["cd"]/10
				if cyl and abs(d) > 40000: continue
				return y
			return int(5*a["hy"]["cp"]-10)
		def xpix():
			if cyl or a["plain"]: return rng.choice([rng.randint(-20,10*nx+20), rng.randint(-20,10*nx+20), rng.randint(-min(3*a["per"]//100 or 100, 2000),min(3*a["per"]//100 or 100, 2000))])
			return rng.randint(-5, 10*nx)
		row, nrow = rng.choice([1,1,2,3,5]), rng.choice([1,1,2])
		if rng.random() < 0.3:
			x0, st = xpix(), rng.choice([10,-10,20,37])
			if not (cyl or a["plain"]): st = rng.choice([5,-5])
			if a["per"]: st = max(-a["per"]//220, min(a["per"]//220, st))
			xs = [x0+st*i for i in range(row)]*nrow
		else: xs = [xpix() for _ in range(row*nrow)]
		ys = [ypix() for _ in range(row*nrow)]
		if k in ("pix2sky","sky2pix","round","contains"):
			a.update(ys=ys, xs=xs, row=row, nrow=nrow, scalar=row*nrow == 1 and rng.random() < 0.5)
		if k == "sky2pix":
			a["safe"] = rng.choice([0,1,1,2])
			a["turns"] = [rng.choice([0,0,0,1,-1,2]) for _ in xs]
			if not cyl: a["per"] = 0
		if k == "round": a["corner"] = rng.random() < 0.3; a["safe"] = rng.choice([0,1]); a["per"] = a["per"] or 1000000000
		if k == "contains":
			if a["corner"]: a["corner"] = False
			if a["plain"]: a["per"] = 0
			elif not cyl: a["per"] = 0
		if k in ("posmap","posaxes"):
			if cyl and (abs((10-5*a["hy"]["cp"])*a["hy"]["cd"]) > 400000 or abs((10*ny-5*a["hy"]["cp"])*a["hy"]["cd"]) > 400000): a["hy"]["cp"] = rng.randint(0, 2*ny)
			a["sep"] = rng.choice(["auto","auto","no","yes"]) if (cyl or a["plain"]) else rng.choice(["auto","no"])
			a["bsize"] = rng.choice([1,3,10,1000000])
			a["f32"] = False
			if k == "posaxes" and not (cyl or a["plain"]): k = "posmap"
		a["meth"] = rng.randint(0,2)
		yield dict(k=k, a=a)
	for it in range(150*N):
		P = rng.choice([6,7,10,360])
		n = rng.randint(1,9)
		v = [rng.randint(-3*P,3*P)]
		for _ in range(n-1): v.append(v[-1]+rng.randint(-P,P))
		yield dict(k="unwind", a=dict(vals=v, per=P, ref=rng.choice([0,0,2,-5,P]), mode=rng.choice(["unwind","unwind","rewind"]), refmode=rng.choice(["left","middle"])))

def run(k, a):
	if k == "unwind":
		v = np.array(a["vals"], float); v0 = v.copy()
		if a["mode"] == "unwind": r = utils.unwind(v, period=a["per"], ref=a["ref"], refmode=a["refmode"])
		else: r = utils.rewind(v, ref=a["ref"], period=a["per"])
		return dict(res=qf(r), same=bool(np.array_equal(v, v0)))
	wcs = mkwcs(a); key = wkey(wcs)
	shape = tuple(a["n"])
	m = enmap.zeros((2,)+shape, wcs) if a["meth"] == 1 else None
	g = enmap.Geometry((2,)+shape, wcs) if a["meth"] == 2 else None
	if k in ("pix2sky","sky2pix","round","contains"):
		bshape = () if a["scalar"] else (a["row"],) if a["nrow"] == 1 else (a["nrow"], a["row"])
		ys, xs = [np.array(a[n], float).reshape(bshape)/10 for n in ("ys","xs")]
		off = 0.5 if a["corner"] else 0
	if k == "pix2sky":
		pix = np.array([ys, xs]); pix0 = pix.copy()
		kw = dict(safe=a["safe"], corner=a["corner"])
		r = m.pix2sky(pix, **kw) if m is not None else g.pix2sky(pix, **kw) if g is not None else enmap.pix2sky(shape, wcs, pix, **kw)
		rd, rr = ref(wcs, ys-off, xs-off)
		return dict(dec=qf(r[0]/DEG, 1e6), ra=qf(r[1]/DEG, 1e6), rdec=qf(rd, 1e6), rra=qf(rr, 1e6), same=bool(np.array_equal(pix, pix0) and wkey(wcs) == key))
	if k in ("sky2pix","contains"):
		if a["car"]:
			dec = ((ys+1-wcs.wcs.crpix[1])*wcs.wcs.cdelt[1]+wcs.wcs.crval[1]); ra = ((xs+1-wcs.wcs.crpix[0])*wcs.wcs.cdelt[0]+wcs.wcs.crval[0])
		else:
			dec, ra = ref(wcs, ys, xs); dec, ra = dec.reshape(bshape), ra.reshape(bshape)
		if k == "sky2pix" and not a["plain"]: ra = ra + np.array(a["turns"]).reshape(bshape)*360
		pos = np.array([dec, ra])*DEG; pos0 = pos.copy()
		if k == "contains":
			return dict({"in": qf(enmap.contains(shape, wcs, pos))})
		kw = dict(safe=a["safe"], corner=a["corner"])
		r = m.sky2pix(pos, **kw) if m is not None else g.sky2pix(pos, **kw) if g is not None else enmap.sky2pix(shape, wcs, pos, **kw)
		return dict(y=qf(r[0], 1000), x=qf(r[1], 1000), same=bool(np.array_equal(pos, pos0) and wkey(wcs) == key))
	if k == "round":
		r = enmap.sky2pix(shape, wcs, enmap.pix2sky(shape, wcs, [ys, xs], safe=a["safe"], corner=a["corner"]), safe=a["safe"], corner=a["corner"])
		return dict(y=qf(r[0], 1000), x=qf(r[1], 1000))
	yy, xx = np.mgrid[:shape[0],:shape[1]].astype(float)
	if k == "posmap":
		sep = {"auto":"auto","no":False,"yes":True}[a["sep"]]
		off = 0.5 if a["corner"] else 0
		if m is not None: r = m.posmap(safe=a["safe"], corner=a["corner"], separable=sep)
		else: r = enmap.posmap((3,)+shape if a["meth"] == 2 else shape, wcs, safe=a["safe"], corner=a["corner"], separable=sep, bsize=a["bsize"])
		rd, rr = ref(wcs, yy-off, xx-off)
		return dict(dec=qf(r[0]/DEG, 1e6), ra=qf(r[1]/DEG, 1e6), rdec=qf(rd, 1e6), rra=qf(rr, 1e6), shape=r.shape, geo=wkey(r.wcs) == key, same=wkey(wcs) == key)
	if k == "posaxes":
		dec, ra = enmap.posaxes(shape, wcs, safe=a["safe"], corner=a["corner"])
		off = 0.5 if a["corner"] else 0
		rd = ref(wcs, yy[:,0]-off, yy[:,0]*0-off)[0]; rr = ref(wcs, xx[0]*0-off, xx[0]-off)[1]
		return dict(dec=qf(dec/DEG, 1e6), ra=qf(ra/DEG, 1e6), rdec=qf(rd, 1e6), rra=qf(rr, 1e6))
	if k == "pixmap":
		r = m.pixmap() if m is not None else enmap.pixmap(shape, wcs)
		return dict(y=qf(r[0]), x=qf(r[1]))
