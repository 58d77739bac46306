"""P07 map files"""
import random, os, tempfile, shutil, warnings, numpy as np
from pixell import enmap, utils
from lib import q, qf
from geo import wkey
from p02 import mkwcs, shifted, affpos
TRACE = "TraceP07"
MC  = [dict(module="FilesMC", cfg="FilesMC.cfg", min_states=50000)]
GEN = [dict(name="hist", module="FilesGen", cfg="FilesGen.cfg", simulate=260, depth=20, min=150, thorough_factor=6),
       dict(name="hdf", module="FilesGen", cfg="FilesGenH.cfg", simulate=160, depth=20, min=80, thorough_factor=6)]
ASSUMPTIONS = ["a file is not changed while a lazily opened map that refers to it is in use", "values fit in the type they are stored as"]
RNG = dict(f8=(-90,90), f4=(-90,90), i8=(-90,90), i4=(-90,90), i2=(-90,90), u1=(0,200), u2=(0,900), i1=(-90,90), u4=(0,900))

def mkcontent(rng, fitsonly):
	nphi = rng.choice([6,8,9,10,12])
	n  = [rng.randint(1,5), rng.choice([nphi, rng.randint(1,nphi), rng.randint(1,nphi)])]
	dt = rng.choice(["f8","f8","f4","f4","i8","i4","i2","u1","u2","i1","u4"])
	P  = rng.choice([[],[],[2],[3],[1],[2,3],[3,2]])
	nc = int(np.prod(P))
	stokes = ""
	sign = [1]*nc
	hdr, nkey = [], 0
	if fitsonly and dt[0] in "fi" and 3 in P and rng.random() < 0.6:
		ax  = P.index(3)
		num = 2+len(P)-ax
		conv= rng.choice(["IAU","IAU","COSMO","","old"])
		first = rng.choice([1,1,1,2])
		hdr = [["CTYPE%d"%num, "STOKES"]]
		if first != 1 or rng.random() < 0.5:
			pix = rng.choice([1,1,2,0])
			hdr += [["CRVAL%d"%num, first+pix-1], ["CRPIX%d"%num, pix], ["CDELT%d"%num, 1]]
		if conv in ("IAU","COSMO"): hdr.append(["POLCCONV", conv])
		if conv == "old": hdr.append(["POLCONV", "IAU"])
		if conv != "COSMO":
			s = np.ones(P, int)
			s[(slice(None),)*ax+(3-first,)] = -1
			sign = s.reshape(-1).tolist()
	if rng.random() < 0.3: nkey = rng.choice([3,60,120])
	lo, hi = RNG[dt]
	return dict(n=n, P=P, nphi=nphi, wrap="auto", proj=rng.choice(["CAR","CAR","CEA","MER"]), flip=rng.choice([[1,-1],[1,1],[-1,-1],[-1,1]]),
		dy=200, crval=rng.choice([0,30,77,-120]), crpix=[rng.randint(-10,20), rng.randint(-4,16)], dt=np.dtype(dt).str, sign=sign, hdr=hdr, nkey=nkey,
		inp=rng.choice(["plain","plain","big","strided","fortran"]), data=[rng.randint(lo,hi) for _ in range(nc*n[0]*n[1])])

def mksl(rng, n):
	if rng.random() < 0.2: return [999,999,999]
	t = rng.choice([1,1,1,999,2,3,-1,-2])
	b = rng.choice([999, rng.randint(-n-1,n+1)]); e = rng.choice([999, rng.randint(-n-1,n+1)])
	return [b,e,t]

def mkpart(rng, c, op):
	if op[0] == "m": return dict(kind="meta")
	per = c["nphi"]
	kinds = ["full","pixbox","pixbox","geo","box","sel","sel","row","col"]
	if op != "lr": kinds += ["name","name"]
	p = dict(kind=rng.choice(kinds), var=rng.randint(0,9), thr=rng.random() < 0.5)
	k = p["kind"]
	if k == "pixbox":
		y = rng.randint(-3, c["n"][0]); x = rng.randint(-per, per)
		p["box"] = [[y,x],[y+rng.randint(0,5), x+rng.randint(0,per)]]
	elif k == "geo":
		p["m"]   = [rng.randint(1,5), rng.randint(1,per)]
		p["off"] = [rng.randint(-4,4), rng.randint(-per,per)]
	elif k == "box":
		frac = [-400,-300,-100,100,200,300,450]
		y0 = rng.randint(-2, c["n"][0])*1000 + rng.choice(frac); x0 = rng.randint(-2, c["n"][1])*1000 + rng.choice(frac)
		y1 = y0 + rng.choice([1,-1])*(rng.randint(1, c["n"][0]+1)*1000); x1 = x0 + rng.choice([1,-1])*rng.randint(1, c["nphi"]-1)*1000
		p["edges"], p["mode"] = [[y0,x0],[y1,x1]], rng.choice(["round","floor","ceil","inclusive","exclusive"])
	elif k in ("sel","name"):
		p["ys"], p["xs"] = mksl(rng, c["n"][0]), mksl(rng, c["n"][1])
	if k in ("sel","name","row","col"):
		p["pre"] = rng.choice(["all","int","rev"]) if c["P"] else "all"
		if p["pre"] == "int": p["ci"] = rng.randint(0, c["P"][0]-1)
	if k in ("row","col"):
		n = c["n"][0 if k == "row" else 1]
		p["ci2"] = rng.randint(-n, n-1)
	return p

def cases(tier, seed, gen):
	rng = random.Random(seed)
	for g in gen["hist"]+gen["hdf"]:
		h = g["hist"]
		hdf = {o["c"] for o in h if o["op"] == "wh"}
		C = [mkcontent(rng, i+1 not in hdf) for i in range(3)]
		f, hd, hl, parts = {}, {}, [], []
		for o in h:
			op = o["op"]; p = dict(kind="none", var=rng.randint(0,9))
			if op == "wf": f[o["f"]] = o["cs"]
			if op == "wh":
				if o["a"] == "r": hd = {}
				if o["a"] == "a": hd.pop("ab", None)
				hd[o["a"]] = o["c"]
			if op == "of": hl.append(f[o["f"]][o["u"]-1])
			if op == "oh": hl.append(hd[o["a"]])
			if op in ("rf","mf"): p = mkpart(rng, C[f[o["f"]][o["u"]-1]-1], op)
			if op in ("rh","mh"): p = mkpart(rng, C[hd[o["a"]]-1], op)
			if op == "lr": p = mkpart(rng, C[hl[o["h"]-1]-1], op)
			parts.append(p)
		yield dict(k="hist", a=dict(hist=h, C=C, parts=parts))
	for _ in range(60 if tier == "quick" else 500):
		yield dict(k="geo", a=mkcontent(rng, False))

def fname(f): return {1:"m1.fits", 2:"sub/m2.map", 3:"m3.fits.gz"}[f]
ADDR = {"r":None, "a":"a", "ab":"a/b", "b":"b"}

def mkmap(c):
	dt = np.dtype(c["dt"])
	arr = np.array(c["data"]).reshape(tuple(c["P"])+tuple(c["n"])).astype(dt)
	if   c["inp"] == "big": arr = arr.astype(dt.newbyteorder(">"))
	elif c["inp"] == "fortran": arr = np.asfortranarray(arr)
	elif c["inp"] == "strided":
		big = np.zeros(arr.shape[:-1]+(2*arr.shape[-1],), dt); big[...,::2] = arr; arr = big[...,::2]
	return enmap.ndmap(arr, mkwcs(c))

def sl(s): return slice(*[None if v == 999 else v for v in s])
def sltxt(s): return ":".join(["" if v == 999 else str(v) for v in s])

def dec(base, y):
	x = np.full(len(y), base.wcs.crpix[0]-1)
	return base.wcs_pix2world(np.array([x, y]).T, 0)[:,1]

def obs(r, c, dt=None):
	base = mkwcs(c)
	ismap = isinstance(r, enmap.ndmap)
	y, x, sky = [], [], True
	if ismap:
		y, x = affpos(r.wcs, base, *r.shape[-2:])
		if r.size and len(y):
			d1 = dec(r.wcs, np.arange(len(y))); d2 = dec(base, np.array(y)/1000)
			ok = np.isfinite(d1) & np.isfinite(d2)
			sky = bool(np.all(np.isfinite(d1) == np.isfinite(d2)) and np.all(np.abs(d1[ok]-d2[ok]) < 0.05))
	return dict(shape=list(r.shape), data=qf(r), ismap=ismap, ypos=y, xpos=x, sky=sky, dt=np.dtype(r.dtype).str)

def boxof(c, p):
	wcs = mkwcs(c)
	E   = np.array(p["edges"])/1000
	ra  = ((E[:,1]+1-wcs.wcs.crpix[0])*wcs.wcs.cdelt[0]+wcs.wcs.crval[0])
	return np.array([dec(wcs, E[:,0]), ra]).T*np.pi/180

def selof(c, p):
	pre = {"all":(), "int":(p.get("ci"),), "rev":(slice(None,None,-1),)}[p["pre"]]
	if p["kind"] == "row": ps = (p["ci2"], slice(None)) if p["var"] % 2 or len(c["P"])-len(pre) > 0 else (p["ci2"],)
	elif p["kind"] == "col": ps = (slice(None), p["ci2"])
	else: ps = (sl(p["ys"]), sl(p["xs"]))
	rest = len(c["P"])-len(pre)
	if rest: pre = pre + ((Ellipsis,) if p["var"] % 3 else (slice(None),)*rest)
	elif p["var"] % 3 == 0 and len(ps) == 2 and p["kind"] != "row": pre = pre + (Ellipsis,)
	return pre+ps

def txtof(c, p):
	pre = {"all":[], "int":[str(p.get("ci"))], "rev":["::-1"]}[p["pre"]]
	if len(c["P"]) > len(pre): pre.append("...")
	return ":["+",".join(pre+[sltxt(p["ys"]) or ":", sltxt(p["xs"]) or ":"])+"]"

def read(name, kw, c, p):
	kw = dict(kw)
	if p["kind"] == "meta":
		shape, wcs = enmap.read_map_geometry(name, **kw)
		y, x = affpos(wcs, mkwcs(c), *shape[-2:])
		return dict(shape=list(shape), ypos=y, xpos=x, sky=True, dt=np.dtype(enmap.read_map_dtype(name, **kw)).str)
	if p["thr"]: kw["sel_threshold"] = 0
	k = p["kind"]
	if k == "full": pass
	elif k == "pixbox": kw["pixbox"] = np.array(p["box"])
	elif k == "geo":
		w = mkwcs(c)
		kw["geometry"] = (tuple(c["P"])+tuple(p["m"]), shifted(c, w, p["off"]))
	elif k == "box": kw["box"], kw["mode"] = boxof(c, p), p["mode"]
	elif k == "name": name = name+txtof(c, p)
	else: kw["sel"] = selof(c, p)
	return obs(enmap.read_map(name, **kw), c)

def lread(h, c, p):
	k = p["kind"]
	h.threshold = 0 if p["thr"] else 1e7
	if   k == "full": r = h[:] if p["var"] % 2 else h[...]
	elif k == "pixbox": r = enmap.extract_pixbox(h, np.array(p["box"]))
	elif k == "geo": r = enmap.extract(h, tuple(c["P"])+tuple(p["m"]), shifted(c, mkwcs(c), p["off"]))
	elif k == "box": r = h.submap(boxof(c, p), mode=p["mode"]) if p["var"] % 2 else enmap.submap(h, boxof(c, p), mode=p["mode"])
	else: r = h[selof(c, p)]
	res = obs(r, c)
	if isinstance(r, np.ndarray) and r.flags.writeable: np.asarray(r)[...] = 77  # what is done to a result must not matter later
	return res

def hist(a):
	handles, steps = [], []
	for o, p in zip(a["hist"], a["parts"]):
		op, v = o["op"], p["var"] if "var" in p else 0
		if op == "wf":
			fn, same = fname(o["f"]), True
			for i, ci in enumerate(o["cs"]):
				c = a["C"][ci-1]
				m = mkmap(c); d0, k0, t0 = np.array(m), wkey(m.wcs), m.dtype
				name = fn if len(o["cs"]) == 1 else "tmp%d.fits" % i
				extra= dict(map(tuple, c["hdr"])); extra.update({"KEY%d"%j: j for j in range(c["nkey"])})
				e0 = dict(extra)
				if v % 3 == 0: enmap.write_fits(name, m, extra=extra)
				else: enmap.write_map(name, m, extra=extra)
				same = same and np.array_equal(d0, np.asarray(m)) and k0 == wkey(m.wcs) and t0 == m.dtype and extra == e0
			if len(o["cs"]) == 2:
				import astropy.io.fits as pf
				with pf.open("tmp0.fits") as A, pf.open("tmp1.fits") as B:
					os.makedirs(os.path.dirname(fn) or ".", exist_ok=True)
					pf.HDUList([A[0].copy(), pf.ImageHDU(B[0].data, B[0].header)]).writeto(fn, overwrite=True)
			steps.append(dict(same=bool(same)))
		elif op == "wh":
			c = a["C"][o["c"]-1]; m = mkmap(c)
			d0, k0 = np.array(m), wkey(m.wcs)
			extra = dict(foo=3) if v % 2 else {}
			if o["a"] != "r" and v % 3 == 0 and os.path.exists("h.hdf"):
				import h5py
				with h5py.File("h.hdf","a") as hf: enmap.write_hdf(hf, m, address=ADDR[o["a"]], extra=extra)
			else: enmap.write_map("h.hdf", m, address=ADDR[o["a"]], extra=extra)
			steps.append(dict(same=bool(np.array_equal(d0, np.asarray(m)) and k0 == wkey(m.wcs))))
		elif op in ("of","rf","mf"):
			kw = {} if o["u"] == 1 and v % 2 else dict(hdu=o["u"]-1)
		if op in ("rh","mh","oh"): kw = {} if o["a"] == "r" else dict(address=ADDR[o["a"]])
		if op in ("of","oh"):
			h = enmap.read_map(fname(o["f"]) if op == "of" else "h.hdf", delayed=True, **kw)
			handles.append(h)
			steps.append(dict(shape=list(h.shape), dt=np.dtype(h.dtype).str))
		elif op in ("rf","mf"): steps.append(read(fname(o["f"]), kw, a["C"][cur(a, steps, o)-1], p))
		elif op in ("rh","mh"): steps.append(read("h.hdf", kw, a["C"][cur(a, steps, o)-1], p))
		elif op == "lr": steps.append(lread(handles[o["h"]-1], a["C"][cur(a, steps, o)-1], p))
	return dict(steps=steps)

def cur(a, steps, o):
	"""Which content the read is going to be about (only used to express positions relative to its coordinates)"""
	f, hd, hl = {}, {}, []
	for e in a["hist"][:len(steps)]:
		if   e["op"] == "wf": f[e["f"]] = e["cs"]
		elif e["op"] == "wh": hd[e["a"]] = e["c"]
		elif e["op"] == "of": hl.append(f[e["f"]][e["u"]-1])
		elif e["op"] == "oh": hl.append(hd[e["a"]])
	if o["op"] in ("rf","mf"): return f[o["f"]][o["u"]-1]
	if o["op"] in ("rh","mh"): return hd[o["a"]]
	return hl[o["h"]-1]

def run(k, a):
	old = os.getcwd()
	d = tempfile.mkdtemp(dir=old, prefix="p07_")
	try:
		os.chdir(d)
		with warnings.catch_warnings():
			warnings.simplefilter("ignore")
			if k == "hist": return hist(a)
			wcs = mkwcs(a); k0 = wkey(wcs)
			enmap.write_map_geometry("g.fits", tuple(a["P"])+tuple(a["n"]), wcs)
			shape, w = enmap.read_map_geometry("g.fits")
			y, x = affpos(w, mkwcs(a), *shape[-2:])
			return dict(shape=list(shape), ypos=y, xpos=x, same=wkey(wcs) == k0)
	finally:
		os.chdir(old)
		shutil.rmtree(d, ignore_errors=True)
