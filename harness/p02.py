"""P02 extraction, insertion, submaps"""
import random, numpy as np
from pixell import enmap, utils, wcsutils
from lib import q, qf
from geo import wkey
TRACE = "TraceP02"
MC  = [dict(module="PatchMC", cfg="PatchMC.cfg", min_states=500), dict(module="PatchMC", cfg="PatchMC0.cfg", min_states=500)]
ASSUMPTIONS = ["box edges are never within rounding error of a rounding boundary, apart from exact fractions"]

def mkwcs(a):
	import astropy.wcs
	w = astropy.wcs.WCS(naxis=2)
	if a["wrap"] != "plain":
		w.wcs.ctype = ["RA---%s" % a["proj"], "DEC--%s" % a["proj"]]
		if a["proj"] == "CEA": w.wcs.set_pv([(2,1,0.8)])
	d = 360/a["nphi"]
	w.wcs.cdelt = [d*a["flip"][1], a["dy"]*a["flip"][0]/100]
	w.wcs.crval = [a["crval"], 0]
	w.wcs.crpix = [a["crpix"][0]/2, a["crpix"][1]/2]
	w.wcs.cunit = ["deg","deg"]
	return w

def shifted(a, w, off, turns=0, recr=0):
	"""A wcs whose pixel 0 is pixel off of w, expressed with other reference points"""
	o = w.deepcopy()
	o.wcs.crpix -= np.array(off[::-1])
	if turns: o.wcs.crval[0] += 360*turns
	if recr:
		o.wcs.crpix[0] += recr
		o.wcs.crval[0] += recr*o.wcs.cdelt[0]
	return o

def affpos(wcs, base, ny, nx):
	"""Positions of pixels in base pixel coordinates, from the headers alone"""
	def conv(i, n):
		p = np.arange(n)
		return ((p+1-wcs.wcs.crpix[i])*wcs.wcs.cdelt[i] + wcs.wcs.crval[i]-base.wcs.crval[i])/base.wcs.cdelt[i] + base.wcs.crpix[i]-1
	return qf(conv(1, ny), 1000), qf(conv(0, nx), 1000)

def cases(tier, seed, gen):
	rng = random.Random(seed)
	def common(maxn=7, wrap=None):
		nphi = rng.choice([6,8,9,10,12])
		wrap = wrap or rng.choice(["auto","auto","auto","plain","none"])
		ny = rng.randint(1,5)
		nx = rng.choice([nphi, rng.randint(1,nphi), rng.randint(1,nphi), rng.randint(1,nphi), nphi+rng.randint(1,3)])
		pre = rng.choice([1,1,2])
		a = dict(n=[ny,nx], nphi=nphi, wrap=wrap, proj=rng.choice(["CAR","CAR","CEA","MER"]), flip=rng.choice([[1,-1],[1,1],[-1,-1],[-1,1]]),
			dy=rng.choice([100,200,300]), crval=rng.choice([0,30,77,-120]), crpix=[rng.randint(-10,20), rng.randint(-4,16)], pre=pre,
			data=[rng.randint(-50,50) for _ in range(pre*ny*nx)])
		return a
	N = 1 if tier == "quick" else 8
	for _ in range(700*N):
		a = common()
		per = a["nphi"]
		def ax(n, p):
			t = rng.choice([1,1,1,1,-1,2,-2,3,-3])
			b = rng.randint(-2*p, 2*p)
			m = rng.choice([0,1,2,3,5,8,n,p])
			extra = rng.randint(0, abs(t)-1) if m else 0
			e = b + t*m - (extra if t > 0 else -extra)
			return b, e, t
		y, x = ax(a["n"][0], a["n"][0]+1), ax(a["n"][1], per)
		a["box"] = [list(v) for v in zip(y, x)]
		a["cval"] = rng.choice([0,0,7,-3])
		a["nostep"] = a["box"][2] == [1,1] and rng.random() < 0.5
		yield dict(k="pixbox", a=a)
	for _ in range(600*N):
		a = common()
		per = a["nphi"]*max(1,-(-a["n"][1]//a["nphi"]))
		k = rng.choice(["extract","into","insert","insert"])
		a["m"] = [rng.randint(1,6), rng.choice([1, per, rng.randint(1,per), rng.randint(1,per)])]
		if k == "extract" and rng.random() < 0.1: a["m"][1] += per
		a["off"] = [rng.randint(-6,6), rng.randint(-per,per)]
		a["turns"], a["recr"] = rng.choice([0,0,0,1,-1,2]) if a["wrap"] == "auto" and a["n"][1] <= a["nphi"] else 0, rng.choice([0,0,3,-5])
		a["cval"] = rng.choice([0,0,5])
		n = a["pre"]*a["m"][0]*a["m"][1]
		a["op"] = rng.choice(["set","add","max","sub"])
		if k == "into":   a["odata"] = [rng.randint(-50,50) for _ in range(n)]
		if k == "insert": a["idata"] = [rng.randint(-50,50) for _ in range(n)]
		a["meth"] = rng.randint(0,1)
		yield dict(k=k, a=a)
	for _ in range(250*N):
		a = common()
		per = a["nphi"]*max(1,-(-a["n"][1]//a["nphi"]))
		def ax(p):
			t = rng.choice([1,1,1,-1,2,-2])
			b = rng.randint(-p, p)
			m = rng.randint(1, max(1,p//abs(t)))
			return (b, b+t*m, t), m
		(y, my), (x, mx) = ax(a["n"][0]+2), ax(per)
		a["box"] = [list(v) for v in zip(y, x)]
		a["op"]  = rng.choice(["set","add","max","sub"])
		a["idata"] = [rng.randint(-50,50) for _ in range(a["pre"]*my*mx)]
		a["corner"] = a["box"][2] == [1,1] and rng.random() < 0.6
		yield dict(k="insertat", a=a)
	modes = ["round","round","floor","ceil","inclusive","exclusive"]
	for _ in range(600*N):
		a = common(wrap="auto")
		if rng.random() < 0.5: a["proj"] = "CAR"
		a["dy"] = 200
		a["flip"] = rng.choice([[1,-1],[1,1],[-1,-1],[-1,1]])
		a["crpix"][1] = rng.randint(-4,16)
		if a["n"][1] > a["nphi"]: a["n"][1] = a["nphi"]; a["data"] = a["data"][:a["pre"]*a["n"][0]*a["n"][1]]
		frac = [-500, 0, 500] if rng.random() < 0.4 else [-400,-300,-100,100,200,300,450]
		a["exact"] = 1 if len(frac) == 3 else 0
		y0 = rng.randint(-2, a["n"][0])*1000 + rng.choice(frac)
		x0 = rng.randint(-2, a["n"][1])*1000 + rng.choice(frac)
		y1 = y0 + rng.choice([1,1,-1])*(rng.randint(1, a["n"][0]+1)*1000 + rng.choice([0,0]+[f-100 for f in frac if not a["exact"]]))
		x1 = x0 + rng.choice([1,1,-1])*(rng.randint(1, a["nphi"]-1)*1000+ rng.choice([0,0]+[f-100 for f in frac if not a["exact"]]))
		a["edges"] = [[y0,x0],[y1,x1]]
		a["mode"] = rng.choice(modes)
		a["noflip"] = False
		a["turn"] = a["nphi"]
		k = rng.choice(["submap","submap","subgeo","subinds","crop"])
		if k in ("subgeo","subinds"): a["noflip"] = rng.random() < 0.3
		if k in ("subinds","crop"):
			# without freedom to be a turn away: stay close to the map
			a["cap"] = rng.random() < 0.5
			mid = a["n"][1]*500
			lo, hi = mid-a["nphi"]*500+1100, mid+a["nphi"]*500-1100
			if not (lo < x0 < hi and lo < x1 < hi): continue
		a["turns"] = rng.choice([0,0,1,-1])
		mid = a["n"][1]*500
		if k == "submap" and rng.random() < 0.3 and all(mid-a["nphi"]*500+1100 < x < mid+a["nphi"]*500-1100 for x in (x0,x1)): a["wrap"] = "none"; a["turns"] = 0
		a["recenter"] = rng.choice([False,False,True]) if k in ("submap","subgeo") and a["wrap"] != "none" else False
		yield dict(k=k, a=a)
	for _ in range(120*N):
		a = common(wrap="auto")
		a["nphi"] = 36
		a["n"][1] = rng.randint(1,6); a["data"] = [rng.randint(-50,50) for _ in range(a["pre"]*a["n"][0]*a["n"][1])]
		a["m"] = [rng.randint(1,5), rng.randint(1,5)]
		a["off"] = [rng.randint(-6,6), rng.randint(-8,8)]
		a["idata"] = [rng.randint(-50,50) for _ in range(a["pre"]*a["m"][0]*a["m"][1])]
		a["recr"] = rng.choice([0,2])
		a["viabox"] = rng.random() < 0.5
		k = rng.choice(["union","overlap"]); a["per"] = 0
		if k == "overlap" and rng.random() < .5: # nearly all of the sky, and boxes that reach around it
			a["n"][1] = rng.randint(30,36); a["data"] = [rng.randint(-50,50) for _ in range(a["pre"]*a["n"][0]*a["n"][1])]; a["per"] = 36
			if rng.random() < .5: a["off"][1] = rng.randint(0,a["n"][1]-1); a["m"][1] = max(1,rng.choice([36-a["off"][1]+rng.randint(-2,3),rng.randint(1,12)]))
			else: a["off"][1] = rng.choice([a["n"][1]-36-rng.randint(-2,3),-rng.randint(1,12)]); a["off"][1] = min(a["off"][1],-1); a["m"][1] = rng.randint(1,8)-a["off"][1]
			a["m"][1] = min(a["m"][1],36); a["idata"] = [rng.randint(-50,50) for _ in range(a["pre"]*a["m"][0]*a["m"][1])]
		yield dict(k=k, a=a)

OPS = {"set": lambda a,b:b, "add": lambda a,b:a+b, "max": lambda a,b:np.maximum(a,b), "sub": lambda a,b:a-b}

def run(k, a):
	wcs = mkwcs(a)
	ny, nx = a["n"]
	m = enmap.ndmap(np.array(a["data"], float).reshape(a["pre"], ny, nx), wcs)
	key, ref = wkey(wcs), np.array(m)
	kw = dict(wrap="auto" if a["wrap"] in ("auto","plain") else 0)
	def same(): return bool(wkey(m.wcs) == key and wkey(wcs) == key and np.array_equal(np.asarray(m), ref))
	if k == "pixbox":
		box = np.array(a["box"])
		if a["nostep"]: box = box[:2]
		box0 = box.copy()
		r = enmap.extract_pixbox(m, box, cval=a["cval"], **kw)
		y, x = affpos(r.wcs, wcs, *r.shape[-2:])
		return dict(shape=r.shape[-2:], data=qf(r), ypos=y, xpos=x, same=same() and np.array_equal(box, box0))
	if k in ("extract","into","insert"):
		w2 = shifted(a, wcs, a["off"], a["turns"], a["recr"])
		key2 = wkey(w2)
		shape = (a["pre"],)+tuple(a["m"])
		if k == "extract":
			if a["meth"]: r = m.extract(shape, w2, cval=a["cval"], **kw)
			else: r = enmap.extract(m, shape, w2, cval=a["cval"], **kw)
			return dict(shape=r.shape[-2:], data=qf(r), wcs=wkey(r.wcs) == key2, same=same() and wkey(w2) == key2)
		if k == "into":
			om = enmap.ndmap(np.array(a["odata"], float).reshape(shape), w2)
			r  = enmap.extract(m, shape, w2, omap=om, op=OPS[a["op"]], **kw)
			return dict(shape=r.shape[-2:], data=qf(r), same=same() and wkey(w2) == key2)
		im = enmap.ndmap(np.array(a["idata"], float).reshape(shape), w2)
		if a["meth"]: r = m.insert(im, op=OPS[a["op"]], **kw)
		else: r = enmap.insert(m, im, op=OPS[a["op"]], **kw)
		return dict(data=qf(m), geo=wkey(m.wcs) == key, same=bool(wkey(im.wcs) == key2 and np.array_equal(np.asarray(im).reshape(-1), a["idata"])))
	if k == "insertat":
		B = np.array(a["box"]); t = B[2]
		shape = (a["pre"],)+tuple(int(v) for v in (B[1]-B[0])//t)
		w2 = wcs.deepcopy()
		im = enmap.ndmap(np.array(a["idata"], float).reshape(shape), w2)
		pix = B[0] if a["corner"] else B
		pix0 = pix.copy()
		enmap.insert_at(m, pix, im, op=OPS[a["op"]], **kw)
		return dict(data=qf(m), geo=wkey(m.wcs) == key, same=bool(np.array_equal(np.asarray(im).reshape(-1), a["idata"]) and np.array_equal(pix, pix0)))
	if k in ("submap","subgeo","subinds","crop"):
		E = np.array(a["edges"])/1000
		# sky coordinates of the edges, going to wcslib
		ra  = ((E[:,1]+1-wcs.wcs.crpix[0])*wcs.wcs.cdelt[0]+wcs.wcs.crval[0]) + 360*a["turns"]
		dec = np.array([wcs.wcs_pix2world([[wcs.wcs.crpix[0]-1,y]], 0)[0,1] for y in E[:,0]])
		box = np.array([dec, ra]).T*np.pi/180
		box0 = box.copy()
		if k == "submap":
			r = m.submap(box, mode=a["mode"], recenter=a["recenter"], **kw)
			y, x = affpos(r.wcs, wcs, *r.shape[-2:])
			return dict(shape=r.shape[-2:], data=qf(r), ypos=y, xpos=x, same=same() and np.array_equal(box, box0))
		if k == "subgeo":
			shape, w = enmap.subgeo(m.shape, wcs, box, mode=a["mode"], noflip=a["noflip"], recenter=a["recenter"])
			y, x = affpos(w, wcs, *shape[-2:])
			return dict(shape=shape[-2:], ypos=y, xpos=x, same=same() and np.array_equal(box, box0))
		if k == "crop":
			shape, w = enmap.crop_geometry(m.shape, wcs, box)
			y, x = affpos(w, wcs, *[max(0,s) for s in shape[-2:]])
			return dict(shape=q(shape[-2:]), ypos=y, xpos=x, same=same() and np.array_equal(box, box0))
		b = enmap.subinds(m.shape, wcs, box, mode=a["mode"], noflip=a["noflip"], cap=a["cap"])
		return dict(box=qf(b))
	w2 = shifted(a, wcs, a["off"], 0, a["recr"])
	key2 = wkey(w2)
	shape = (a["pre"],)+tuple(a["m"])
	im = enmap.ndmap(np.array(a["idata"], float).reshape(shape), w2)
	if k == "union":
		r = enmap.map_union(m, im)
		y, x = affpos(r.wcs, wcs, *r.shape[-2:])
		return dict(shape=r.shape[-2:], data=qf(r), ypos=y, xpos=x, same=same() and wkey(im.wcs) == key2 and bool(np.array_equal(np.asarray(im).reshape(-1), a["idata"])))
	if k == "overlap":
		pb = np.array([a["off"], np.array(a["off"])+a["m"]]); pb0 = pb.copy()
		if a["viabox"]: shape, w = enmap.overlap(m.shape, wcs, pb)
		else: shape, w = enmap.overlap(m.shape, wcs, shape, w2)
		y, x = affpos(w, wcs, *[max(0,s) for s in shape[-2:]])
		return dict(shape=q(shape[-2:]), ypos=y, xpos=x, same=same() and np.array_equal(pb, pb0))
