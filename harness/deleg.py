"""Methods of maps and geometries against the functions they stand for, with the same arguments"""
import random, numpy as np, astropy.wcs
from pixell import enmap, utils
from lib import q, qf, Hang
D = np.pi/180
def mk(a):
	w = astropy.wcs.WCS(naxis=2); w.wcs.ctype = ["RA---CAR","DEC--CAR"] if a["proj"] == "car" else ["RA---TAN","DEC--TAN"]
	w.wcs.cdelt = np.array(a["cd"])/4; w.wcs.crval = [a["ra"],0 if a["proj"] == "car" else a["dec"]]
	w.wcs.crpix = [a["n"][1]/2+.5, a["n"][0]/2+.5-(a["dec"]/w.wcs.cdelt[1] if a["proj"] == "car" else 0)]; w.wcs.set()
	r = np.random.default_rng(a["seed"]); shape = tuple(a["pre"])+tuple(a["n"])
	return enmap.ndmap(r.integers(-50,50,shape).astype(a["dt"]), w), r
def pos(m, r, n=4):
	pix = np.array([r.uniform(-2,m.shape[-2]+1,n), r.uniform(-2,m.shape[-1]+1,n)])
	return enmap.pix2sky(m.shape, m.wcs, pix)
def skybox(m, r):
	c = enmap.pix2sky(m.shape, m.wcs, np.array([[0.5,m.shape[-2]-1.6],[0.7,m.shape[-1]-2.2]]))
	return c.T
ch = lambda r, x: x[int(r.integers(len(x)))]
bo = lambda r: bool(r.integers(2))
def other(m, r):
	y, x = int(r.integers(-3,4)), int(r.integers(-3,4)); w = m.wcs.deepcopy(); w.wcs.crpix += [x,y]
	return (int(r.integers(3,7)),int(r.integers(3,7))), w
def small(m, r):
	s, w = other(m, r); return enmap.ndmap(r.integers(-9,9,m.shape[:-2]+s).astype(m.dtype), w)
# name: (what the function takes first, arguments)
P = {
"P02": dict(
	extract=("m", lambda m,r: (other(m,r), dict(op=ch(r,[np.add,np.multiply]), cval=3, omap=None, wrap=ch(r,["auto",0])))),
	extract_pixbox=("m", lambda m,r: (([[int(r.integers(-3,2)),int(r.integers(-3,2))],[int(r.integers(3,9)),int(r.integers(3,9))]],), dict(cval=int(r.integers(9)), wrap=ch(r,["auto",0])))),
	insert=("m", lambda m,r: ((small(m,r),), dict(op=ch(r,[np.add,np.subtract]), wrap=ch(r,["auto",0])))),
	insert_at=("m", lambda m,r: (([int(r.integers(-2,4)),int(r.integers(-2,4))],small(m,r)), dict(op=ch(r,[np.add,np.subtract])))),
	submap=("m", lambda m,r: ((skybox(m,r),), dict(mode=ch(r,["round","floor","ceil","inclusive","exclusive"]), wrap=ch(r,["auto",0]), recenter=bo(r)))),
	subinds=("g", lambda m,r: ((skybox(m,r),), dict(mode=ch(r,["round","floor","ceil","inclusive","exclusive"]), cap=bo(r)))),
	pixbox_of=("w", lambda m,r: (other(m,r), {}))),
"P03": dict(
	sky2pix=("g", lambda m,r: ((pos(m,r),), dict(safe=bo(r), corner=bo(r)))),
	pix2sky=("g", lambda m,r: ((r.uniform(-3,9,(2,4)),), dict(safe=bo(r), corner=bo(r)))),
	l2pix=("g", lambda m,r: ((r.uniform(-500,500,(2,4)),), {})),
	pix2l=("g", lambda m,r: ((r.uniform(0,5,(2,4)),), {})),
	contains=("g", lambda m,r: ((pos(m,r),), {}) if bo(r) else ((r.uniform(-3,9,(2,4)),), dict(unit="pix"))),
	posmap=("g", lambda m,r: ((), dict(safe=bo(r), corner=bo(r), dtype=ch(r,[np.float32,np.float64])))),
	posaxes=("g", lambda m,r: ((), dict(safe=bo(r), corner=bo(r), dtype=ch(r,[np.float32,np.float64])))),
	pixmap=("g", lambda m,r: ((), {})),
	argmax=("m", lambda m,r: ((), dict(unit=ch(r,["coord","pix"]))))),
"P04": dict(
	corners=("g", lambda m,r: ((), dict(npoint=int(r.integers(2,12)), corner=bo(r)))),
	box=("g", lambda m,r: ((), dict(npoint=int(r.integers(2,12)), corner=bo(r)))),
	area=("g", lambda m,r: ((), {})), pixsize=("g", lambda m,r: ((), {})), center=("g", lambda m,r: ((), {})),
	pixshape=("g", lambda m,r: ((), dict(signed=bo(r)))),
	pixsizemap=("g", lambda m,r: ((), dict(broadcastable=bo(r)))),
	pixshapemap=("g", lambda m,r: ((), dict(signed=bo(r)))),
	extent=("g", lambda m,r: ((), dict(signed=bo(r), method=ch(r,["auto","intermediate","subgrid"]))))),
"P05": dict(
	apod=("m", lambda m,r: ((int(r.integers(1,3)),), dict(fill=ch(r,["zero","mean","median"])))),
	stamps=("m", lambda m,r: ((pos(m,r).T,[3,int(r.integers(2,4))]), dict(aslist=bo(r)))),
	padslice=("m", lambda m,r: (([[int(r.integers(-3,2)),int(r.integers(-3,2))],[int(r.integers(3,9)),int(r.integers(3,9))]],), dict(default=7))),
	downgrade=("m", lambda m,r: (([int(r.integers(1,4)),int(r.integers(1,4))],), dict(op=ch(r,[np.mean,np.sum,np.max]), off=[int(r.integers(0,2)),0] if bo(r) else None))),
	upgrade=("m", lambda m,r: (([int(r.integers(1,4)),int(r.integers(1,4))],), dict(inclusive=bo(r)))),
	fillbad=("m", lambda m,r: ((), dict(val=int(r.integers(9)), inplace=bo(r))))),
"P11": dict(
	distance_from=("g", lambda m,r: ((pos(m,r),), dict(domains=bo(r), rmax=ch(r,[None,2*D]), method=ch(r,["cellgrid","bubble"])))),
	distance_transform=("mm", lambda m,r: ((), dict(rmax=ch(r,[None,2*D]), method=ch(r,["cellgrid","bubble"])))),
	labeled_distance_transform=("ml", lambda m,r: ((), dict(rmax=ch(r,[None,2*D]), method=ch(r,["cellgrid","bubble"]))))),
"P12": dict(
	lform=("m", lambda m,r: ((), {})),
	laxes=("g", lambda m,r: ((), dict(oversample=int(r.integers(1,4)), method=ch(r,["auto","intermediate"]), broadcastable=bo(r)))),
	lmap=("g", lambda m,r: ((), dict(oversample=int(r.integers(1,4))))),
	modlmap=("g", lambda m,r: ((), dict(oversample=int(r.integers(1,4)), min=int(r.integers(0,200))))),
	modrmap=("g", lambda m,r: ((), dict(ref=ch(r,["center",[0.1,0.2]]), safe=bo(r), corner=bo(r)))),
	lbin=("m", lambda m,r: ((), dict(bsize=ch(r,[None,70]), brel=ch(r,[1.0,1.7]), return_nhit=bo(r), return_bins=bo(r), lop=ch(r,[None,np.sqrt])))),
	rbin=("m", lambda m,r: ((), dict(center=ch(r,[[0,0],list(enmap.center(m.shape,m.wcs))]), bsize=ch(r,[None,D]), brel=ch(r,[1.0,1.7]), return_nhit=bo(r), return_bins=bo(r)))),
	lpixsize=("g", lambda m,r: ((), dict(signed=bo(r), method=ch(r,["auto","intermediate"])))),
	lpixshape=("g", lambda m,r: ((), dict(signed=bo(r), method=ch(r,["auto","intermediate"]))))),
"P15": dict(
	project=("m", lambda m,r: (other(m,r), dict(mode=ch(r,["spline","nn","lin"]), order=int(r.integers(0,4)), border=ch(r,["constant","nearest"]), cval=4))),
	at=("m", lambda m,r: ((pos(m,r),), dict(mode=ch(r,["spline","nn","lin"]), order=int(r.integers(0,4)), border=ch(r,["constant","nearest","cyclic"]), cval=4, unit="coord")) if bo(r) else ((r.uniform(-3,9,(2,4)),), dict(unit="pix", order=1)))),
"P23": dict(
	resample=("m", lambda m,r: (((int(r.integers(3,12)),int(r.integers(3,12))),), dict(off=ch(r,[(0,0),(0.3,-0.2)]), method=ch(r,["fft","spline"]), corner=bo(r), order=int(r.integers(0,4)))))),
}
def cases(pid, rng, N):
	for name in P[pid]:
		for _ in range(16*N):
			yield dict(k="deleg", a=dict(f=name, pid=pid, n=[rng.randint(5,8),rng.randint(5,8)], pre=rng.choice([[],[],[2]]) if P[pid][name][0] == "m" and name != "argmax" else [], proj=rng.choice(["car","car","tan"]) if pid not in ("P05","P15","P23") else "car",
				cd=[rng.choice([-4,-4,4,-2]),rng.choice([4,4,-4])], ra=rng.choice([0,50,-90]), dec=rng.choice([0,0,20,-35]), dt=rng.choice(["f8","f8","f4"]), seed=rng.randrange(10**6)))
def flat(x, out):
	"""numbers, shapes and types of a (possibly nested) result"""
	if isinstance(x, str): out["t"].append(x)
	elif isinstance(x, (list,tuple)):
		out["n"].append(len(x))
		for v in x: flat(v, out)
	elif isinstance(x, slice): out["n"] += [x.start or 0, -999 if x.stop is None else x.stop, x.step or 1]
	elif hasattr(x, "wcs") and not isinstance(x, np.ndarray): out["w"].append(x)
	else:
		y = np.asarray(x); out["t"].append(y.dtype.str if y.dtype.kind != "O" else "O"); out["n"] += [int(v) for v in y.shape]
		if y.dtype.kind == "c": out["v"] += [y.real.reshape(-1), y.imag.reshape(-1)]
		else: out["v"].append(y.reshape(-1).astype(float))
		if isinstance(x, enmap.ndmap): out["w"].append(x.wcs)
def same(f, g):
	a, b = [dict(n=[],t=[],v=[],w=[]) for _ in range(2)]
	flat(f, a); flat(g, b)
	for o in (a,b):
		o["v"] = np.concatenate(o["v"]) if o["v"] else np.zeros(0)
		o["w"] = qf([[*w.wcs.crval,*w.wcs.cdelt,*w.wcs.crpix] for w in o["w"]], 1e4)
	big = np.max(np.abs(b["v"][np.isfinite(b["v"])]), initial=0) or 1
	return [dict(n=o["n"], t=o["t"], v=qf(o["v"],1e6/big), w=o["w"]) for o in (a,b)]
def run(a):
	kind, args = P[a["pid"]][a["f"]]; res = []
	for how in range(2):
		m, r = mk(a)
		if kind == "mm": m = enmap.ndmap((m > -30).astype(bool) if a["seed"]%2 else m > 30, m.wcs)
		if kind == "ml": m = enmap.ndmap(np.maximum(np.asarray(m)//25,0).astype(np.int32), m.wcs)
		if a["f"] == "fillbad": m[...,1,2] = np.nan; m[...,0,0] = np.inf
		ar, kw = args(m, r)
		try:
			if how == 0: x = getattr(m, a["f"])(*ar, **kw)
			else:
				f = getattr(enmap, a["f"])
				x = f(m.shape, m.wcs, *ar, **kw) if kind == "g" else f(m.wcs, *ar, **kw) if kind == "w" else f(m, *ar, **kw)
		except Hang: raise
		except Exception as e: x = [type(e).__name__] # refused alike
		res.append([x, m])
	x, y = same(res[0], res[1])
	return dict(m=x, f=y)
