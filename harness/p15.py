"""P15 interpolation and projection"""
import random, numpy as np
from pixell import utils, enmap, wcsutils, interpol, lensing
from lib import q, qf
TRACE = "TraceP15"
MC  = [dict(module="InterpMC", cfg="InterpMC.cfg", min_states=30)]
ASSUMPTIONS = ["splines of order 2 and above with zero or clamped edges in interpol.map_coordinates are approximate near the edges and only checked for consistency with their transpose",
	"a position exactly between two samples may round either way in nearest-neighbour interpolation",
	"positions less than a pixel above or below the map may get the fill value or a blend with it when projecting"]
MODES = [("conv",0),("conv",1),("conv",3),("spline",0),("spline",1),("spline",2),("spline",3),("spline",3),("spline",4),("spline",5),("lanczos",1),("lanczos",2)]
NAMES = {0:["nn","nearest","spline"],1:["lin","linear","spline"],3:["cub","cubic","spline","spline"],2:["spline"],4:["spline"],5:["spline"]}

def vals(rng, n, m=9): return [rng.randint(-m,m) for _ in range(n)]
def points(rng, dims, npt, order, pad=3):
	res = []
	for n in dims:
		p = [rng.randint(-8*pad, 8*(n-1+pad)) if rng.random() < 0.7 else 8*rng.randint(-pad,n-1+pad) for _ in range(npt)]
		if order == 0: p = [v+1 if v%8 == 4 else v for v in p]
		res.append(p)
	return res

def cases(tier, seed, gen):
	rng = random.Random(seed)
	N = 1 if tier == "quick" else 6
	def dims(lo=1): return rng.choice([[rng.randint(lo,8)],[rng.randint(lo,5),rng.randint(lo,5)]])
	for _ in range(160*N):
		mode, order = rng.choice(MODES); b = rng.choice(["zero","nearest","cyclic","cyclic","mirror","reflect"])
		if order >= 2 and mode == "spline" and b in ("zero","nearest"): mode = "conv"; order = 3
		d = dims(2 if order >= 2 else 1); npre = rng.choice([1,1,2,3])
		deriv = rng.random() < 0.25 and mode in ("conv","spline") and order in (1,2,3,4)
		pts = points(rng, d, rng.randint(1,6), order)
		if deriv and order == 1: pts = [[v+1 if v%8 == 0 else v for v in p] for p in pts]
		npt = len(pts[0])
		yield dict(k="mc", a=dict(op="mc", dims=d, npre=npre, x=vals(rng, npre*int(np.prod(d)), 5), pts=pts, mode=mode, order=order, border="mirror" if b == "reflect" else b, bname=b, deriv=deriv, dt=rng.choice(["f8","f4"]),
			two=rng.random() < 0.4, out=rng.choice(["none","none","new","step"]), lay=rng.choice(["c","c","step","f"])))
	for _ in range(60*N):
		ny, nx = rng.randint(2,4), rng.randint(2,4); npre = rng.choice([1,2]); mode, order = rng.choice(MODES); b = rng.choice(["cyclic","cyclic","mirror"])
		pts = points(rng, [ny,nx], ny*nx, order)
		yield dict(k="mc", a=dict(op=rng.choice(["disp","disp","lens"]), dims=[ny,nx], npre=npre, x=vals(rng, npre*ny*nx, 5), pts=pts, mode=mode, order=order, border=b, bname=b, deriv=False, dt="f8", two=False, out="none", lay="c"))
	for _ in range(120*N):
		mode, order = rng.choice(MODES); b = rng.choice(["zero","nearest","cyclic","mirror"]); d = dims(2) if order >= 2 else dims(1)
		deriv = rng.random() < 0.3 and order in (1,2,3,4) and mode != "lanczos"
		if rng.random() < 0.25: d = [rng.randint(2,3),rng.randint(2,3)]; deriv = False; op = rng.choice(["disp","lens"]); npt = d[0]*d[1]
		else: op = "mc"; npt = rng.randint(1,4)
		yield dict(k="mct", a=dict(op=op, dims=d, npre=rng.choice([1,1,2]), pts=points(rng, d, npt, order), mode=mode, order=order, border=b, bname=b, deriv=deriv, dt=rng.choice(["f8","f8","f4"]), two=False, lay=rng.choice(["c","c","step"]), layo=rng.choice(["c","c","step"])))
	for _ in range(260*N):
		order = rng.choice([0,1,1,2,3,3,3,4,5]); d = dims(1 if order < 2 else 2); npre = rng.choice([1,1,2,3])
		yield dict(k="ip", a=dict(dims=d, npre=npre, x=vals(rng, npre*int(np.prod(d)), 5), pts=points(rng, d, rng.randint(1,6), order), order=order, mname=rng.choice(NAMES[order]), border=rng.choice(["nearest","wrap","mirror","constant","constant"]),
			cval=rng.choice([0,7,-3]), dt=rng.choice(["f8","f8","f4","c16","i4","i8"]), out=rng.choice(["none","none","new"]), via=rng.choice(["interpol","interpol","ip","ipobj"]), lay=rng.choice(["c","c","step"]), fold=rng.random() < 0.3))
	for _ in range(60*N):
		d = rng.choice([[rng.choice([1,2,3,4,5,6,7,9])],[rng.choice([1,2,3,4,5]),rng.choice([1,2,3,4,5])]]); npre = rng.choice([1,1,2])
		yield dict(k="four", a=dict(dims=d, npre=npre, x=vals(rng, npre*int(np.prod(d)), 5), pts=points(rng, d, rng.randint(1,5), 3), dt=rng.choice(["f8","f8","f4","c16"]), via=rng.choice(["interpol","plan","fft","none"]), mname=rng.choice(["fourier","fft","nufft"]), out=rng.choice(["none","new"])))
	for _ in range(150*N):
		order = rng.choice([0,1,3,3,1]); d = [rng.randint(2,5),rng.randint(2,5)]; npre = rng.choice([1,2]); pts = points(rng, d, rng.randint(1,6), order, pad=2)
		yield dict(k="at", a=dict(dims=d, npre=npre, x=vals(rng, npre*d[0]*d[1], 5), pts=pts, order=order, mname=rng.choice(NAMES[order]), border=rng.choice(["constant","constant","nearest","wrap","mirror"]), cval=rng.choice([0,7,-3]),
			dt=rng.choice(["f8","f4"]), unit=rng.choice(["pix","coord","coord"]), turn=rng.choice([0,0,1,-1]), geo=[rng.randint(-20,20),rng.randint(-170,170)], flip=rng.random() < 0.7, res=rng.choice([1,0.3,0.1]), meth=rng.random() < 0.5, obj=rng.random() < 0.25))
	# every pixel centre of maps in several projections
	for _ in range(60*N):
		ny, nx = rng.randint(2,7), rng.randint(2,7)
		yield dict(k="same", a=dict(op=rng.choice(["at","at","proj","flat"]), ny=ny, nx=nx, x=vals(rng, ny*nx, 9), proj=rng.choice(["car","cea","tan","zea","arc","sin"]), pos=[rng.randint(-60,60),rng.randint(-170,170)], size=rng.choice([0.01,1,5]), order=rng.choice([0,1,3]), border=rng.choice(["constant","constant","nearest","mirror"]), b=rng.randint(1,9)))
	for _ in range(150*N):
		order = rng.choice([0,1,1,3]); d = [rng.randint(2,6),rng.randint(2,6)]; npre = rng.choice([1,1,2])
		step = [rng.choice([8,8,4,2,6,12,16]),rng.choice([8,8,4,2,6,12,16])]
		if rng.random() < 0.3: step = [8,8]
		off = [rng.randint(-16,16),rng.randint(-16,16)]
		if rng.random() < 0.5: off = [8*(o//8) for o in off]
		if order == 0:
			# no position exactly between two pixels
			off = [o|1 if s%2 == 0 and (s%8 or o%8 == 4) else o for o,s in zip(off,step)]
		osh = [rng.randint(1,7),rng.randint(1,7)]
		if rng.random() < 0.1: osh, step, off = list(d) if rng.random() < 0.5 else osh, [8,8], [0,0]
		yield dict(k="proj", a=dict(dims=d, npre=npre, x=vals(rng, npre*d[0]*d[1], 5), pts=[[0],[0]], order=order, mname=rng.choice(NAMES[order]), border=rng.choice(["constant","constant","constant","nearest","wrap","mirror"]), cval=rng.choice([0,7,-3]), dt=rng.choice(["f8","f4"]),
			osh=osh, off=off, step=step, bsize=rng.choice([1,2,3,1000]), force=rng.random() < 0.4, row=rng.randint(-20,20), ra=rng.choice([0,170,-170,40]), meth=rng.random() < 0.3, obj=rng.random() < 0.15))
	for _ in range(25*N):
		n = rng.randint(2,7); npre = rng.choice([1,2,4]); per = rng.random() < 0.3
		yield dict(k="lin1", a=dict(dims=[n], npre=npre, x=vals(rng, npre*n), pts=points(rng, [n], rng.randint(1,8), 1), sides=rng.random() < 0.5 and not per, period=per))
	for _ in range(40*N):
		d = dims(2); npre = rng.choice([1,2]); npt = rng.randint(1,6)
		yield dict(k="multi", a=dict(cls=rng.choice(["linear","linear","grad","ndimage"]), dims=d, npre=npre, x=vals(rng, npre*int(np.prod(d))), pts=[[rng.randint(0,8*(n-1)) for _ in range(npt)] for n in d], lo=rng.randint(-5,5), w=rng.randint(1,6)))
	for _ in range(16*N):
		yield dict(k="build", a=dict(nd=rng.choice([1,1,2]), nout=rng.choice([1,2,3,4]), q=rng.choice([0,1,3]), lim=rng.choice([50,20,10]), kind=rng.choice(["ip","obox","status","both"]), cls=rng.choice(["linear","ndimage"])))

def lay(arr, how):
	if how == "f": return np.asfortranarray(arr)
	if how == "step":
		big = np.full(tuple(2*n for n in arr.shape), 3, arr.dtype); v = big[tuple(slice(None,None,2) for _ in arr.shape)]; v[...] = arr
		return v
	return arr
def carwcs(res, row, ra, flip=False):
	"""Pixel (y,x) at dec (row+y)*res, ra ra-+x*res, in degrees"""
	w = wcsutils.WCS(naxis=2); w.wcs.ctype = ["RA---CAR","DEC--CAR"]; w.wcs.cdelt = [res if flip else -res, res]; w.wcs.crval = [ra,0]; w.wcs.crpix = [1, 1-row]; w.wcs.set()
	return w

def run(k, a):
	if k in ("mc","mct"):
		pts = np.array(a["pts"], float)/8; nd = len(a["dims"]); kw = dict(mode=a["mode"], order=a["order"], border=a["bname"])
		def call(x, out=None, trans=False):
			x0 = x
			if a["op"] == "mc":
				if a["two"] and not trans and a["mode"] == "spline":
					x = interpol.spline_filter(x, order=a["order"], border=a["bname"], ndim=nd)
					return interpol.map_coordinates(x, pts, out, deriv=a["deriv"], prefilter=False, **kw)
				return interpol.map_coordinates(x, pts, out, deriv=a["deriv"], trans=trans, **kw)
			ny, nx = a["dims"]
			w = carwcs(0.25, 0, 0, True); m = enmap.ndmap(x if not trans else out, w)
			pix = enmap.ndmap(pts.reshape(2,ny,nx), w)
			if a["op"] == "disp": return lensing.displace_map(m, pix, trans=trans, **kw)
			d = (pix - m.pixmap())*0.25*utils.degree
			return lensing.lens_map(m, d, trans=trans, **kw)
	if k == "mc":
		x = lay(np.array(a["x"], a["dt"]).reshape([a["npre"]]+a["dims"]), a["lay"]); x0 = x.copy(); p0 = pts.copy()
		osh = ((nd,) if a["deriv"] else ())+(a["npre"],len(a["pts"][0]))
		o = None if a["out"] == "none" else lay(np.full(osh, 99, a["dt"]), "step" if a["out"] == "step" else "c")
		r = call(x, o)
		return dict(v=qf(r,1000), same=bool(np.array_equal(x,x0) and np.array_equal(pts,p0)), isout=bool(o is None or np.array_equal(o,r)))
	if k == "mct":
		n = int(np.prod(a["dims"])); npt = len(a["pts"][0]); ndv = nd if a["deriv"] else 1; npre = a["npre"]
		fwd, bwd = [], []
		p0 = pts.copy(); same = True
		for j in range(n):
			e = np.zeros((npre,n), a["dt"]); e[-1,j] = 1
			r = np.asarray(call(e.reshape([npre]+a["dims"]))).reshape(ndv,npre,npt)
			fwd.append(r)
		fwd = np.array(fwd)                       # [n,ndv,npre,npt]
		for d in range(ndv):
			for p in range(npt):
				e = np.zeros((ndv,npre,npt), a["dt"]); e[d,-1,p] = 1
				o = e if a["deriv"] else e[0]
				if a["op"] != "mc": o = o.reshape([npre]+a["dims"])
				o = lay(o, a["layo"]); o0 = o.copy()
				i = lay(np.full([npre]+a["dims"], 5, a["dt"]), a["lay"])
				r = call(i, o, trans=True)
				same &= np.array_equal(o,o0)
				if a["op"] == "mc": same &= np.array_equal(np.asarray(r), i)
				bwd.append(np.array(r).reshape(npre,n))
		bwd = np.array(bwd).reshape(ndv,npt,npre,n)
		return dict(fwd=qf(fwd.transpose(1,3,2,0),1000), bwd=qf(bwd,1000), same=bool(same and np.array_equal(p0,pts)))
	if k in ("ip","four"):
		x = np.array(a["x"], float).reshape([a["npre"]]+a["dims"])
		x = lay(x.astype(a["dt"]) if a["dt"] != "c16" else x*(1+1j if k == "ip" else 1+0j), a.get("lay","c")); x0 = x.copy()
		npre = 1
		if a["npre"] == 1 and len(a["x"])%2: x, npre = x[0], 0
		pts = np.array(a["pts"], float)/8
		if len(a["pts"][0])%2 == 0: pts = pts.reshape(len(pts),-1,2)
		p0 = pts.copy()
		odt = a["dt"] if a["dt"][0] in "fc" or a.get("order") == 0 else "f8"
		o = None if a["out"] == "none" else np.full(x.shape[:npre]+pts.shape[1:], 99, odt)
		if k == "ip":
			kw = dict(mode=a["mname"], border=a["border"], cval=a["cval"])
			if a["mname"] == "spline" or a["fold"]: kw["order"] = a["order"]
			if a["mname"] == "spline" and a["order"] == 3 and a["fold"]: del kw["order"]
		else: kw = dict(mode=a["mname"])
		if a["via"] == "interpol": r = utils.interpol(x, pts, o, **kw)
		elif a["via"] == "ipobj": r = utils.interpol(x, pts, o, ip=utils.interpolator(x, npre, **kw))
		elif k == "ip":
			ip = utils.interpolator(x, npre, **kw); ip(pts[...,:1]*0+1); r = ip(pts, out=o)
		else:
			ip = utils.FourierInterpolator(x, npre, precompute=a["via"]); ip(pts[...,:1]*0+1); r = ip(pts, out=o)
		r = np.asarray(r)
		v = r.real if np.iscomplexobj(r) else r
		if a["dt"] == "c16" and k == "ip" and a["border"] == "constant": pass
		elif a["dt"] == "c16" and not (k == "four") and not np.allclose(r.real, r.imag, atol=1e-6): v = v+999
		return dict(v=qf(v,1000), same=bool(np.array_equal(x0 if npre else x0[0],x) and np.array_equal(pts,p0)), isout=bool(o is None or np.array_equal(o,r)))
	if k == "at":
		ny, nx = a["dims"]; w = carwcs(a["res"], a["geo"][0], a["geo"][1], a["flip"])
		m = enmap.ndmap(np.array(a["x"], a["dt"]).reshape([a["npre"]]+a["dims"]), w); m0 = m.copy()
		pix = np.array(a["pts"], float)/8
		if a["unit"] == "pix": pos = pix
		else: pos = np.array([(a["geo"][0]+pix[0])*a["res"], a["geo"][1]+pix[1]*a["res"]*(1 if a["flip"] else -1)+360*a["turn"]])*utils.degree
		p0 = pos.copy()
		kw = dict(mode=a["mname"], order=a["order"], border=a["border"], cval=a["cval"], unit=a["unit"])
		if a["obj"]: kw = dict(ip=utils.interpolator(m, 1, mode=a["mname"], order=a["order"], border=a["border"], cval=a["cval"]), unit=a["unit"])
		r = m.at(pos, **kw) if a["meth"] else enmap.at(m, pos, **kw)
		return dict(v=qf(r,1000), same=bool(np.array_equal(m,m0) and np.array_equal(pos,p0)), isout=True)
	if k == "same":
		ny, nx = a["ny"], a["nx"]
		p = (np.array([[-1,1],[1,-1]])*a["size"]/2*np.array([ny,nx])/max(ny,nx)+a["pos"])*utils.degree
		shape, wcs = enmap.geometry(pos=p, shape=(ny,nx), proj=a["proj"])
		m = enmap.ndmap(np.array(a["x"], float).reshape(ny,nx), wcs)
		if a["op"] == "at": r = m.at(m.posmap(), order=a["order"], border=a["border"])
		elif a["op"] == "proj": r = enmap.project(m, shape, wcs, order=a["order"], border=a["border"], force=True, bsize=a["b"])
		else: r = lensing.lens_map_flat(m, m*0)
		return dict(v=qf(r,1000))
	if k == "proj":
		ny, nx = a["dims"]; res = 0.5
		w = carwcs(res, a["row"], a["ra"]); sy, sx = [s/8 for s in a["step"]]; oy, ox = [o/8 for o in a["off"]]
		ow = w.deepcopy(); ow.wcs.cdelt = [-res*sx, res*sy]; ow.wcs.crpix = [1-ox/sx, 1-(a["row"]+oy)/sy]; ow.wcs.set()
		m = enmap.ndmap(np.array(a["x"], a["dt"]).reshape([a["npre"]]+a["dims"]), w); m0 = m.copy()
		kw = dict(mode=a["mname"], order=a["order"], border=a["border"], cval=a["cval"])
		if a["obj"]: kw = dict(ip=utils.interpolator(m, 1, **kw), border=a["border"], cval=a["cval"])
		if a["meth"] and not a["obj"]: r = m.project(tuple(a["osh"]), ow, **kw)
		else: r = enmap.project(m, tuple(a["osh"]), ow, force=a["force"], bsize=a["bsize"], **kw)
		return dict(v=qf(r,1000), shape=list(r.shape[-2:]), wcs=bool(wcsutils.equal(r.wcs, ow)), same=bool(np.array_equal(m,m0)))
	if k == "lin1":
		n = a["dims"][0]; x = np.array(a["x"], float).reshape(a["npre"],n)
		kw = dict(left=7, right=-7) if a["sides"] else {}
		if a["period"]: kw["period"] = n
		return dict(v=qf(utils.interp(np.array(a["pts"][0])/8, np.arange(n), x, **kw),1000))
	if k == "multi":
		x = np.array(a["x"], float).reshape([a["npre"]]+a["dims"]); nd = len(a["dims"])
		box = np.array([[a["lo"]]*nd, [a["lo"]+a["w"]*(n-1) for n in a["dims"]]], float)
		pos = a["lo"]+np.array(a["pts"],float)/8*a["w"]
		c = {"linear":interpol.ip_linear,"grad":interpol.ip_grad,"ndimage":interpol.ip_ndimage}[a["cls"]]
		ip = c(box, x, order=1) if a["cls"] == "ndimage" else c(box, x)
		return dict(v=qf(ip(pos),1000))
	if k == "build":
		nd, nout, qq = a["nd"], a["nout"], a["q"]
		def f(x): return np.array([(i+1)+sum((j+i+1)*x[j] for j in range(nd))+qq*sum(x[j]**2 for j in range(nd)) for i in range(nout)])
		box = np.array([[0.]*nd,[1.]*nd]); kw = {}
		if a["kind"] in ("obox","both"): kw["return_obox"] = True
		if a["kind"] in ("status","both"): kw["return_status"] = True
		if a["cls"] == "ndimage": kw["order"] = 1
		r = interpol.build(f, interpol.ip_linear if a["cls"] == "linear" else interpol.ip_ndimage, box, [a["lim"]/1000.]*nout, **kw)
		kind = "ip" if not isinstance(r, tuple) else {2:"obox",3:"status",4:"both"}[len(r)]
		ip = r if kind == "ip" else r[0]
		pos = np.random.default_rng(1).uniform(0,1,(nd,200)); y = f(pos)
		okbox = True
		if kind in ("obox","both"):
			ob = r[1]; lo, hi = f(np.zeros((nd,1)))[:,0], f(np.ones((nd,1)))[:,0]
			okbox = np.shape(ob) == (2,nout) and np.allclose(ob[0],lo) and np.allclose(ob[1],hi)
		return dict(err=qf(np.max(np.abs(ip(pos)-y),-1),1000), kind=kind, box=bool(okbox))
