"""P12 Fourier transforms"""
import random, numpy as np
from pixell import fft, enmap, wcsutils, resample as tsresample
from lib import q, qf
TRACE = "TraceP12"
MC  = [dict(module="FourierMC", cfg="FourierMC.cfg", min_states=300)]
ASSUMPTIONS = ["the middle (Nyquist) mode of an even length counts as a negative frequency",
	"output arrays given to a transform have the type and shape it needs", "DCT-I needs at least two samples"]
TYPES = ["DCT-I","DCT-II","DCT-III","DCT-IV","DST-I","DST-II","DST-III","DST-IV"]
FTYPES = {"f8":"c16","f4":"c8","i4":"c16","c16":"c16","c8":"c8","i2":"c8"}

def tab(D): return 10080%D == 0 or 5720%D == 0 or 2640%D == 0
def vals(rng, n): return [rng.randint(-9,9) for _ in range(n)]
def pickdims(rng, cap=40, lens=(1,2,3,4,5,6,7,8,9,10,11,12,13)):
	while True:
		nd = rng.choice([1,1,2,2,2,3])
		d  = [rng.choice(lens) if nd == 1 else rng.randint(1,7) for _ in range(nd)]
		if np.prod(d) <= cap: return d
def pickaxes(rng, nd, nmax=3, order=True):
	n = rng.choice([1,1,2,3][:max(1,min(4,nd+1))]); n = min(n, nd, nmax)
	ax = rng.sample(range(nd), n)
	if not order: ax.sort()
	return ax
def signed(rng, ax, nd): return [a if rng.random() < 0.5 else a-nd for a in ax]
def okaxes(d, ax, mul=1): return tab(mul*int(np.lcm.reduce([d[a] for a in ax])))

def cases(tier, seed, gen):
	rng = random.Random(seed)
	N = 1 if tier == "quick" else 6
	eng = lambda: rng.choice(["ducc","numpy"])
	def base(**kw):
		while True:
			d = pickdims(rng, **kw); ax = pickaxes(rng, len(d))
			if okaxes(d, ax): break
		return dict(dims=d, ax=ax, axes=signed(rng, ax, len(d)), engine=eng(), how=rng.choice(["arg","set"]), nthread=rng.choice([0,1,2]),
			lay=rng.choice(["c","c","f","step"]), oneax=rng.random() < 0.5)
	for _ in range(500*N):
		a = base(); n = int(np.prod(a["dims"]))
		a["op"] = rng.choice(["fft","ifft","rfft","rfft","irfft","irfft","fft"])
		a["x"]  = vals(rng, n)
		a["dt"] = rng.choice(["f8","f4","i4","c16","c8"]) if a["op"] in ("fft","ifft") else rng.choice(["f8","f4","i4"])
		a["y"]  = vals(rng, n) if a["dt"][0] == "c" else [0]*n
		a["norm"] = rng.random() < 0.5 and a["op"] in ("ifft","irfft")
		a["out"]  = rng.choice(["none","none","new","strided"])
		if a["op"] == "irfft" and a["dt"] == "i4": a["dt"] = "f8"
		yield dict(k="dft", a=a)
	for _ in range(150*N):
		# one-dimensional real inverse from arbitrary coefficients
		n = rng.choice([1,2,3,4,5,6,7,8,9,10,11,12,13]); h = n//2+1
		pre = rng.choice([[],[2],[3]]); m = int(np.prod(pre))*h
		x, y = vals(rng, m), vals(rng, m)
		for r in range(m):
			if r%h == 0 or (n%2 == 0 and r%h == h-1): y[r] = 0
		yield dict(k="irfft1", a=dict(n=n, pre=pre, x=x, y=y, dt=rng.choice(["c16","c8"]), engine=eng(), norm=rng.random() < 0.5, given=rng.random() < 0.3))
	for _ in range(300*N):
		while True:
			d = [rng.randint(1,9)] if rng.random() < 0.4 else [rng.randint(1,6) for _ in range(rng.randint(2,3))]
			ax = pickaxes(rng, len(d), 2); t = rng.choice(TYPES)
			per = [{"DCT-I":2*(d[i]-1),"DST-I":2*(d[i]+1),"DCT-IV":8*d[i],"DST-IV":8*d[i]}.get(t, 4*d[i]) for i in ax]
			if 0 in per or not tab(int(np.lcm.reduce(per))) or np.prod(d) > 40: continue
			break
		a = dict(dims=d, ax=ax, axes=signed(rng, ax, len(d)), type=t, op=rng.choice(["dct","idct"]), x=vals(rng, int(np.prod(d))), dt=rng.choice(["f8","f8","f4"]),
			engine=eng(), norm=rng.random() < 0.5, out=rng.choice(["none","new","strided"]), lay=rng.choice(["c","f","step"]), emap=False, raw=rng.random() < 0.3)
		if a["op"] == "dct": a["norm"] = False
		yield dict(k="r2r", a=a)
	for _ in range(60*N):
		d = rng.choice([[],[],[2]])+[rng.randint(2,6), rng.randint(2,6)]; nd = len(d)
		yield dict(k="r2r", a=dict(dims=d, ax=[nd-2,nd-1], axes=[-2,-1], type="DCT-I", op=rng.choice(["dct","idct"]), x=vals(rng, int(np.prod(d))), dt=rng.choice(["f8","f4"]),
			engine="ducc", norm=rng.random() < 0.5, out="none", lay="c", emap=True, raw=False))
	for _ in range(80*N):
		pre = rng.choice([[],[],[2],[3],[2,3],[4]]); n = rng.randint(2,8)
		yield dict(k="cheb", a=dict(op=rng.choice(["chebt","ichebt"]), n=n, pre=pre, x=vals(rng, int(np.prod(pre))*n), dt=rng.choice(["f8","f4"]), engine=eng()))
	for _ in range(150*N):
		d = pickdims(rng, 30, (1,2,3,4,5,6,7,8,9,10,12)); ax = rng.randrange(len(d))
		if not tab(4*d[ax]): continue
		cplx = rng.random() < 0.3; n = int(np.prod(d))
		der = d[ax]%2 == 1 and not cplx and rng.random() < 0.25
		yield dict(k="shift", a=dict(dims=d, ax=ax, axis=ax-len(d) if rng.random() < 0.5 else ax, s=rng.choice([0,4,-4,rng.randint(-30,30)]), x=vals(rng,n), y=vals(rng,n) if cplx else [0]*n,
			cplx=cplx, dt=rng.choice(["f8","f4","i4"]) if not cplx else "c16", engine=eng(), deriv=der, nofft=rng.random() < 0.2))
	for _ in range(60*N):
		d = [rng.randint(1,6) for _ in range(rng.randint(2,3))]
		m = rng.choice(["shift","resample"]); ax = pickaxes(rng, len(d), 2)
		yield dict(k="compose", a=dict(dims=d, ax=ax, axes=signed(rng, ax, len(d)), x=vals(rng, int(np.prod(d))), op=m, s=[rng.randint(-9,9) for _ in ax], n=[rng.randint(1,8) for _ in ax], engine=eng()))
	for _ in range(150*N):
		d = pickdims(rng, 30, (1,2,3,4,5,6,7,8,9,10,12)); ax = rng.randrange(len(d)); n = rng.randint(1,12)
		if not tab(d[ax]*n): continue
		cplx = rng.random() < 0.3; m = int(np.prod(d))
		yield dict(k="resample", a=dict(dims=d, ax=ax, axis=ax-len(d) if rng.random() < 0.5 else ax, n=n, x=vals(rng,m), y=vals(rng,m) if cplx else [0]*m, cplx=cplx, dt=rng.choice(["f8","f4"]) if not cplx else "c16", engine=eng(), lib=rng.choice(["fft","fft","ts","ts2"])))
	for _ in range(60*N):
		ny, nx = rng.randint(1,8), rng.randint(1,8)
		if not tab(ny*nx): continue
		pre = rng.choice([[],[],[2],[1,2]])
		yield dict(k="grad", a=dict(ny=ny, nx=nx, geo=rng.randint(0,5), pre=pre, k=[rng.randint(-((ny-1)//2),(ny-1)//2), rng.randint(-((nx-1)//2),(nx-1)//2)], A=[rng.randint(-5,5) for _ in range(int(np.prod(pre)))], B=[rng.randint(-5,5) for _ in range(int(np.prod(pre)))]))
	for _ in range(40*N):
		d = [rng.randint(1,7) for _ in range(rng.randint(1,3))]; ns = rng.randint(1,len(d)); up = rng.random() < 0.5
		own = rng.random() < 0.5; axes = rng.sample(range(len(d)),ns) if own else list(range(len(d)-ns,len(d)))
		st = [rng.randint(1,3) for _ in axes]; full = [1]*len(d)
		if not up: st = [min(s,d[ax]) for s,ax in zip(st,axes)]
		for s, ax in zip(st,axes): full[ax] = s
		yield dict(k="tsbin", a=dict(dims=d, full=full, steps=st, axes=signed(rng,axes,len(d)), own=own, up=up, via=rng.random() < 0.4, x=[rng.randint(-99,99) for _ in range(int(np.prod(d)))]))
	for _ in range(120*N):
		d = [rng.randint(1,7) for _ in range(rng.randint(1,3))]
		ax = pickaxes(rng, len(d), 2); n = [rng.randint(1,9) for _ in ax]
		od = list(d)
		for j, i in enumerate(ax): od[i] = n[j]
		m, om = int(np.prod(d)), int(np.prod(od))
		yield dict(k="pad", a=dict(dims=d, ax=ax, axes=signed(rng, ax, len(d)), n=n, odims=od, x=vals(rng,m), y=vals(rng,m), norm=rng.choice([1,2,3]), op=rng.choice(["set","add"]), given=rng.random() < 0.6, w=vals(rng,om), samen=rng.random() < 0.3))
	for _ in range(250*N):
		while True:
			d = [rng.randint(1,10)] if rng.random() < 0.4 else [rng.randint(1,6) for _ in range(rng.randint(2,3))]
			ax = pickaxes(rng, len(d), 2)
			per = [d[i] if rng.random() < 0.8 else d[i]+rng.randint(1,3) for i in ax]
			if tab(4*int(np.lcm.reduce(per))) and np.prod(d) <= 36: break
		op = rng.choice(["u2nu","u2nu","inufft","plan","interpol","nu2u","nu2u","nufft_adjoint","iu2nu","nufft"])
		if op in ("interpol",): per = [d[i] for i in ax]
		if op in ("interpol",) and not tab(4*int(np.lcm.reduce(per))): continue
		post = rng.choice([[1],[3],[5],[2,3],[]])
		np_ = int(np.prod(post)); n = int(np.prod(d)); sub = int(np.prod([d[i] for i in ax])); pre = [d[i] for i in range(len(d)) if i not in ax]
		a = dict(dims=d, ax=ax, axes=signed(rng, ax, len(d)), noaxes=ax == list(range(len(d)-len(ax),len(d))) and op != "plan" and rng.random() < 0.5,
			per=per, sper=per != [d[i] for i in ax], pos=[[rng.randint(-40,80) for _ in range(np_)] for _ in ax], post=post, pre=pre, op=op,
			neg=rng.random() < 0.4 and op != "interpol", norm=rng.random() < 0.4, cplx=rng.random() < 0.5 or op == "interpol", given=rng.random() < 0.3, dt=rng.choice(["c16","c16","c8"]))
		if op in ("iu2nu","nufft"):
			a["per"], a["sper"] = [d[i] for i in ax], False
			# slightly irregular positions, more than enough to determine the modes
			g = np.array(np.meshgrid(*[np.arange(0,4*d[i],3 if d[i] > 1 else 4) for i in ax], indexing="ij")).reshape(len(ax),-1)
			a["pos"], a["post"], a["cplx"], a["dt"], a["given"] = g.tolist(), [g.shape[1]], True, "c16", False
		m = n if op not in ("nu2u","nufft_adjoint") else int(np.prod(pre))*np_
		a["x"] = vals(rng, m); a["y"] = vals(rng, m) if a["cplx"] else [0]*m
		if op == "interpol": a["y"] = [0]*m
		a["scale"] = 1000
		if op in ("iu2nu","nufft") and a["x"][0] > 4: a["x"], a["y"] = [0]*m, [0]*m # nothing at all
		yield dict(k="nufft", a=a)
	for d, ax in (([0],[0]),([0,3],[1]),([2,0,3],[0,2]),([0,2,2],[1,2])):
		for op in ("fft","ifft","rfft"):
			if op == "rfft" and d[ax[-1]] == 0: continue
			for o in ("none","new"):
				yield dict(k="dft", a=dict(dims=d, ax=ax, axes=ax, op=op, x=[], y=[], dt="f8", engine=eng(), how="arg", nthread=0, lay="c", oneax=False, norm=False, out=o))
	for _ in range(40*N):
		yield dict(k="freq", a=dict(n=rng.randint(1,30)))
	for _ in range(100*N):
		d = rng.choice([[],[],[1],[2]])+[rng.randint(1,6), rng.randint(1,6)]
		n = int(np.prod(d)); op = rng.choice(["fft","ifft"])
		if not okaxes(d, [len(d)-2,len(d)-1]): continue
		cplx = op == "ifft" or rng.random() < 0.3
		yield dict(k="dft", a=dict(dims=d, ax=[len(d)-2,len(d)-1], axes=[-2,-1], op="e"+op, x=vals(rng,n), y=vals(rng,n) if cplx else [0]*n, dt=rng.choice(["c16","c8"] if cplx else ["f8","f4"]),
			engine="ducc", how="arg", nthread=0, lay="c", oneax=False, norm=False, enorm=rng.choice(["true","false","phys"]), out=rng.choice(["none","new"]), adj=rng.random() < 0.3, geo=rng.randint(0,5)))
	for _ in range(60*N):
		yield dict(k="lmap", a=dict(ny=rng.randint(1,7), nx=rng.randint(1,7), geo=rng.randint(0,5), os=rng.choice([1,1,2,3])))
	for _ in range(80*N):
		ny, nx = rng.randint(1,5), rng.randint(1,5)
		nc, spin = rng.choice([(2,[2]),(3,[0,2]),(3,[0,2]),(4,[0,2,0]),(2,[1]),(4,[1,2]),(5,[0,1,2]),(5,[0,2,1]),(6,[0,2]),(4,[2]),(3,[0,3]),(6,[2,0,1,0]),(4,[4,2]),(2,[0]),(3,[0,0,0])])
		if not tab(int(np.lcm(ny,nx))): continue
		yield dict(k="harm", a=dict(ny=ny, nx=nx, nc=nc, spin=spin, iau=rng.random() < 0.5, flip=rng.random() < 0.5, x=vals(rng, nc*ny*nx), deep=rng.random() < 0.3,
			dt=rng.choice(["f8","f4"])))
	for _ in range(80*N):
		ny, nx = rng.randint(1,5), rng.randint(1,5)
		yield dict(k="adjoint", a=dict(ny=ny, nx=nx, geo=rng.randint(0,5), op=rng.choice(["fft","ifft","map2harm","harm2map"]), norm=rng.choice(["true","false","phys"]), spin=rng.choice([[0,2],[0,1],[2],[0],[0,1,2],[0,2,1]]), seed=rng.randint(0,10**6)))

NORM = {"true":True, "false":False, "phys":"phys"}
def layout(arr, lay):
	if lay == "f": return np.asfortranarray(arr)
	if lay == "step":
		big = np.zeros(tuple(2*n for n in arr.shape), arr.dtype)
		v = big[tuple(slice(None,None,2) for _ in arr.shape)]
		v[...] = arr
		return v
	return arr
def mkarr(a, dt=None):
	dt = np.dtype(dt or a["dt"])
	x = np.array(a["x"], float).reshape(a["dims"])
	if dt.kind == "c": x = x + 1j*np.array(a["y"], float).reshape(a["dims"])
	return layout(x.astype(dt), a.get("lay","c"))
def mkout(shape, dt, how):
	if how == "none": return None
	o = np.full(tuple(2*n for n in shape), 77, dt)[tuple(slice(None,None,2) for _ in shape)] if how == "strided" else np.full(shape, 77, dt)
	return o
def ri(x, scale=1000): return qf(np.real(x), scale), qf(np.imag(x), scale)
def geo(ny, nx, g):
	cd = [(-0.5,0.5),(-0.5,-0.5),(0.5,0.5),(-0.25,1.0),(-1.0,0.5),(2.0,2.0)][g]
	w = wcsutils.WCS(naxis=2); w.wcs.cdelt = cd; w.wcs.crval = [10,0]; w.wcs.crpix = [nx/2+0.5, ny/2+0.5]; w.wcs.ctype = ["RA---CAR","DEC--CAR"]; w.wcs.set()
	return (ny,nx), w

def run(k, a):
	old = fft.engine
	try: return _run(k, a)
	finally: fft.set_engine(old)

def _run(k, a):
	kw = {}
	if a.get("how","arg") == "set" or k in ("cheb",): fft.set_engine(a["engine"])
	if a.get("how","arg") == "arg" and "engine" in a: kw["engine"] = a["engine"]
	if k == "dft":
		x = mkarr(a); axes = tuple(a["axes"])
		if a["oneax"] and len(axes) == 1: axes = axes[0]
		op = a["op"]
		if op[0] == "e":
			shape, wcs = geo(a["dims"][-2], a["dims"][-1], a["geo"])
			x = enmap.ndmap(x, wcs); x0 = x.copy(); o = mkout(x.shape, np.result_type(x.dtype,0j), a["out"])
			if a["out"] != "none": o = enmap.ndmap(o, wcs)
			nn, npix, psize = NORM[a["enorm"]], x.shape[-2]*x.shape[-1], enmap.pixsize(shape, wcs)
			if a["adj"]: r = (enmap.ifft_adjoint if op == "efft" else enmap.fft_adjoint)(x, omap=o, normalize=nn)
			else: r = (enmap.fft if op == "efft" else enmap.ifft)(x, omap=o, normalize=nn)
			# undo the stated normalisation: unitary, times the square root of the pixel area (its inverse for the inverse transform)
			f = 1 if not nn else npix**0.5
			if nn == "phys": f *= psize**(-0.5 if (op == "efft") != a["adj"] else 0.5)
			re, im = ri(np.asarray(r)*f)
			return dict(shape=list(r.shape), re=re, im=im, same=bool(np.array_equal(x,x0) and wcsutils.equal(r.wcs, wcs)), isout=bool(o is None or np.array_equal(np.asarray(o),np.asarray(r))), dt=r.dtype.kind == "c" and r.dtype.itemsize == 2*np.zeros(1,x.dtype).real.dtype.itemsize)
		if a["nthread"]: kw["nthread"] = a["nthread"]
		if op == "irfft":
			ax = tuple(a["ax"])
			x  = layout(np.fft.rfftn(mkarr(a), axes=ax).astype(FTYPES[a["dt"]]), a["lay"])
		x0 = x.copy(); ct = np.dtype(FTYPES[a["dt"]]); rt = np.zeros(1,ct).real.dtype
		osh = list(a["dims"])
		if op == "rfft": osh[a["ax"][-1]] = osh[a["ax"][-1]]//2+1
		o = mkout(osh, rt if op == "irfft" else ct, a["out"])
		if   op == "fft":  r = fft.fft(x, o, axes=axes, **kw)
		elif op == "ifft": r = fft.ifft(x, o, axes=axes, normalize=a["norm"], **kw) if o is None or x.dtype.kind == "c" else fft.ifft(x+0j if x.dtype != np.float32 else x.astype("c8"), o, axes=axes, normalize=a["norm"], **kw)
		elif op == "rfft": r = fft.rfft(x, o, axes=axes, **kw)
		else:
			n = a["dims"][a["ax"][-1]]
			if o is None and (n%2 == 1 or n == 0 or len(a["x"])%2): r = fft.irfft(x, n=n, axes=axes, normalize=a["norm"], **kw)
			elif o is None: r = fft.irfft(x, axes=axes, normalize=a["norm"], **kw)
			else: r = fft.irfft(x, o, axes=axes, normalize=a["norm"], **kw)
		re, im = ri(r)
		return dict(shape=list(r.shape), re=re, im=im, same=bool(np.array_equal(x,x0)), isout=bool(o is None or np.array_equal(o,r)), dt=r.dtype == (rt if op == "irfft" else ct))
	if k == "irfft1":
		h = a["n"]//2+1
		x = (np.array(a["x"])+1j*np.array(a["y"])).astype(a["dt"]).reshape(tuple(a["pre"])+(h,)); x0 = x.copy()
		o = np.full(tuple(a["pre"])+(a["n"],), 7, np.zeros(1,x.dtype).real.dtype) if a["given"] else None
		r = fft.irfft(x, o, n=a["n"], normalize=a["norm"], **kw)
		return dict(shape=list(r.shape), re=qf(r,1000), same=bool(np.array_equal(x,x0)), isout=bool(o is None or np.array_equal(o,r)))
	if k == "r2r":
		x = mkarr(dict(a, y=[0]*len(a["x"]))); x0 = x.copy(); f = 1
		if a["emap"]:
			shape, wcs = geo(a["dims"][-2], a["dims"][-1], 0)
			o = None
			r = (enmap.fft if a["op"] == "dct" else enmap.ifft)(enmap.ndmap(x,wcs), normalize=a["norm"], dct=True)
			per = np.prod([2*(n-1) for n in a["dims"][-2:]])
			# normalised: one half of the full normalisation in each direction
			if a["norm"]: f = per**0.5 if a["op"] == "dct" else per**-0.5
		else:
			o = mkout(a["dims"], x.dtype, a["out"])
			t = a["type"]
			if a["raw"]: t = fft._dct_names[t]
			if a["op"] == "dct": r = fft.dct(x, o, axes=tuple(a["axes"]), type=t, **kw)
			else: r = fft.idct(x, o, axes=tuple(a["axes"]), type=t, normalize=a["norm"], **kw)
		return dict(shape=list(r.shape), re=qf(np.asarray(r)*f,1000), same=bool(np.array_equal(x,x0) and r.dtype == x.dtype), isout=bool(o is None or np.array_equal(o,r)))
	if k == "cheb":
		x = np.array(a["x"], a["dt"]).reshape(tuple(a["pre"])+(a["n"],)); x0 = x.copy()
		r = getattr(fft, a["op"])(x, **kw)
		return dict(shape=list(r.shape), re=qf(r,1000), same=bool(np.array_equal(x,x0)))
	if k == "shift":
		x = mkarr(a); x0 = x.copy()
		ex = dict(deriv=0) if a["deriv"] else {}
		if a["nofft"]:
			fx = np.fft.fft(x, axis=a["axis"])
			r  = np.fft.ifft(fft.shift(fx, a["s"]/4, axes=a["axis"], nofft=True, **ex), axis=a["axis"])
			if not a["cplx"]: r = r.real
		elif a["axis"] == -1 and not a["deriv"] and a["s"]%3: r = fft.shift(x, a["s"]/4, **kw)
		else: r = fft.shift(x, a["s"]/4, axes=a["axis"], **ex, **kw)
		if a["deriv"]: r = r*a["dims"][a["ax"]]/(2*np.pi)
		re, im = ri(r)
		return dict(shape=list(r.shape), re=re, im=im, same=bool(np.array_equal(x,x0)), dt=(r.dtype.kind == "c") == a["cplx"])
	if k == "compose":
		x = np.array(a["x"], float).reshape(a["dims"])
		if a["op"] == "shift":
			r1 = fft.shift(x, np.array(a["s"])/4, axes=tuple(a["axes"]), **kw)
			r2 = x+0j
			for s, ax in zip(a["s"], a["axes"]): r2 = fft.shift(r2, s/4, axes=ax, **kw)
		else:
			r1 = fft.resample(x, tuple(a["n"]), axes=tuple(a["axes"]), **kw)
			r2 = x+0j
			for n, ax in zip(a["n"], a["axes"]): r2 = fft.resample(r2, n, axes=(ax,), **kw)
		return dict(sh1=list(r1.shape), sh2=list(r2.shape), r1=qf(r1,1000), r2=qf(r2.real,1000))
	if k == "grad":
		shape, wcs = geo(a["ny"], a["nx"], a["geo"]); pre = tuple(a["pre"]); e = enmap.extent(shape, wcs, signed=True)
		y, x = np.mgrid[:a["ny"],:a["nx"]]; t = 2*np.pi*(a["k"][0]*y/a["ny"]+a["k"][1]*x/a["nx"])
		A, B = [np.array(v,float).reshape(pre+(1,1)) for v in (a["A"],a["B"])]
		m = enmap.ndmap(A*np.cos(t)+B*np.sin(t), wcs); m0 = m.copy(); u = 2*np.pi/e
		g = enmap.grad(m); gp = enmap.grad_pix(m); L = np.sum((u*np.array(a["k"]))**2) or 1
		lap = enmap.laplace(m)/L; dg = enmap.div(g)/L
		n = np.array([a["ny"],a["nx"]])
		return dict(shape=list(g.shape), gy=qf(g[0]/u[0],1000), gx=qf(g[1]/u[1],1000), py=qf(gp[0]/(u[0]*n[0]/e[0]),1000), px=qf(gp[1]/(u[1]*n[1]/e[1]),1000), lap=qf(lap,1000), div=qf(dg,1000), same=bool(np.array_equal(m,m0)), wcs=bool(wcsutils.equal(g.wcs,wcs) and wcsutils.equal(lap.wcs,wcs) and wcsutils.equal(dg.wcs,wcs)))
	if k == "tsbin":
		x = np.array(a["x"], float).reshape(a["dims"]); x0 = x.copy(); o = dict(axes=a["axes"]) if a["own"] else {}
		if a["via"]: r = tsresample.resample(x, [s if a["up"] else 1./s for s in a["steps"]], method="bin", **o)
		else: r = (tsresample.upsample_bin if a["up"] else tsresample.downsample_bin)(x, a["steps"], **o)
		return dict(shape=list(r.shape), v=qf(r,1000), same=bool(np.array_equal(x,x0)))
	if k == "resample":
		x = mkarr(a); x0 = x.copy()
		if a["lib"] == "ts": r = tsresample.resample_fft(x, [a["n"]], axes=[a["axis"]])
		elif a["lib"] == "ts2": r = tsresample.resample(x, [a["n"]/x.shape[a["ax"]]], axes=[a["axis"]])
		else: r = fft.resample(x, a["n"], **kw) if a["axis"] == -1 else fft.resample(x, (a["n"],), axes=(a["axis"],), **kw)
		re, im = ri(r)
		return dict(shape=list(r.shape), re=re, im=im, same=bool(np.array_equal(x,x0)), dt=(r.dtype.kind == "c") == a["cplx"])
	if k == "pad":
		x = mkarr(a, "c16"); x0 = x.copy()
		n, axes = tuple(a["n"]), tuple(a["axes"])
		if len(axes) == 1: n, axes = n[0], axes[0]
		ex = {}
		o = np.array(a["w"], complex).reshape(a["odims"]) if a["given"] else None
		if o is not None: ex["out"] = o
		if a["op"] == "add": ex["op"] = lambda x, y: x+y
		r = fft.resample_fft(x, n, axes=axes, norm=a["norm"], **ex)
		re, im = ri(r, 1)
		return dict(shape=list(r.shape), re=re, im=im, same=bool(np.array_equal(x,x0)), isout=bool(o is None or r is o))
	if k == "nufft":
		pos = np.array(a["pos"], float).reshape([len(a["ax"])]+a["post"])/4; pos0 = pos.copy()
		axes = None if a["noaxes"] else tuple(a["axes"])
		ct = np.dtype(a["dt"]); dt = ct if a["cplx"] else np.zeros(1,ct).real.dtype
		ex = dict(axes=axes, normalize=a["norm"])
		if a["sper"]: ex["periodicity"] = tuple(a["per"])
		def arr(sh):
			x = np.array(a["x"], float)
			if a["cplx"]: x = x+1j*np.array(a["y"], float)
			return x.reshape(sh).astype(dt)
		op = a["op"]; fwd = {"forward":True} if a["neg"] else {}
		nuo = tuple(a["pre"]+a["post"])
		o = None; nrm = np.prod([a["dims"][i] for i in a["ax"]]) if a["norm"] else 1
		if op in ("u2nu","inufft"):
			x = arr(a["dims"]); x0 = x.copy()
			if a["given"]: o = np.full(nuo, 7, ct)
			r = fft.u2nu(x, pos, out=o, **ex, **fwd) if op == "u2nu" else fft.inufft(x, pos, out=o, flip=a["neg"], **ex)
			r = r*nrm
		elif op == "plan":
			x = arr(a["dims"]).astype(ct); x0 = x.copy()
			r = fft.u2nu_plan(x, **ex, **fwd).eval(pos.astype(np.zeros(1,ct).real.dtype))*nrm
		elif op == "interpol":
			x = arr(a["dims"]).real.copy(); x0 = x.copy(); del ex["normalize"]
			r = fft.interpol_nufft(x, pos, normalize=a["norm"], **ex)
			r = r*(np.prod([a["dims"][i] for i in a["ax"]]) if a["norm"] else 1)
		elif op in ("nu2u","nufft_adjoint"):
			x = arr(nuo); x0 = x.copy()
			if a["given"]: o = np.full(a["dims"], 7, ct); ex["out"] = o
			else: ex["oshape"] = tuple(a["dims"])
			r = fft.nu2u(x, pos, **ex, **fwd) if op == "nu2u" else fft.nufft_adjoint(x, pos, flip=not a["neg"], **ex)
			r = r*nrm
		else:
			x = arr(a["dims"]); x0 = x.copy()
			nu = fft.u2nu(x, pos, axes=axes, normalize=a["norm"], **fwd)
			nu = np.real(nu)+1j*np.imag(nu)
			r  = fft.iu2nu(nu, pos, oshape=tuple(a["dims"]), **ex, **fwd) if op == "iu2nu" else fft.nufft(nu, pos, oshape=tuple(a["dims"]), flip=a["neg"], **ex)
		re, im = ri(r, a["scale"])
		return dict(shape=list(np.shape(r)), re=re, im=im, same=bool(np.array_equal(x,x0) and np.array_equal(pos,pos0)))
	if k == "freq":
		n = a["n"]; i = np.arange(n)
		f = fft.fftfreq(n, 0.25)
		return dict(f=qf(f*n, 250), rf=qf(fft.rfftfreq(n, 0.25)*n, 250), i2f=qf(fft.ind2freq(n, i, 0.25)*n, 250), f2i=qf(fft.freq2ind(n, f, 0.25), 1000), rf2i=qf(fft.rfreq2ind(n, fft.rfftfreq(n,0.25), 0.25), 1000))
	if k == "lmap":
		shape, wcs = geo(a["ny"], a["nx"], a["geo"])
		step = enmap.extent(shape, wcs, signed=True)/np.array(shape)
		o = a["os"]
		l = enmap.lmap(shape, wcs, oversample=o); ml = enmap.modlmap(shape, wcs, oversample=o)
		ly, lx = enmap.laxes(shape, wcs, oversample=o)
		m = enmap.zeros(shape, wcs)
		same = np.array_equal(l[0], np.broadcast_to(ly[:,None], l[0].shape)) and np.array_equal(l[1], np.broadcast_to(lx[None], l[1].shape)) and np.allclose(ml**2, l[0]**2+l[1]**2) and np.array_equal(m.lmap(oversample=o), l) and np.array_equal(m.modlmap(oversample=o), ml)
		lb, lc = enmap.laxes(shape, wcs, oversample=o, broadcastable=True)
		same = same and np.array_equal(lb+0*lc, l[0]) and np.array_equal(lc+0*lb, l[1])
		lp = enmap.lpixshape(shape, wcs, signed=True)
		return dict(ly=qf(ly*step[0]*a["ny"]/(2*np.pi), 6000), lx=qf(lx*step[1]*a["nx"]/(2*np.pi), 6000), same=bool(same), lp=qf(lp*step*np.array(shape)/(2*np.pi), 1000))
	if k == "harm":
		cd = 0.01
		w = wcsutils.WCS(naxis=2); w.wcs.cdelt = [cd if a["flip"] else -cd, cd]; w.wcs.crval = [0,0]; w.wcs.crpix = [a["nx"]/2+0.5, a["ny"]/2+0.5]; w.wcs.ctype = ["RA---CAR","DEC--CAR"]; w.wcs.set()
		x = np.array(a["x"], a["dt"]).reshape(a["nc"], a["ny"], a["nx"])
		if a["deep"]: x = x[None]
		m = enmap.ndmap(x, w); m0 = m.copy()
		h = enmap.map2harm(m, iau=a["iau"], spin=a["spin"]); h0 = h.copy()
		b = enmap.harm2map(h, iau=a["iau"], spin=a["spin"])
		re, im = ri(np.asarray(h)*(a["ny"]*a["nx"])**0.5)
		return dict(re=re, im=im, back=qf(b,1000), same=bool(np.array_equal(m,m0) and np.array_equal(h,h0) and wcsutils.equal(h.wcs,w) and wcsutils.equal(b.wcs,w)), shape=list(h.shape[-3:]))
	if k == "adjoint":
		shape, wcs = geo(a["ny"], a["nx"], a["geo"]); rng = np.random.default_rng(a["seed"])
		nc = sum(1 if s == 0 else 2 for s in a["spin"])
		def rnd(c): 
			v = rng.integers(-9,10,(nc,)+shape).astype(float)
			return enmap.ndmap(v+1j*rng.integers(-9,10,(nc,)+shape) if c else v, wcs)
		nn = NORM[a["norm"]]
		def dot(u, v): return float(np.sum(np.asarray(u).real*np.asarray(v).real+np.asarray(u).imag*np.asarray(v).imag))
		sp = dict(spin=a["spin"])
		if a["op"] == "fft":   x, y = rnd(True), rnd(True); l, r = dot(enmap.fft(x, normalize=nn), y), dot(x, enmap.fft_adjoint(y, normalize=nn))
		elif a["op"] == "ifft": x, y = rnd(True), rnd(True); l, r = dot(enmap.ifft(x, normalize=nn), y), dot(x, enmap.ifft_adjoint(y, normalize=nn))
		elif a["op"] == "map2harm": x, y = rnd(False), rnd(True); l, r = dot(enmap.map2harm(x, normalize=nn, **sp), y), dot(x, enmap.map2harm_adjoint(y, normalize=nn, **sp))
		else: x, y = rnd(True), rnd(False); l, r = dot(enmap.harm2map(x, normalize=nn, **sp), y), dot(x, enmap.harm2map_adjoint(y, normalize=nn, **sp))
		sc = 1000 if nn != "phys" else 10
		return dict(l=q(l,sc), r=q(r,sc))
