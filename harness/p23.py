"""Wavelet transforms, Fourier resampling and the unified harmonic interface."""
import warnings, random, numpy as np
warnings.simplefilter("ignore")
from lib import *
from pixell import enmap, utils, wcsutils, uharm, wavelets, curvedsky, multimap
TRACE = "TraceP23"
MC = [dict(module="WaveletsMC", cfg="WaveletsMC.cfg", min_states=9000)]
GEN = []
ASSUMPTIONS = ["curved-sky reconstruction is checked on full skies sampled well enough for the band limit (upstream documents percent-level losses on small patches)",
 "Butterworth wavelets without trimming are lossy by their tolerance", "AdriSD needs a package that is not installed"]
GRIDS = [(4,5),(5,4),(6,7),(9,10),(5,9),(8,9),(3,7),(10,12),(5,7),(12,15),(4,9),(6,10),(7,9),(8,10),(5,6),(7,8),(7,10),(3,4),(9,8),(10,9),(7,6),(6,6),(5,5),(7,7),(9,7),(1,4),(4,1),(1,1),(2,3),(5,1),(2,2),(1,6)]
def cases(tier, seed, gen):
	rng = random.Random(seed*77+5); n = 60 if tier == "quick" else 360
	for it in range(n):
		ny, nx = rng.randint(1,9), rng.randint(1,9)
		yield dict(k="haar", a=dict(ny=ny, nx=nx, pre=rng.choice([0,0,2]), nlevel=rng.randint(0,3), ref=[rng.randint(-5,12),rng.randint(-5,12)], useref=rng.random()<.7, flip=[rng.choice([1,-1]),rng.choice([1,-1])], dt=rng.choice(["f8","f8","f4"]),
			m=[[64*rng.randint(-9,9) for _ in range(ny*nx)] for _ in range(2)]))
	for it in range(n):
		(ny,nx),(my,mx) = rng.choice(GRIDS), rng.choice(GRIDS)
		if rng.random() < .2: my, mx = ny, nx
		hy, hx = (min(ny,my)-1)//2, (min(nx,mx)-1)//2
		if hy < 0 or hx < 0: continue
		yield dict(k="resample", a=dict(ny=ny, nx=nx, my=my, mx=mx, modes=[[rng.choice([rng.randint(-hy,hy),hy,-hy]),rng.choice([rng.randint(-hx,hx),hx,-hx]),rng.randint(-3,3),rng.randint(-3,3)] for _ in range(rng.randint(1,3))], corner=(cor := rng.random()<.7),
			how=rng.choice(["resample","resample","pix","plain","phys" if cor else "pix","add","over"]), pre=rng.choice([0,0,2]), dt=rng.choice(["f8","f8","f4"])))
	for it in range(n):
		kind = rng.choice(["trim","trim","butter","digital"]); step = rng.choice([2,2,3]); lmin = rng.choice([1,2,3,5,10]); lmax = rng.choice([lmin,lmin+1,8,12,20,33,50,64])
		yield dict(k="basis", a=dict(kind=kind, step=step, lmin=lmin, lmax=max(lmax,lmin), shape=rng.choice([7,7,4,10]), tol=rng.choice([1,2,10]), bounds=rng.random()<.5))
	for it in range(n//2):
		p = [rng.choice([0,0,2,5])]
		for j in range(rng.randint(1,4)): p.append(p[-1]+rng.choice([1,2,3,4,5,6,7,8,9,10,12,14,15,18,20]))
		yield dict(k="needle", a=dict(peaks=p, flat=rng.random()<.3))
	for it in range(n):
		yield dict(k="wave", a=dict(mode="flat", ny=rng.randint(12,48), nx=rng.randint(12,48), res=rng.choice([30,60,6]), cen=rng.choice([0,0,20]), flip=[rng.choice([1,-1]),rng.choice([1,-1])], basis=rng.choice(["trim","trim","digital","needle","trim3","butter"]), pre=rng.choice([[],[],[2],[2,3],[1]]), dt=rng.choice(["f8","f8","f4"]),
			given=rng.random()<.3, scales=rng.choice([0,0,1,2]), ores=rng.choice([0,0,0,1]), seed=rng.randint(0,10**6), grid="", lm=0))
	for it in range(n//3):
		yield dict(k="wave", a=dict(mode="curved", ny=0, nx=0, res=rng.choice([10,12,15]), cen=0, flip=[rng.choice([1,-1]),rng.choice([1,-1])], basis=rng.choice(["trim","trim","digital","needle","trim3","butter"]), pre=rng.choice([[],[],[3],[2,3],[1]]), dt=rng.choice(["f8","f8","f4"]),
			given=rng.random()<.3, scales=rng.choice([0,0,1,2]), ores=rng.choice([0,0,0,1]), seed=rng.randint(0,10**6), grid=rng.choice(["fejer1","cc"]), lm=rng.choice([0,1])))
	for it in range(n):
		yield dict(k="uht", a=dict(mode=rng.choice(["flat","curved"]), ny=rng.randint(3,12), nx=rng.randint(3,12), res=rng.choice([1,5,10]), cen=rng.choice([0,30]), flip=[rng.choice([1,-1]),rng.choice([1,-1])], spin=rng.choice([[0],[0],[0,2],[2],[0,1]]), pre=rng.choice([0,0,2]),
			seed=rng.randint(0,10**6), niter=rng.choice([0,0,2]), full=rng.random()<.5, nl=rng.choice([3,10,40,200])))
def geo(a, ny, nx, res):
	w = wcsutils.WCS(naxis=2); w.wcs.ctype = ["RA---CAR","DEC--CAR"]; w.wcs.cdelt = [-a["flip"][1]*res,a["flip"][0]*res]; w.wcs.crval = [a.get("cen",0)*2,0]; w.wcs.crpix = [(nx+1)/2,(ny+1)/2-a["flip"][0]*a.get("cen",0)/res]; w.wcs.set()
	return (ny,nx), w
def nrel(x, ref): 
	v = float(np.max(np.abs(x),initial=0))/max(float(np.max(np.abs(ref),initial=0)),1e-30)
	return q(min(v,2.0) if np.isfinite(v) else 2.0,1e9)
def corners(g): ny, nx = g[0][-2:]; return g[1].deepcopy().wcs_pix2world([[1,1],[nx,1],[1,ny],[nx,ny]],1)
def same_geo(g1, g2): return tuple(g1[0][-2:]) == tuple(g2[0][-2:]) and bool(np.max(np.abs(corners(g1)-corners(g2)))<1e-8)
def mkbasis(name, lmin=None, lmax=None):
	if name == "trim": return wavelets.ButterTrim(lmin=lmin, lmax=lmax)
	if name == "trim3": return wavelets.ButterTrim(step=3, shape=5, trim=5e-2, lmin=lmin, lmax=lmax)
	if name == "digital": return wavelets.DigitalButterTrim(lmin=lmin, lmax=lmax)
	if name == "butter": return wavelets.Butterworth(lmin=lmin, lmax=lmax)
def run(k, a):
	if k == "haar":
		ny, nx, npre = a["ny"], a["nx"], max(a["pre"],1); shape, wcs = geo(a, ny, nx, 1)
		m = enmap.enmap(np.array(a["m"][:npre],float).reshape((npre,ny,nx))/64, wcs).astype(a["dt"]); m = m if a["pre"] else m[0]
		ref = enmap.pix2sky(shape, wcs, np.array(a["ref"],float), safe=False) if a["useref"] else None
		ht = wavelets.HaarTransform(a["nlevel"], ref=ref); kp = np.array(m); w = ht.map2wave(m); kw = np.array(w); r = ht.wave2map(w); lev = []
		for wm in w.maps:
			c = enmap.sky2pix(shape, wcs, enmap.pix2sky(wm.shape, wm.wcs, np.array([[0.,wm.shape[-2]-1],[0.,wm.shape[-1]-1]]), safe=False), safe=False)
			lev.append(dict(ny=wm.shape[-2], nx=wm.shape[-1], m=[[q(v,64) for v in x] for x in np.asarray(wm,float).reshape(npre,-1)], c=[[q(c[0,j],16),q(c[1,j],16)] for j in range(2)]))
		return dict(lev=lev, dev=nrel(r-m,m), geo=bool(same_geo(r.geometry,m.geometry)) and r.shape == m.shape, same=bool(np.all(m == kp) and np.all(w == kw)), dt=bool(r.dtype == m.dtype))
	if k == "resample":
		ny, nx, my, mx = a["ny"], a["nx"], a["my"], a["mx"]; shape, wcs = geo(dict(flip=[1,1]), ny, nx, 1); y, x = np.mgrid[:ny,:nx]; h = .5*a["corner"]; f = np.zeros((ny,nx))
		for fy, fx, c, s in a["modes"]: ph = 2*np.pi*(fy*(y+h)/ny+fx*(x+h)/nx); f += c*np.cos(ph)+s*np.sin(ph)
		m = enmap.enmap(f, wcs, dtype=a["dt"]); m = m if not a["pre"] else enmap.samewcs(np.array([m,2*m],a["dt"]),m); kp = np.array(m); how = a["how"]; osh = (my,mx)
		if how == "resample": r = m.resample(osh, corner=a["corner"])
		else:
			norm = {"pix":True,"plain":False,"phys":"phys","add":False,"over":False}[how]; F = enmap.fft(m, normalize=norm); kF = np.array(F)
			if how in ("pix","phys","plain"): R = enmap.resample_fft(F, osh, norm=how, corner=a["corner"])
			else:
				old = enmap.enmap(np.random.default_rng(1).normal(size=m.shape[:-2]+osh), wcsutils.scale(wcs, np.array(osh)/[ny,nx], rowmajor=True, corner=a["corner"])); Fo = enmap.fft(old, normalize=False)
				if how == "add": R = enmap.resample_fft(F, osh, fomap=Fo, norm="plain", corner=a["corner"], op=np.add)
				else:
					old[:] = 0; Fo *= 0; R = enmap.resample_fft(F, osh, fomap=Fo, norm="plain", corner=a["corner"])
			r = enmap.ifft(R, normalize=norm).real/(my*mx if norm is False else 1)
			if how == "add": r = r-old
		g = r.geometry; want = wcsutils.scale(wcs, np.array(osh)/[ny,nx], rowmajor=True, corner=a["corner"])
		# the same area of sky, or the same first pixel
		e1 = enmap.pix2sky(shape, wcs, [[-.5,ny-.5],[-.5,nx-.5]] if a["corner"] else [[0,ny-0.],[0,nx-0.]], safe=False); e2 = enmap.pix2sky(osh, g[1], [[-.5,my-.5],[-.5,mx-.5]] if a["corner"] else [[0,my-0.],[0,mx-0.]], safe=False)
		v = np.asarray(r,float).reshape(-1,my*mx); 
		return dict(m=[q(t,1e4) for t in v[0]], two=not a["pre"] or nrel(v[1]-2*v[0],v[1]+1e-3) < 1000000, geo=nrel(e1-e2,e1) < 1000 and r.shape == m.shape[:-2]+osh, same=bool(np.all(m == kp)), tol=5 if a["dt"] == "f8" else 20)
	if k == "basis":
		C = {"trim":wavelets.ButterTrim,"butter":wavelets.Butterworth,"digital":wavelets.DigitalButterTrim}[a["kind"]]; kw = dict(step=a["step"], shape=a["shape"])
		kw["tol" if a["kind"] == "butter" else "trim"] = a["tol"]*1e-3
		b = C(lmin=a["lmin"], lmax=a["lmax"], **kw) if not a["bounds"] else C(**kw).with_bounds(a["lmin"], a["lmax"]); l = np.arange(a["lmax"]+1.)
		w = np.array([b(j, l) for j in range(b.n)]); return dict(n=b.n, lmaxs=[int(v) for v in b.lmaxs], w2=[[q(v,1e6) for v in x**2] for x in w])
	if k == "needle":
		b = wavelets.CosineNeedlet(np.array(a["peaks"])); L = a["peaks"][-1]; l = np.arange(L+1.)
		if a["flat"]: l = np.array([l,l[::-1]])
		w = np.array([b(j, l) for j in range(b.n)]); ok = True
		if a["flat"]: ok = bool(np.all(w[:,0] == w[:,1,::-1])); w = w[:,0]
		return dict(n=b.n, w=[[q(v,1e5) for v in x] for x in w], lmaxs=[int(v) for v in b.lmaxs], ok=ok)
	rng = np.random.default_rng(a["seed"])
	if k == "wave":
		pre = tuple(a["pre"]); dt = a["dt"]; loose = a["basis"] == "butter"; spin = [0,2]
		if a["mode"] == "flat":
			shape, wcs = geo(a, a["ny"], a["nx"], a["res"]/60); uht = uharm.UHT(shape, wcs, mode="flat"); L = np.max(uht.l); b = mkbasis(a["basis"]) if a["basis"] != "needle" else wavelets.CosineNeedlet(np.array([0,L/20,L/6,L/2.5,L*1.01]))
			m = enmap.enmap(rng.normal(size=pre+shape), wcs, dtype=dt)
		else:
			shape, wcs = enmap.fullsky_geometry(a["res"]*utils.degree, variant=a["grid"]); shape = tuple(int(v) for v in shape); lmax = 180//a["res"]-2
			uht = uharm.UHT(shape, wcs, mode="curved", lmax=lmax); b = (mkbasis(a["basis"], *((2,lmax-1) if a["lm"] else (None,None)))) if a["basis"] != "needle" else wavelets.CosineNeedlet(np.array([0,2,5,lmax-1]))
		wt = wavelets.WaveletTransform(uht, basis=b, ores=None if not a["ores"] else np.max(enmap.pixshapebounds(shape,wcs))); n = wt.nlevel
		if a["mode"] == "curved":
			ai = curvedsky.alm_info(wt.basis.lmax); alm = rng.normal(size=pre+(ai.nelem,))+1j*rng.normal(size=pre+(ai.nelem,)); alm[...,:ai.lmax+1] = alm[...,:ai.lmax+1].real
			for s, i1, i2 in enmap.spin_helper(spin, pre[-1]) if pre else []:
				if s:
					for l in range(s):
						for mm in range(l+1): alm[...,i1:i2,ai.lm2ind(l,mm)] = 0
			m = curvedsky.alm2map(alm, enmap.zeros(pre+shape, wcs, dtype=dt))
		kp = np.array(m); ident = True
		if a["given"]:
			ow = multimap.zeros([(pre+tuple(g[0][-2:]),g[1]) for g in wt.geometries], m.dtype); ow[:] = 3; w = wt.map2wave(m, owave=ow); ident = w is ow
		else: w = wt.map2wave(m)
		kw = np.array(w); om = enmap.full(m.shape, m.wcs, 5, dtype=dt) if a["given"] else None; r = wt.wave2map(w, omap=om); ident = ident and (om is None or r is om)
		same = bool(np.all(m == kp) and np.all(kw == w)); e = nrel(r-m, m); sub = True
		if a["scales"]:
			sc = [0] if a["scales"] == 1 else [n-1]; fv = None if a["scales"] == 1 else 4.0; w2 = wt.map2wave(m, scales=sc, fill_value=fv)
			for j in range(n): sub = sub and bool(np.all(w2.maps[j] == w.maps[j]) if j in sc else np.all(w2.maps[j] == (fv or 0)))
		# one scale is the filtered field
		j = rng.integers(n); wm = w.maps[j]
		if a["mode"] == "flat":
			F = enmap.fft(m, normalize=False); y, x = [np.arange(s) for s in wm.shape[-2:]]; ky, kx = [np.fft.fftfreq(s)*s for s in shape]; lm = enmap.modlmap(shape, wcs); G = np.asarray(F)*wt.basis(j, np.asarray(lm))/(np.sum(wt.basis(j,np.asarray(lm))**2/enmap.area(shape,wcs))**.5 or 1)/(shape[0]*shape[1])
			Ey = np.exp(2j*np.pi*ky*((y[:,None]+.5)/len(y)-.5/shape[0])); Ex = np.exp(2j*np.pi*kx*((x[:,None]+.5)/len(x)-.5/shape[1])); want = np.einsum("yk,...kl,xl->...yx",Ey,G,Ex).real
			ed = [enmap.pix2sky(g[0],g[1],[[-.5,g[0][-2]-.5],[-.5,g[0][-1]-.5]],safe=False) for g in ((shape,wcs),wm.geometry)]; cov = nrel(ed[0]-ed[1],ed[0])
		else:
			lw = np.arange(uht.lmax+1); f = wt.basis(j, lw*1.0); norm = np.sum(f**2*(2*lw+1)/(4*np.pi))**.5 or 1; pos = wm.posmap(); al = curvedsky.almxfl(alm, f[:ai.lmax+1]/norm)
			want = curvedsky.alm2map_pos(al, np.array(pos).reshape(2,-1), ainfo=ai, epsilon=1e-10).reshape(wm.shape); cov = 0 if wm.shape[-1]*abs(wm.wcs.wcs.cdelt[0]) > 359.9 and wm.shape[-2]*abs(wm.wcs.wcs.cdelt[1]) > 179.9 else 10**9
		fe = nrel(wm-want, want); geo_ok = same_geo(r.geometry, m.geometry) and same_geo(wt.geometry, m.geometry)
		mid = bool(np.all(np.diff([l for l, f in zip(wt.lmids, wt.filters) if np.any(f != 0)]) > 0)) and len(wt.lmids) == n
		f4 = dt == "f4"; return dict(dev=e, tol=50000000 if loose else 10000 if f4 else 2000, filt=fe, ftol=150000000 if loose else 20000 if f4 else 2000, cov=cov, geo=bool(geo_ok), same=same, ident=bool(ident), sub=sub, mid=mid, dt=bool(r.dtype == m.dtype and w.dtype == m.dtype))
	# the unified interface
	spin = a["spin"]; nc = sum(1 if s == 0 else 2 for s in spin); pre = ((a["pre"],) if a["pre"] else ()); flat = nc == 1 and not pre; mp = pre+(() if flat else (nc,)); D = {}
	if a["mode"] == "flat": shape, wcs = geo(a, a["ny"], a["nx"], a["res"]/60); uht = uharm.UHT(shape, wcs, mode="flat")
	else:
		shape, wcs = enmap.fullsky_geometry(15*utils.degree); shape = tuple(int(v) for v in shape)
		if not a["full"]:
			t = enmap.zeros(shape,wcs)[2:9,3:17]; shape, wcs = t.geometry
		uht = uharm.UHT(shape, wcs, mode="curved", lmax=7, niter=a["niter"])
	m = enmap.enmap(rng.normal(size=mp+tuple(shape)), wcs); kp = np.array(m); H = uht.map2harm(m, spin=spin)
	if a["mode"] == "flat":
		D["map2harm"] = nrel(H-enmap.map2harm(m, spin=spin, normalize="phys"), H); h = H; D["inv"] = nrel(uht.harm2map(H, spin=spin)-m, m)
		dot = lambda x, y: np.sum((x*np.conj(y)).real)
	else:
		ai = uht.ainfo; D["map2harm"] = nrel(H-curvedsky.map2alm(m, lmax=7, spin=spin, niter=a["niter"]), H); h = rng.normal(size=mp+(ai.nelem,))+1j*rng.normal(size=mp+(ai.nelem,)); h[...,:8] = h[...,:8].real
		if a["full"]:
			hh = h.copy()
			for s, i1, i2 in enmap.spin_helper(spin, nc):
				for l in range(s):
					for mm in range(l+1): hh[...,i1:i2,ai.lm2ind(l,mm)] = 0
			D["inv"] = nrel(uht.map2harm(uht.harm2map(hh, spin=spin), spin=spin)-hh, hh)
			D["quad"] = nrel(uht.harm2map_adjoint(m*uht.quad_weights(), spin=spin)-curvedsky.map2alm(m, lmax=7, spin=spin, method="cyl"), H)
		dot = lambda x, y: 2*np.sum((x*np.conj(y)).real)-np.sum((x[...,:8]*np.conj(y[...,:8])).real)
	S = uht.harm2map(h, spin=spin); A = uht.harm2map_adjoint(m, spin=spin); sc = np.sum(m**2)**.5*np.sum(S**2)**.5+1e-30; D["adj"] = nrel(np.sum(np.asarray(S)*np.asarray(m))-dot(h,A), sc)
	B = uht.map2harm_adjoint(h, spin=spin); sc = np.sum(m**2)**.5*np.sum(np.abs(B)**2)**.5+1e-30; D["adj2"] = nrel(np.sum(np.real(np.asarray(B))*np.asarray(m))-dot(h,H), sc)
	# profiles
	nl = a["nl"]; lp = rng.uniform(.5,1,(nl,)); hp = uht.lprof2hprof(lp); l = np.asarray(uht.l,float); want = np.interp(l, np.arange(nl), lp); ok = l <= nl-1; D["lprof"] = nrel((hp-want)[ok], lp); D["lzero"] = nrel(np.asarray(hp)[l >= nl], lp)
	lp2 = rng.uniform(.5,1,(2,3,nl)); hp2 = uht.lprof2hprof(lp2); D["lprof2"] = nrel(np.asarray(hp2)[1,2]-np.asarray(uht.lprof2hprof(lp2[1,2])), lp2)
	ex = lambda p: np.asarray(p) if a["mode"] == "flat" else np.asarray(p)[..., lind]
	if a["mode"] == "curved":
		lind = np.zeros(ai.nelem,int)
		for l_ in range(8):
			for mm in range(l_+1): lind[ai.lm2ind(l_,mm)] = l_
	D["hmul"] = nrel(uht.hmul(hp, h)-ex(hp)*np.asarray(h), h)
	full = np.array([[rng.uniform(.5,1)*np.asarray(hp) for _ in range(nc)] for _ in range(nc)])
	if a["mode"] == "flat": full = enmap.enmap(full, wcs)
	if not flat and (a["mode"] == "flat" or not pre):
		D["hmul2"] = nrel(np.asarray(uht.hmul(full, h))-np.einsum("abx,...bx->...ax" if a["mode"] == "curved" else "abyx,...byx->...ayx", ex(full), np.asarray(h)), h)
	if not flat: D["hmul1"] = nrel(np.asarray(uht.hmul(full[0], h))-ex(full[0])*np.asarray(h), h)
	kh = np.array(h); h2 = h.copy(); r2 = uht.hmul(hp, h2, inplace=True); D["inplace"] = nrel(np.asarray(h2)-ex(hp)*np.asarray(h), h)
	D["hprof2harm"] = nrel(np.asarray(uht.hprof2harm(hp))-ex(hp), hp)
	D["sum"] = nrel(uht.sum_hprof(hp)-np.sum(np.asarray(hp)*uht.nper), [np.sum(np.asarray(hp)*uht.nper)]); D["mean"] = nrel(uht.mean_hprof(np.ones(np.shape(hp)))-1, 1)
	one = H[(0,)*len(mp)]
	if a["mode"] == "flat" or a["full"]:
		tot = 4*np.pi*np.mean(np.asarray(m[(0,)*len(mp)])**2) if a["mode"] == "flat" and spin[0] == 0 else dot(one,one)/(uht.fsky if a["mode"] == "flat" else 1); D["parseval"] = nrel(uht.sum_hprof(uht.harm2powspec(one))-tot, [tot])
		if a["mode"] == "curved":
			u2 = uharm.UHT((shape[-2]//2,shape[-1]), wcs, mode="curved", lmax=7); f2 = enmap.area((shape[-2]//2,shape[-1]), wcs)/(4*np.pi)
			D["patch"] = max(nrel(u.harm2powspec(one, patch=True)*f-uht.harm2powspec(one), uht.harm2powspec(one)) for u, f in ((uht,uht.fsky),(u2,f2)))
	other = H[(-1,)*len(mp)]; D["cross"] = nrel(uht.harm2powspec(one, other)-uht.harm2powspec(other, one), np.abs(uht.harm2powspec(one))+1e-9)
	r = np.linspace(0,np.pi,500) if a["mode"] == "curved" else np.linspace(0,20*a["res"]/60*utils.degree,200); sg = .5 if a["mode"] == "curved" else a["res"]/60*utils.degree*1.5; br = np.exp(-.5*(r/sg)**2); hb = uht.rprof2hprof(np.array([br,2*br]), r); D["rlin"] = nrel(hb[1]-2*hb[0], hb[0])
	if a["mode"] == "flat":
		cp = np.array(shape)//2-1; rm = enmap.modrmap(shape, wcs, enmap.pix2sky(shape,wcs,cp)); D["rint"] = nrel(hb[0,0,0]-np.sum(np.interp(np.asarray(rm),r,br,right=0))*enmap.area(shape,wcs)/uht.npix, hb[0,0,0])//10
	else: D["rint"] = nrel(hb[0,0]-2*np.pi*np.trapezoid(br*np.sin(r),r), hb[0,0])//1000; D["back"] = nrel(uht.hprof2rprof(hb[0],r[:50])-br[:50], br)//100000
	names = sorted(D); return dict(names=names, dev=[D[x] for x in names], tol=20000, same=bool(np.all(m == kp) and np.all(h == kh)), area=nrel(uht.fsky-uht.area/(4*np.pi),uht.fsky))
