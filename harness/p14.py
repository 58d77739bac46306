"""P14 spherical harmonic transforms"""
import random, numpy as np
from pixell import enmap, curvedsky, utils, wcsutils
from lib import q
TRACE = "TraceP14"
MC  = [dict(module="HarmonicsMC", cfg="HarmonicsMC.cfg", min_states=2500)]
GEN = []
ASSUMPTIONS = ["the harmonics themselves are compared with the specification for l up to 3; larger band limits are only compared between methods", "map2alm with pixel-area weights is approximate; it is compared after iteration", "maps do not exceed the full circle"]
D = utils.degree; U = 10000
def carwcs(a):
	w = wcsutils.WCS(naxis=2); w.wcs.ctype = ["RA---CAR","DEC--CAR"]; w.wcs.cdelt = [a["dra"],a["ddec"]]
	k = a.get("xref",0); w.wcs.crval = [a["ra0"]+k*a["dra"],0]; w.wcs.crpix = [1+k,1-a["dec0"]/a["ddec"]]; w.wcs.set(); return w
SPINS = [[0],[0],[0,2],[0,2],[1],[2],[0,1],[3],[2,0],[0,0],[0,1,2]]
def ncomp(spin): return sum(1 if s == 0 else 2 for s in spin)
def grid(rng, part=None):
	"""a map with pixels at whole degrees"""
	ddec = rng.choice([15,18,20,30,36,45,60,90]); dra = rng.choice([24,30,36,45,60,72,90,120,180]); full = 360//dra
	first = rng.choice(["pole","half","half","any"])
	dec0 = -90 if first == "pole" else -90+ddec//2 if first == "half" and ddec%2 == 0 else -90+rng.randint(0,ddec-1)
	nmax = (90-dec0)//ddec+1; ny = nmax
	nx = full
	if part is None: part = rng.choice(["no","no","y","x","xy"])
	if "y" in part: o = rng.randint(0,nmax-1); dec0 += o*ddec; ny = rng.randint(1,nmax-o)
	if "x" in part: nx = rng.randint(1,full)
	ra0 = rng.choice([0,0,180,-180,dra//2,7,-50,350]); g = dict(ny=ny,nx=nx,dec0=dec0,ddec=ddec,ra0=ra0,dra=dra,xref=rng.choice([0,0,nx//2,full//2]))
	if rng.random() < 0.5: g.update(dec0=dec0+(ny-1)*ddec, ddec=-ddec)
	if rng.random() < 0.5: g.update(ra0=ra0+(nx-1)*dra, dra=-dra)
	return g
def is2d(g):
	# whether the rows fit one of the equi-spaced grids: the poles are a whole or half number of pixels away
	return all((2*(p-g["dec0"]))%abs(g["ddec"]) == 0 for p in (-90,90))
def coefs(rng, pre, nc, lmax, mmax):
	return [[[[[rng.randint(-2,2) if m <= mmax else 0, rng.randint(-2,2) if 0 < m <= mmax else 0] for m in range(l+1)] for l in range(lmax+1)] for c in range(nc)] for p in range(pre)]
def cases(tier, seed, gen):
	rng = random.Random(seed); N = 1 if tier == "quick" else 6
	def base(small=False):
		spin = rng.choice(SPINS); deriv = rng.random() < 0.15
		if deriv: spin = [0]
		lmax = max(rng.choice([3,3,2,1,0 if not deriv else 1]),max(spin)); mmax = rng.choice([lmax,lmax,lmax,max(0,lmax-1)])
		pre = rng.choice([0,0,0,1,2]); nc = 1 if deriv else ncomp(spin)
		return dict(spin=spin, deriv=deriv, lmax=lmax, mmax=mmax, pre=pre, flat=pre == 0 and nc == 1 and rng.random() < 0.5, alm=coefs(rng, max(pre,1), nc, lmax, mmax), layout=rng.choice(["tri","tri","rect"]), dt=rng.choice(["f8","f8","f4",">f8"]), copy=rng.random() < 0.2)
	for _ in range(170*N):
		a = base(); g = grid(rng)
		while g["ny"]*g["nx"] > 90: g = grid(rng)
		if rng.random() < 0.1: g["dra"] = 50 if g["dra"] > 0 else -50; g["nx"] = min(g["nx"],7)
		m = ["auto","auto","general"]+(["cyl"] if abs(g["dra"]) != 50 else [])+(["2d"] if is2d(g) and abs(g["dra"]) != 50 else [])
		a.update(g); a["method"] = rng.choice(m); yield dict(k="syn", a=a)
	for _ in range(60*N):
		a = base(); n = rng.choice([[],[1],[3],[2,3],[2,1,2]])
		a.update(psh=n, pts=[[rng.choice([0,20,-35,90,-90,77,-1]),rng.choice([0,10,123,180,-90,-200,359,400,-500])] for _ in range(int(np.prod(n)))], how=rng.choice(["pos","loc"]), given=rng.random() < 0.3); yield dict(k="pos", a=a)
	for _ in range(90*N):
		kind = rng.choice(["car","car","cea","mer","cyp","tan","zea","ait","hp","hp","carlat"]); spin = rng.choice(SPINS); lmax = max(rng.choice([2,5,9]),max(spin))
		yield dict(k="agree", a=dict(kind=kind, spin=spin, deriv=rng.random() < 0.15, lmax=lmax, mmax=rng.choice([lmax,lmax,lmax//2]), seed=rng.randint(0,10**6), flip=[rng.choice([1,-1]),rng.choice([1,-1])], ny=rng.choice([1,2,5,9]), nx=rng.choice([1,3,8]), dt=rng.choice(["f8","f4"]), flat=rng.random() < 0.5, cen=rng.choice([0,40,-60]), lim=rng.choice([0,0,1,2]), bsize=rng.choice([1,2,3,4,1000]), nside=rng.choice([1,2,4])))
	for _ in range(110*N):
		op = rng.choice(["a2m","a2m","m2a","m2a","hpa2m","hpm2a","pos"]); spin = rng.choice(SPINS); lmax = max(rng.choice([2,4,7]),max(spin)); g = grid(rng)
		deriv = rng.random() < 0.25; m = ["auto","general","cyl"]+(["2d"] if is2d(g) else [])
		if op == "m2a" and deriv: m = ["general","cyl"]
		yield dict(k="adjoint", a=dict(op=op, g=g, method=rng.choice(m), spin=[0] if deriv else spin, deriv=deriv, lmax=lmax, mmax=rng.choice([lmax,lmax,lmax//2]), seed=rng.randint(0,10**6), pre=rng.choice([0,0,1,2]), niter=rng.choice([0,0,1,3]) if not deriv else 0, none=rng.random() < 0.3, proj=rng.choice(["car","car","cea","tan"]), lim=rng.choice([0,0,1]), nside=rng.choice([1,2,4]), flat=rng.random() < 0.4, psh=rng.choice([[4],[2,3]])))
	for _ in range(100*N):
		how = rng.choice(["full","full","part","part","weights","hp","proj"]); spin = rng.choice([s for s in SPINS if 3 not in s])
		yield dict(k="ana", a=dict(how=how, grid=rng.choice(["CC","F1","F2","DH","MW","MWflip"]), n=rng.choice([12,13,14]), nx=rng.choice([12,15,16]), flip=[rng.choice([1,-1]),rng.choice([1,-1])], ra0=rng.choice([0,10,-100]), method=rng.choice(["auto","auto","2d","cyl","general"]), spin=spin, lmax=rng.choice([2,3]), pre=rng.choice([0,0,2]), seed=rng.randint(0,10**6),
			sub=[rng.randint(0,4),rng.randint(5,12),rng.randint(0,4),rng.randint(5,12)], given=rng.choice(["no","no","alm","copy","ainfo"]), dt=rng.choice(["f8","f8","f4"]), proj=rng.choice(["cea","mer"]), niter=rng.choice([0,0,2]), flat=rng.random() < 0.4, lim=rng.choice([0,0,1])))
	for _ in range(25*N):
		yield dict(k="prof", a=dict(bl=[[rng.randint(-3,3) for _ in range(rng.choice([4,4,1]))]]*1, pre=rng.choice([0,1]), r=sorted(rng.sample(range(0,181),5)), dir=[rng.randint(-180,180),rng.randint(-90,90)], geo=rng.choice(["CC","F1"]), spin=0))
def ainfo(a): return curvedsky.alm_info(lmax=a["lmax"], mmax=a["mmax"], layout={"tri":"triangular","rect":"rect"}[a.get("layout","tri")])
def pack(a):
	ai = ainfo(a); t = a["alm"]; out = np.zeros((len(t),len(t[0]),ai.nelem),complex)
	for p in range(len(t)):
		for c in range(len(t[0])):
			for l in range(a["lmax"]+1):
				for m in range(min(l,a["mmax"])+1): out[p,c,ai.lm2ind(l,m)] = complex(*t[p][c][l][m])
	return out, ai
def rand_alm(rng, pre, ai):
	alm = rng.normal(size=pre+(ai.nelem,))+1j*rng.normal(size=pre+(ai.nelem,))
	alm[...,ai.lm2ind(np.arange(ai.lmax+1),0)] = alm[...,ai.lm2ind(np.arange(ai.lmax+1),0)].real
	return alm
def adot(ai, a, b):
	m0 = ai.lm2ind(np.arange(ai.lmax+1),0); return 2*np.sum((a*b.conj()).real)-np.sum((a[...,m0]*b[...,m0].conj()).real)
def nrel(x, ref): return q(min(float(np.max(np.abs(x),initial=0))/max(float(np.max(np.abs(ref),initial=0)),1e-30),2.0),1e9)
def zap(alm, ai, spin):
	"""clear the coefficients a spin field doesn't have"""
	alm = alm.copy(); off = 0
	for s in spin:
		n = 1 if s == 0 else 2
		for l in range(s):
			for m in range(min(l,ai.mmax)+1): alm[...,off:off+n,ai.lm2ind(l,m)] = 0
		off += n
	return alm
def mapvals(m, pre, nc, npix): return [[[q(v,U) for v in c] for c in p] for p in np.asarray(m,float).reshape(max(pre,1),nc,npix)]
def projgeo(a):
	f = a["flip"]; ny, nx = a["ny"], a["nx"]; w = wcsutils.WCS(naxis=2); k = a["kind"] if "kind" in a else a["proj"]
	if k in ("car","cea","mer","cyp","carlat"):
		w.wcs.ctype = ["RA---"+k.upper()[:3],"DEC--"+k.upper()[:3]]
		nfull = 24; w.wcs.cdelt = [f[1]*360/nfull,f[0]*(8 if k != "mer" else 6)]; w.wcs.crval = [33,0 if k != "carlat" else 20]; w.wcs.crpix = [2.5,ny/2+.3]
	else:
		w.wcs.ctype = ["RA---"+k.upper(),"DEC--"+k.upper()]; w.wcs.cdelt = [f[1]*(6 if k == "tan" else 25),f[0]*(6 if k == "tan" else 25)]; w.wcs.crval = [33,a["cen"] if k != "ait" else 0]; w.wcs.crpix = [nx/2,ny/2]
	w.wcs.set(); return (ny,nx), w
def reference(alm, ai, pos, spin, deriv): return curvedsky.alm2map_pos(alm, pos, ainfo=ai, spin=spin, deriv=deriv, epsilon=1e-11)
def fullgrid(a):
	k, n, f = a["grid"], a["n"], a["flip"]; nx = a["nx"]
	dd = {"CC":180/(n-1),"F1":180/n,"F2":180/(n+1),"DH":180/n,"MW":180/(n-.5),"MWflip":180/(n-.5)}[k]; o = {"CC":0,"F1":.5,"F2":1,"DH":0,"MW":.5,"MWflip":0}[k]
	th = o*dd # first ring from the north
	g = dict(ny=n, nx=nx, dec0=90-th, ddec=-dd, ra0=a["ra0"], dra=360/nx)
	if f[0] < 0: g.update(dec0=90-th-(n-1)*dd, ddec=dd)
	if f[1] < 0: g.update(ra0=a["ra0"]+(nx-1)*360/nx, dra=-360/nx)
	return (n,nx), carwcs(g)
def run(k, a):
	if k in ("syn","pos"):
		alm, ai = pack(a); nc = alm.shape[1]; mc = 2 if a["deriv"] else nc; pre, flat = a["pre"], a["flat"]; dt = a["dt"]
		cdt = np.result_type(np.dtype(dt).newbyteorder("=") if dt[0] == ">" else dt, "c8"); alm = alm.astype(cdt)
		if not pre: alm = alm[0]
		if flat or a["deriv"]: alm = alm[...,0,:]
		mpre = ((pre,) if pre else ())+((mc,) if not flat or a["deriv"] else ()); keep = alm.copy()
		kw = dict(spin=a["spin"], deriv=a["deriv"], ainfo=ai)
		if k == "syn":
			m = enmap.full(mpre+(a["ny"],a["nx"]), carwcs(a), -7, dtype=dt); r = curvedsky.alm2map(alm, m, method=a["method"], copy=a["copy"], **kw)
			ident = bool(np.all(m == -7)) and r is not m if a["copy"] else r is m
			return dict(sh=list(r.shape), want=list(mpre)+[a["ny"],a["nx"]], same=bool(np.all(alm == keep)), ident=bool(ident), m=mapvals(r, pre, mc, a["ny"]*a["nx"]))
		psh = tuple(a["psh"]); pos = np.array(a["pts"],float).reshape(-1,2).T.reshape((2,)+psh)*D; kp = pos.copy()
		if a["how"] == "loc": args = dict(loc=np.moveaxis(np.array([np.pi/2-pos[0],pos[1]%(2*np.pi)]),0,-1))
		else: args = dict(pos=pos)
		if a["given"]: args["map"] = np.zeros(mpre+psh, utils.real_dtype(cdt))
		if "loc" in args: args["loc"] = np.ascontiguousarray(args["loc"])
		r = curvedsky.alm2map_pos(alm, **args, **kw)
		return dict(sh=list(np.shape(r)), want=list(mpre)+list(psh), same=bool(np.all(alm == keep) and np.all(pos == kp)) and (not a["given"] or bool(np.all(args["map"] == r))), m=mapvals(r, pre, mc, len(a["pts"])))
	if k == "prof":
		bl = np.array(a["bl"],float); b = bl if a["pre"] else bl[0]; r = np.array(a["r"])*D
		p = curvedsky.harm2profile(b, r)
		# the other way around, from a fine sampling
		rr = np.linspace(0,np.pi,2001); b2 = curvedsky.profile2harm(curvedsky.harm2profile(b, rr), rr, lmax=bl.shape[-1]-1)
		# as a field around some direction
		n = 9 if a["geo"] == "CC" else 8; th = np.linspace(0,np.pi,n) if a["geo"] == "CC" else (np.arange(n)+.5)*np.pi/n
		alm = curvedsky.prof2alm(curvedsky.harm2profile(b, th), dir=[a["dir"][0]*D,a["dir"][1]*D], geometry=a["geo"])
		pos = np.array([[.3,-.9,1.2,0],[1.,2.,-3.,.1]]); d = utils.angdist(pos[::-1], np.array(a["dir"])[:,None]*D); want = curvedsky.harm2profile(b, d)
		got = np.array([curvedsky.alm2map_pos(x, pos) for x in np.atleast_2d(alm)]).reshape(want.shape)
		inv = max(float(np.max(np.abs(b2-b)))*1e-2, float(np.max(np.abs(got-want))))
		return dict(p=[[q(v,U) for v in x] for x in np.atleast_2d(p)], inv=q(min(inv,2.0),1e9), itol=10000)
	rng = np.random.default_rng(a["seed"]); spin = a["spin"]; nc = ncomp(spin); 
	if k == "agree":
		ai = curvedsky.alm_info(lmax=a["lmax"], mmax=a["mmax"]); deriv = a["deriv"]; flat = a["flat"] and nc == 1
		if deriv: alm = rand_alm(rng, (), ai); mc = (2,)
		else: alm = rand_alm(rng, () if flat else (nc,), ai); mc = () if flat else (nc,)
		kw = dict(spin=spin, deriv=deriv, ainfo=ai)
		if a["kind"] == "hp":
			import healpy
			ns = a["nside"]; th, ph = healpy.pix2ang(ns, np.arange(12*ns**2)); ref = reference(alm, ai, np.array([np.pi/2-th,ph]), spin, deriv)
			lim = {0:(None,None),1:(1.0,None),2:(.5,2.0)}[a["lim"]]; ok = np.ones(len(th),bool)
			if lim[0]: ok &= th >= lim[0]
			if lim[1]: ok &= th <= lim[1]
			m = curvedsky.alm2map_healpix(alm, nside=ns, theta_min=lim[0], theta_max=lim[1], **kw)
			given = np.full(mc+(12*ns**2,),-7.0); m2 = curvedsky.alm2map_healpix(alm, given, theta_min=lim[0], theta_max=lim[1], copy=True, **kw)
			e = max(nrel((m-ref)[...,ok],ref), nrel((m2-ref)[...,ok],ref))
			return dict(exact=e, etol=2000, approx=0, atol=0, same=bool(np.all(given == -7)), ident=bool(np.all(np.abs(m2[...,~ok]) == 7)))
		shape, wcs = projgeo(a); pos = enmap.posmap(shape, wcs, safe=False); ok = np.all(np.isfinite(pos),0)
		if wcsutils.is_cyl(wcs) and a["kind"] != "carlat":
			# rows beyond the poles do not exist
			ok &= np.abs(pos[0]) <= np.pi/2
		ref = reference(alm, ai, np.array(pos)[:,ok], spin, deriv); e = ea = 0
		methods = ["auto","general"]+(["cyl"] if a["kind"] in ("car","cea","mer","cyp") and np.all(ok) else [])
		if not np.any(ok): return dict(exact=0, etol=1, approx=0, atol=1, same=True, ident=True)
		same = True
		for meth in methods:
			if meth == "auto" and not np.all(ok) and a["kind"] in ("car","cea","mer","cyp"): continue
			li = curvedsky.calc_locinfo(shape, wcs, bsize=a["bsize"]) if meth == "general" else None
			m = enmap.zeros(mc+tuple(shape), wcs, dtype=a["dt"]); keep = alm.copy(); r = curvedsky.alm2map(alm, m, method=meth, epsilon=1e-9 if a["dt"] == "f8" else 1e-5, locinfo=li, **kw); same &= bool(np.all(alm == keep))
			e = max(e, nrel(np.asarray(r)[...,ok]-ref, ref))
		return dict(exact=e, etol=2000 if a["dt"] == "f8" else 200000, approx=0, atol=0, same=same, ident=True)
	if k == "adjoint":
		ai = curvedsky.alm_info(lmax=a["lmax"], mmax=a["mmax"]); deriv, pre, op = a["deriv"], a["pre"], a["op"]; P = (pre,) if pre else (); flat = a["flat"] and nc == 1 and not pre and not deriv
		ac = P+(() if deriv or flat else (nc,)); mc = P+((2,) if deriv else () if flat else (nc,)); x = rand_alm(rng, ac, ai); ident = True
		if op in ("a2m","m2a"):
			if a["proj"] == "car": shape, wcs = (a["g"]["ny"],a["g"]["nx"]), carwcs(a["g"]); meth = a["method"]
			else:
				shape, wcs = projgeo(dict(proj=a["proj"],flip=[1,-1],ny=5,nx=6,cen=30)); meth = a["method"] if a["proj"] == "cea" and a["method"] != "2d" else "general"
			if a["proj"] == "car" and op == "m2a" and max(spin) and meth != "general" and shape[0] <= 5: meth = "cyl" # too few rings to resolve a spin field exactly
			y = enmap.enmap(rng.normal(size=mc+tuple(shape)), wcs)
		elif op[:2] == "hp": y = rng.normal(size=mc+(12*a["nside"]**2,))
		else:
			psh = tuple(a["psh"]); pos = np.array([rng.uniform(-1.5,1.5,psh),rng.uniform(-9,9,psh)]); y = rng.normal(size=mc+psh)
		kx, ky = x.copy(), np.array(y); kw = dict(spin=spin, deriv=deriv, ainfo=ai); zero = None if a["none"] else np.full(x.shape,7.+0j)
		if op == "m2a" and zero is not None and shape[0] <= 2*ai.lmax: zero *= 0 # the grid has no information on the highest multipoles
		lim = dict(theta_min=.8,theta_max=2.) if a["lim"] else {}
		if op == "a2m":
			f = curvedsky.alm2map(x, enmap.zeros(y.shape,wcs), method=meth, **kw); b = curvedsky.alm2map_adjoint(y, zero, method=meth, **kw); ident = a["none"] or b is zero
		elif op == "m2a":
			out = enmap.full(y.shape,wcs,7.); f = curvedsky.map2alm_adjoint(x, out, method=meth, niter=a["niter"], **kw); ident = f is out; b = curvedsky.map2alm(y, zero, method=meth, niter=a["niter"], **kw); ident = bool(ident and (a["none"] or b is zero))
		elif op == "hpa2m": f = curvedsky.alm2map_healpix(x, np.zeros(y.shape), **lim, **kw); b = curvedsky.alm2map_healpix(np.zeros(x.shape)+0j, y, adjoint=True, **lim, **kw)
		elif op == "hpm2a": f = curvedsky.map2alm_healpix(np.zeros(y.shape), x, adjoint=True, niter=a["niter"], **lim, **kw); b = curvedsky.map2alm_healpix(y, zero, niter=a["niter"], **lim, **kw)
		else: f = curvedsky.alm2map_pos(x, pos, **kw); b = curvedsky.alm2map_pos(np.zeros(x.shape)+0j, pos, map=y, adjoint=True, **kw)
		f = np.asarray(f); lhs, rhs = np.sum(f*np.asarray(ky)), adot(ai, b, kx); scale = np.sqrt(np.sum(f**2)*np.sum(np.asarray(ky)**2))+1e-30
		return dict(exact=nrel(lhs-rhs, scale), etol=20000, approx=0, atol=0, same=bool(np.all(np.asarray(y) == ky) and np.all(x == kx)), ident=bool(ident))
	# analysis
	lmax = max(a["lmax"],max(spin)); ai = curvedsky.alm_info(lmax); pre = (a["pre"],) if a["pre"] else (); how = a["how"]; flat = a["flat"] and nc == 1 and not pre
	alm = zap(rand_alm(rng, pre+(nc,), ai), ai, spin); 
	if flat: alm = alm[0]
	mp = pre+(() if flat else (nc,)); dt = a["dt"]; et = 2000 if dt == "f8" else 200000
	if how == "hp":
		ns = 8; m = curvedsky.alm2map_healpix(alm, nside=ns, spin=spin, ainfo=ai); kp = m.copy(); b = curvedsky.map2alm_healpix(m, lmax=lmax, spin=spin, niter=4)
		return dict(exact=nrel(b-alm,alm), etol=2000, approx=0, atol=0, same=bool(np.all(m == kp)), ident=True)
	if how == "proj":
		nx, ny = 16, 41
		w = wcsutils.WCS(naxis=2); P = a["proj"].upper(); w.wcs.ctype = ["RA---"+P,"DEC--"+P]; w.wcs.cdelt = [a["flip"][1]*360/nx,a["flip"][0]*(180/np.pi*2/ny if P == "CEA" else 8)]; w.wcs.crval = [a["ra0"],0]; w.wcs.crpix = [1,(ny+1)/2]; w.wcs.set()
		y1, y2 = a["sub"][:2] if a["niter"] == 0 else (0,ny); y2 = max(y2,y1+1)
		if P == "CEA" and a["niter"]:
			m = enmap.zeros(mp+(ny,nx),w); curvedsky.alm2map(alm,m,spin=spin); b = curvedsky.map2alm(m,lmax=lmax,spin=spin,niter=8); return dict(exact=0,etol=0,approx=nrel(b-alm,alm),atol=20000000,same=True,ident=True)
		m = enmap.enmap(rng.normal(size=mp+(ny,nx)),w)[...,y1:y2,:]; kp = np.array(m)
		if a["sub"][2]%2: m = m[...,::-1]; kp = np.array(m)
		b = curvedsky.map2alm(m,lmax=lmax,spin=spin,method="cyl"); c = curvedsky.map2alm(m,lmax=lmax,spin=spin,method="general")
		return dict(exact=nrel(b-c,b),etol=20000,approx=0,atol=0,same=bool(np.all(m == kp)),ident=True)
	shape, wcs = fullgrid(a); m = enmap.zeros(mp+shape, wcs, dtype=dt); meth = a["method"]
	if how == "full":
		curvedsky.alm2map(alm, m, spin=spin); kp = np.array(m); ident = True; kw = dict(lmax=lmax)
		exact = meth in ("auto","2d") or (meth == "cyl" and a["grid"][:2] != "MW")
		niter = a["niter"] if exact else 8; out = np.full(alm.shape, 7, np.result_type(dt,"c8"))
		if a["given"] in ("alm","copy"): kw = dict(alm=out, copy=a["given"] == "copy")
		elif a["given"] == "ainfo": kw = dict(ainfo=ai)
		b = curvedsky.map2alm(m, spin=spin, method=meth, niter=niter, **kw)
		if a["given"] == "alm": ident = b is out
		if a["given"] == "copy": ident = b is not out and np.all(out == 7)
		if not exact: b = b; 
		e = nrel(zap(np.atleast_2d(b),ai,spin).reshape(alm.shape)-alm, alm)
		return dict(exact=e if exact else 0, etol=et, approx=0 if exact else e, atol=5000000, same=bool(np.all(m == kp)), ident=bool(ident))
	y1, y2, x1, x2 = a["sub"]
	if a["grid"] == "CC" and y2-y1 >= a["n"]-2: y1 = 2 # without its poles the grid is a complete grid of another kind
	m[:] = rng.normal(size=m.shape); z = m*0
	p = m[...,y1:y2,x1:x2]; z[...,y1:y2,x1:x2] = p; same = True
	if how == "part":
		kp = np.array(p); meth = {"auto":"auto","2d":"2d","cyl":"cyl","general":"auto"}[meth]; known = a["grid"] in ("CC","F1")
		if not known and meth == "2d": meth = "cyl"
		b = curvedsky.map2alm(p, lmax=lmax, spin=spin, method=meth); same = bool(np.all(p == kp))
		c = curvedsky.map2alm(z, lmax=lmax, spin=spin, method="2d" if meth == "2d" else "cyl") if known else curvedsky.map2alm(p, lmax=lmax, spin=spin, method="general") if a["grid"][:2] == "MW" else b
		return dict(exact=nrel(b-c,b), etol=et*10, approx=0, atol=0, same=same, ident=True)
	if a["grid"][:2] == "MW": return dict(exact=0, etol=0, approx=0, atol=0, same=True, ident=True)
	# weights
	known = a["grid"] in ("CC","F1"); sub = m[...,y1:y2,:] if known else m
	w = curvedsky.quad_weights(sub.shape, sub.wcs); full = curvedsky.quad_weights(m.shape, m.wcs); wk = w.copy()
	e = nrel(np.sum(full)*a["nx"]-4*np.pi, 4*np.pi)
	e = max(e, nrel(w-(full[y1:y2] if known else full), full)); s = np.sin(np.pi/2-m.posmap()[0,:,0]); e2 = 0
	rev = curvedsky.quad_weights(m.shape, m[...,::-1,:].wcs); e = max(e, nrel(rev-full[::-1],full)) if known or a["grid"] == "F2" else e
	b = curvedsky.map2alm(sub, lmax=lmax, spin=spin, method="cyl"); c = curvedsky.map2alm(sub, lmax=lmax, spin=spin, method="cyl", weights=w); e = max(e, nrel(b-c,b)//(1 if dt == "f8" else 100))
	return dict(exact=e, etol=2000, approx=0, atol=0, same=bool(np.all(w == wk)), ident=True)
