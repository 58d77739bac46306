"""P21 power spectra: packing, files, binning, evaluation on maps"""
import random, os, tempfile, numpy as np
from pixell import powspec, enmap, utils, curvedsky, wcsutils
from lib import q, qf, NANQ
TRACE = "TraceP21"
MC  = [dict(module="PowspecMC", cfg="PowspecMC.cfg", min_states=5000)]
GEN = []
ASSUMPTIONS = ["matrices to be packed are symmetric", "smoothing where the weights vanish is not defined"]
SCH = ["diag","row","stable"]
def tri(n): return n*(n+1)//2
def cases(tier, seed, gen):
	rng = random.Random(seed); N = 1 if tier == "quick" else 6
	ri = lambda n, m=9: [rng.randint(-m,m) for _ in range(n)]
	for s in SCH:
		for k in range(1, 22 if tier == "quick" else 37): yield dict(k="order", a=dict(k=k, scheme=s))
	for _ in range(90*N):
		n = rng.randint(1,5); dims = [rng.randint(1,3) for _ in range(rng.randint(0,2))]; E = int(np.prod(dims)); s = rng.choice(SCH); nd = 2+len(dims)
		axes = sorted(rng.sample(range(nd),2)); k = tri(n) if rng.random() < 0.7 else rng.randint(1,tri(n))
		x = np.zeros((n,n,E),int)
		for i in range(n):
			for j in range(i,n): x[i,j] = x[j,i] = ri(E)
		if rng.random() < 0.5: axes = [0,1]
		yield dict(k="pack", a=dict(n=n, dims=dims, E=E, scheme=s, default=s=="diag" and rng.random()<0.5, axes=axes, neg=rng.random()<0.3, k=k, full=k==tri(n), x=x.reshape(-1).tolist(), combined=rng.random()<0.3, explicit=rng.random()<0.2))
		k = rng.randint(1,tri(5)); nc = int(np.ceil((-1+(1+8*k)**0.5)/2-1e-9)); more = rng.choice([0,0,1,2]); comb = rng.random() < 0.3
		yield dict(k="unpack", a=dict(n=nc+more, more=more, k=k, dims=dims, E=E, scheme=s, axis=0 if rng.random() < 0.5 else rng.randint(0,nd-2), neg=rng.random()<0.3, x=[2*v if comb else v for v in ri(k*E)], combined=comb, explicit=rng.random()<0.2))
	for _ in range(60*N):
		lay = rng.choice(SCH+["full_lens","scalar"]); scale = rng.random() < 0.6; L = rng.choice([1,2,5,9])
		ls = sorted(rng.sample(range(L), rng.randint(1,L)))
		if rng.random() < 0.3: rng.shuffle(ls)
		if lay == "full_lens": ncol, n = 7, 4
		elif lay == "scalar": ncol, n = 3, 3
		else: ncol = rng.randint(1,6); n = int(np.ceil((-1+(1+8*ncol)**0.5)/2-1e-9))
		extra = rng.choice([0,0,2]) if lay in SCH else 0
		if lay in SCH and rng.random() < 0.3: n += 1; more = 1
		else: more = 0
		inds = rng.random() < 0.8
		if not inds: ls = list(range(L))
		yield dict(k="read", a=dict(layout="diag" if lay == "scalar" else lay, kind=lay, d=[[l]+[rng.randint(-99,99) for _ in range(ncol+extra+(2 if lay == "scalar" else 0))] for l in ls], scale=scale, inds=inds, ncol=ncol, cut=extra > 0 or more > 0, more=more, n=n, lmax=max(ls)))
	for _ in range(40*N):
		n = rng.randint(1,4); L = rng.choice([1,2,4,7]); x = np.zeros((n,n,L),int)
		for i in range(n):
			for j in range(i,n): x[i,j] = x[j,i] = ri(L,99)
		yield dict(k="write", a=dict(n=n, L=L, x=x.reshape(-1).tolist(), scheme=rng.choice(SCH), inds=rng.random()<0.7, scale=rng.random()<0.5))
	for _ in range(40*N):
		c = rng.randint(1,3); so, sa, sb = rng.choice([([],[],[]), ([c],[c],[c]), ([c,c],[c,1],[1,c]), ([c,2],[c,1],[1,2]), ([2,c],[2,c],[c]), ([c],[c],[]), ([c],[1],[c]), ([c],[],[c])]); P = 6
		same = sa == sb and rng.random() < 0.6 or so == [c,c]
		na, nb = int(np.prod(sa))*P, int(np.prod(sb))*P
		re1, im1 = ri(na), ri(na); re2, im2 = (re1, im1) if same and na == nb else (ri(nb), ri(nb)); same = same and na == nb
		if same and len(so) == 2 and rng.random() < 0.5: same = False; re2, im2 = ri(nb), ri(nb)
		yield dict(k="ps2d", a=dict(so=so, sa=sa, sb=sb, npix=P, re1=re1, im1=im1, re2=re2, im2=im2, same=same, none=same and sa == sb and rng.random() < 0.5))
	for _ in range(60*N):
		pre = rng.choice([[],[],[2],[2,2]]); b = rng.choice([1,2,3,5]); mx = rng.choice([1,3,8,15])
		yield dict(k="bins", a=dict(r=[rng.randint(0,mx) for _ in range(12)], b=b, pre=pre, x=ri(12*int(np.prod(pre)),99), f=rng.choice(["lbin","rbin"]), hit=rng.random()<0.5, ed=rng.random()<0.5, meth=rng.random()<0.5, nan=NANQ, rel=rng.random()<0.3))
	for _ in range(40*N):
		n = rng.choice([0,1,2,3]); L = rng.choice([2,6,15,40]); nn = max(n,1)
		x = np.zeros((nn,nn,L),int)
		for i in range(nn):
			for j in range(i,nn): x[i,j] = x[j,i] = [rng.randint(0,99) for _ in range(L)]
		yield dict(k="flat", a=dict(n=n, L=L, c=x.reshape(-1).tolist(), ny=rng.randint(2,6), nx=rng.randint(2,6), w=rng.choice([20,40,90])))
	for _ in range(50*N):
		L = rng.choice([1,2,3,5,8]); ns = rng.choice([1,1,2]); kern = rng.choice(["step","custom"]); wt = rng.choice(["uniform","mode","custom"])
		if kern == "step": wd = rng.randint(1,L+1); k = [1 if l < wd else 0 for l in range(L)]
		else: wd = 1; k = [rng.randint(0,3) for _ in range(L)]; k[0] = max(k[0],1)
		w = [1]*L if wt == "uniform" else [l**2 for l in range(L)] if wt == "mode" else [rng.randint(1,4) for _ in range(L)]
		yield dict(k="smooth", a=dict(p=ri(L*ns,50), k=k, w=w, kern=kern, wt=wt, width=wd, flat=ns == 1))
	for _ in range(30*N):
		n = rng.randint(1,3); L = rng.randint(1,7); x = np.zeros((n,n,L),int)
		for i in range(n):
			for j in range(i,n): x[i,j] = x[j,i] = ri(L,5)
		sym = rng.random() < 0.7
		yield dict(k="corr", a=dict(n=n, L=L, c=x.reshape(-1).tolist(), pos=[rng.choice([1000000,-1000000,0,500000,-500000,250000,800000]) for _ in range(rng.randint(1,4))], iscos=rng.random()<0.5, sym=sym))
	for _ in range(100*N):
		n = rng.randint(1,3); dims = [rng.randint(1,2) for _ in range(rng.choice([0,1,1,2,2]))]; K = int(np.prod(dims)); As, Hs = [], []
		for _ in range(K):
			h = np.array(ri(n*n,2)).reshape(n,n); h = h.dot(h.T)+np.eye(n,dtype=int); As.append(h.dot(h)); Hs.append(h)
		e = rng.choice(["half","inv","two","one","minushalf","inv","minushalf"])
		axes = sorted(rng.sample(range(2+len(dims)),2))
		yield dict(k="eig", a=dict(n=n, dims=dims, A=np.array(As).reshape(-1).tolist(), H=np.array(Hs).reshape(-1).tolist(), e=e, axes=axes if rng.random() < 0.6 else [0,1] if rng.random() < 0.5 else [len(dims),len(dims)+1], tiny=rng.random() < 0.4, f=rng.choice(["eigpow","multi_pow"])))
	for _ in range(30*N):
		n = rng.randint(2,4); K = rng.choice([1,1,2,3]); Cs = []
		for _ in range(K):
			h = np.array(ri(n*n,3)).reshape(n,n); Cs.append(h.dot(h.T)+np.eye(n,dtype=int))
		known = sorted(rng.sample(range(n), rng.randint(1,n-1)))
		yield dict(k="cond", a=dict(n=n, K=K, extra=K > 1 or rng.random() < 0.3, C=np.array(Cs).reshape(-1).tolist(), known=[v+1 for v in known], unknown=[v+1 for v in range(n) if v not in known], axes=rng.choice([[0,1],[1,2],[0,2]])))
	for _ in range(40*N):
		n = rng.randint(1,3); L = rng.randint(1,4); m = rng.randint(1,4); f = rng.choice(["massage","prepare","pad"])
		x = np.zeros((n,n,L),int)
		for i in range(n):
			for j in range(i,n): x[i,j] = x[j,i] = ri(L)
		M = L if f == "massage" else L+rng.randint(0,3)
		if f != "massage": m = n
		yield dict(k="massage", a=dict(n=n, L=L, m=m, M=M, f=f, x=x.reshape(-1).tolist(), scalar=n == 1 and rng.random()<0.5, outscalar=m == 1 and f == "massage" and rng.random()<0.5, packed=rng.random()<0.4))
	for f in ("spec2flat","spec2flat_corr"):
		for n in (0,2):
			for kw in ({},dict(border="nearest")): yield dict(k="pure", a=dict(f=f, n=n, kw=kw))
	for _ in range(15*N):
		n = rng.randint(1,4); s = [rng.randint(1,9) for _ in range(n)]; c = [[1000 if i == j else 0 for j in range(n)] for i in range(n)]
		for i in range(n):
			for j in range(i): c[i][j] = c[j][i] = rng.randint(-900,900)
		yield dict(k="covcorr", a=dict(n=n, s=s, corr=[v for r in c for v in r], cov=[c[i][j]*s[i]*s[j] for i in range(n) for j in range(n)]))

def mover(x, n0, axes, dims):
	"""from [n,n,...dims] to matrix axes at the given places"""
	return np.moveaxis(x, [0,1], axes)
def lfac(nl, e=1.0):
	l = np.arange(nl); v = (l*(l+1.0))**e/(2*np.pi); v[0] = 1
	return v
def run(k, a):
	if k == "order": return dict(v=[[int(x) for x in w] for w in powspec.compressed_order(a["k"], a["scheme"])])
	if k == "pack":
		x = np.array(a["x"]).reshape([a["n"]]*2+a["dims"]); m = np.ascontiguousarray(np.moveaxis(x,[0,1],a["axes"])); m0 = m.copy(); nd = m.ndim
		kw = dict(scheme=a["scheme"]) if not a["default"] else {}
		if a["axes"] != [0,1] or a["neg"]: kw["axes"] = [v-nd if a["neg"] else v for v in a["axes"]]
		if a["combined"]: kw["combined"] = True
		if not a["full"]: kw["n"] = a["k"]
		if a["explicit"]: kw = dict(kw, which=powspec.compressed_order(a["k"],a["scheme"]))
		r = powspec.sym_compress(m, **kw); rest = list(a["dims"]); rest.insert(a["axes"][0], a["k"])
		ok = list(r.shape) == rest
		return dict(shape=ok, v=[int(v) for v in np.moveaxis(r, a["axes"][0], 0).reshape(-1)] if ok else [], same=bool(np.array_equal(m,m0)))
	if k == "unpack":
		x = np.array(a["x"]).reshape([a["k"]]+a["dims"]); m = np.moveaxis(x,0,a["axis"]); n = a["n"]; kw = dict(scheme=a["scheme"])
		if a["axis"] or a["neg"]: kw["axis"] = a["axis"]-m.ndim if a["neg"] else a["axis"]
		if a["combined"]: kw["combined"] = True
		if a["more"]: kw["ncomp"] = n
		if a["explicit"]: kw["which"] = powspec.compressed_order(a["k"],a["scheme"])
		r = powspec.sym_expand(m, **kw); rest = list(a["dims"]); rest[a["axis"]:a["axis"]] = [n,n]
		ok = list(r.shape) == rest
		return dict(shape=ok, v=[int(v) for v in np.moveaxis(r,[a["axis"],a["axis"]+1],[0,1]).reshape(-1)] if ok else [])
	if k in ("read","write"):
		with tempfile.TemporaryDirectory() as tmp:
			f = os.path.join(tmp,"ps.txt")
			if k == "read":
				with open(f,"w") as h:
					h.write("# spectrum\n")
					for row in a["d"]: h.write(" ".join("%.1f" % v if i else "%d" % v for i,v in enumerate(row) if i or a["inds"])+"\n")
				kw = dict(inds=a["inds"], scale=a["scale"]); out = {}
				nl = a["lmax"]+1; fac = lfac(nl) if a["scale"] else np.ones(nl)
				if a["kind"] == "full_lens":
					r = powspec.read_camb_full_lens(f, **kw)
					F = np.broadcast_to(fac, r.shape).copy()
					if a["scale"]: F[0,0] = lfac(nl,2); F[0,1:] = lfac(nl,1.5); F[1:,0] = lfac(nl,1.5)
				elif a["kind"] == "scalar":
					r, phi = powspec.read_camb_scalar(f, **kw); F = fac
					l = np.arange(nl); ph = np.where(l>0, l**4.0*2.726e6**2, 1) if a["scale"] else 1
					if phi.shape != (1,1,nl): return dict(shape=[], v=[], phi=[])
					out["phi"] = qf(phi*ph, 1000)
				else:
					if a["more"]: kw["ncomp"] = a["n"]
					if a["cut"]: kw["ncol"] = a["ncol"]
					r = powspec.read_spectrum(f, expand=a["layout"], **kw); F = fac
				return dict(out, shape=list(r.shape), v=qf(r*F,1000))
			spec = np.array(a["x"],float).reshape(a["n"],a["n"],a["L"]); fac = lfac(a["L"]) if a["scale"] else np.ones(a["L"]); spec /= fac; s0 = spec.copy()
			powspec.write_spectrum(f, spec, inds=a["inds"], scale=a["scale"], expand=a["scheme"])
			back = powspec.read_spectrum(f, inds=a["inds"], scale=a["scale"], expand=a["scheme"])
			return dict(file=[qf(v,1000) for v in np.loadtxt(f,ndmin=2)], back=qf(back*fac,1000), same=bool(np.array_equal(spec,s0)))
	if k == "ps2d":
		w = wcsutils.WCS(naxis=2); w.wcs.cdelt = [-1,1]; w.wcs.ctype = ["RA---CAR","DEC--CAR"]; w.wcs.set()
		h1 = enmap.ndmap((np.array(a["re1"])+1j*np.array(a["im1"])).reshape(a["sa"]+[2,3]), w)
		h2 = h1.reshape(a["sb"]+[2,3]) if a["same"] else enmap.ndmap((np.array(a["re2"])+1j*np.array(a["im2"])).reshape(a["sb"]+[2,3]), w)
		c1, c2 = h1.copy(), h2.copy()
		r = enmap.calc_ps2d(h1) if a["none"] else enmap.calc_ps2d(h1,h2)
		return dict(shape=list(r.shape[:-2]), v=qf(r), same=bool(np.array_equal(h1,c1) and np.array_equal(h2,c2)), wcs=bool(wcsutils.equal(r.wcs,w)))
	if k == "bins":
		shape, wcs = enmap.geometry([[0,0],[0.03,-0.04]], shape=(3,4), proj="car"); m = enmap.ndmap(np.array(a["x"],float).reshape(a["pre"]+[3,4]), wcs)
		rr = np.array(a["r"],float).reshape(3,4); op = lambda r: rr if r.shape == rr.shape else 1/0
		kw = dict(bsize=a["b"]/2. if a["rel"] else a["b"], brel=2 if a["rel"] else 1, return_nhit=a["hit"], return_bins=a["ed"]); kw["lop" if a["f"] == "lbin" else "rop"] = op
		with np.errstate(all="ignore"): out = getattr(m,a["f"])(**kw) if a["meth"] else getattr(enmap,a["f"])(m,**kw)
		v, rad = out[:2]; ed = []
		if a["ed"]: rad, ed = rad[0], np.concatenate([rad[1],rad[2]])
		if list(v.shape[:-1]) != a["pre"]: return dict(nb=-1, v=[], rad=[], nhit=[], edges=[])
		return dict(nb=v.shape[-1], v=qf(v,1000), rad=qf(rad,1000), nhit=qf(out[2]) if a["hit"] else [], edges=qf(ed,1000))
	if k == "flat":
		n, L = a["n"], a["L"]; c = np.array(a["c"],float).reshape(n,n,L) if n else np.array(a["c"],float); c0 = c.copy()
		shape, wcs = enmap.geometry(np.array([[-1,1],[1,-1]])*a["w"]/2*utils.degree, shape=(a["ny"],a["nx"]), proj="car")
		r = enmap.spec2flat(shape, wcs, c, smooth=0)
		ok = r.shape == c.shape[:-1]+shape
		norm = np.prod(shape)/enmap.area(shape,wcs)
		return dict(shape=ok, v=qf(r/norm,1000) if ok else [], l=qf(enmap.modlmap(shape,wcs),1000), same=bool(np.array_equal(c,c0)))
	if k == "pure":
		shape, wcs = enmap.geometry(np.array([[-1,1],[1,-1]])*5*utils.degree, shape=(6,7), proj="car")
		c = 1.0/(1+np.arange(300)); c[0] = np.inf
		if a["n"]: c = c[None,None]*np.eye(a["n"])[:,:,None]; c[np.isnan(c)] = 0
		c0 = c.copy(); r = getattr(enmap,a["f"])(shape, wcs, c, **a["kw"])
		return dict(same=bool(np.array_equal(c,c0)), finite=bool(np.all(np.isfinite(r))))
	if k == "smooth":
		L = len(a["k"]); p = np.array(a["p"],float).reshape(-1,L); p = p[0] if a["flat"] else p; p0 = p.copy()
		with np.errstate(all="ignore"): r = enmap.smooth_spectrum(p, kernel="step" if a["kern"] == "step" else np.array(a["k"],float), weight=a["wt"] if a["wt"] != "custom" else np.array(a["w"],float), width=a["width"])
		return dict(v=qf(r,1000) if r.shape == p.shape else [], same=bool(np.array_equal(p,p0)))
	if k == "corr":
		x = np.array(a["pos"])/1e6; c = np.array(a["c"],float).reshape(a["n"],a["n"],a["L"])
		r = powspec.spec2corr(c, x if a["iscos"] else np.arccos(x), iscos=a["iscos"], symmetric=a["sym"])
		if not a["sym"]: r = r.reshape((a["n"],a["n"])+r.shape[1:])
		return dict(v=qf(r*4*np.pi,1000) if r.shape == (a["n"],a["n"],len(x)) else [])
	if k == "eig":
		n = a["n"]; A = np.array(a["A"],float).reshape(-1,n,n); fac = 10.0**(-20*(np.arange(len(A))%2)) if a["tiny"] else np.ones(len(A)); A = (A*fac[:,None,None]).reshape(a["dims"]+[n,n]); m = np.ascontiguousarray(np.moveaxis(A,[-2,-1],a["axes"])); m0 = m.copy()
		e = dict(half=0.5, inv=-1, two=2, one=1, minushalf=-0.5)[a["e"]]
		if a["f"] == "multi_pow": m = enmap.ndmap(m, enmap.geometry([[0,0],[1,1]],shape=(2,2),proj="car")[1])
		r = getattr(utils if a["f"] == "eigpow" else enmap, a["f"])(m, e, axes=a["axes"])
		ok = r.shape == m.shape; r = np.moveaxis(np.asarray(r), a["axes"], [-2,-1]).reshape(-1,n,n)*fac[:,None,None]**-e if ok else r
		return dict(shape=ok, v=qf(r, 1000000 if a["e"] in ("inv","minushalf") else 1000) if ok else [], same=bool(np.array_equal(m,m0)))
	if k == "cond":
		n, K = a["n"], a["K"]; C = np.array(a["C"],float).reshape(K,n,n); ax = a["axes"]; kn, u = np.array(a["known"])-1, np.array(a["unknown"])-1
		if a["extra"]: A, cov = utils.build_conditional(np.moveaxis(C,[1,2],ax), kn, axes=ax); A, cov = [np.moveaxis(m,ax,[1,2]) for m in (A,cov)]
		else: A, cov = utils.build_conditional(C[0], kn); A, cov = A[None], cov[None]
		ok = A.shape == (K,len(u),len(kn)) and cov.shape == (K,len(u),len(u))
		return dict(shape=ok, A=qf(A,100000) if ok else [], cov=qf(cov,100000) if ok else [])
	if k == "massage":
		n, L = a["n"], a["L"]; c = np.array(a["x"]).reshape(n,n,L)
		if a["f"] == "massage":
			r = enmap.massage_spectrum(c[0,0] if a["scalar"] else c, (2,3) if a["outscalar"] else (a["m"],2,3))
			ok = r.shape == ((L,) if a["outscalar"] else (a["m"],a["m"],L))
		elif a["f"] == "pad": r = curvedsky.pad_spectrum(c, a["M"]-1); ok = r.shape == (n,n,a["M"])
		else:
			inp = c[0,0] if a["scalar"] else powspec.sym_compress(c, scheme="diag") if a["packed"] else c
			r, ai = curvedsky.prepare_ps(inp, lmax=a["M"]-1); ok = r.shape == (n,n,a["M"]) and ai.lmax == a["M"]-1
		return dict(shape=bool(ok), v=qf(r) if ok else [])
	if k == "covcorr":
		n = a["n"]; C = np.array(a["cov"],float).reshape(n,n)/1000
		corr, std = utils.cov2corr(C)
		return dict(corr=qf(corr,1000), back=qf(utils.corr2cov(corr,std),1000))
