"""P16 object simulation and radial binning"""
import random, ctypes, numpy as np
from pixell import pointsrcs, enmap, utils, srcsim, wcsutils
from lib import q, qf, NANQ
TRACE = "TraceP16"
MC  = [dict(module="SrcsimMC", cfg="SrcsimMC.cfg", min_states=500000)]
GEN = []
ASSUMPTIONS = ["maps cover at most the whole circle", "contributions below the threshold, or beyond the largest radius, may be present or absent"]
U = 1e-5
try: omp = ctypes.CDLL("libgomp.so.1")
except OSError: omp = None
def threads(n):
	if omp is not None: omp.omp_set_num_threads(n)
D = utils.degree
def geom(g):
	k = g["kind"]; ny, nx, res = g["ny"], g["nx"], g["res"]*D
	if k == "full":
		shape, wcs = enmap.fullsky_geometry(res=360./nx*D, shape=None, proj="car") if g.get("cc") else enmap.fullsky_geometry(res=360./nx*D, variant="fejer1")
		return shape[-2:], wcs
	box = np.array([[g["dec"]*D-ny*res/2, g["ra"]*D+nx*res/2],[g["dec"]*D+ny*res/2, g["ra"]*D-nx*res/2]])
	if k == "car": return enmap.geometry(box, shape=(ny,nx), proj="car")
	return enmap.geometry(np.array([g["dec"],g["ra"]])*D, res=res, shape=(ny,nx), proj=k)
def dist(p, dec, ra):
	d1, r1 = p; s = np.sin((d1-dec)/2)**2+np.cos(d1)*np.cos(dec)*np.sin((r1-ra)/2)**2
	return 2*np.arcsin(np.minimum(1,np.sqrt(s)))
def cases(tier, seed, gen):
	rng = random.Random(seed); N = 1 if tier == "quick" else 6
	def geo():
		k = rng.choice(["full","full","car","car","car","tan","zea"])
		if k == "full": nx = rng.choice([16,18,20,24,26]); return dict(kind=k, ny=0, nx=nx, res=0, cc=rng.random() < 0.4, dec=0, ra=0)
		ny, nx, res = rng.randint(4,18), rng.randint(4,24), rng.choice([0.5,1,2,4])
		if k == "car":
			dec = rng.choice([0,0,30,-50,70]); ra = rng.choice([0,0,180,90,359])
			if abs(dec)+ny*res/2 > 90: dec = 0
			return dict(kind=k, ny=ny, nx=nx, res=res, dec=dec, ra=ra)
		return dict(kind=k, ny=ny, nx=nx, res=min(res,2), dec=rng.choice([0,40,80,90,-90]), ra=rng.choice([0,100,180]))
	def objs(g, n):
		"""positions in millidegrees"""
		out = []
		for _ in range(n):
			if g["kind"] == "full": de, ra = rng.choice([rng.uniform(-90,90), rng.choice([-89,88,-80,75]), 0]), rng.choice([rng.uniform(-200,380), 180, -180, 0, 179.9, 360])
			else:
				h, w = g["ny"]*g["res"], g["nx"]*g["res"]; f = rng.choice([0.5,0.5,0.5,0.7])
				de = g["dec"]+rng.uniform(-f,f)*h; ra = g["ra"]+rng.uniform(-f,f)*w/max(0.3,np.cos(g["dec"]*D))
				de = min(89.9,max(-89.9,de)); ra += rng.choice([0,0,0,360,-360])
			out.append([int(round(de*1000)), int(round(ra*1000))])
		return out
	def scale(g): return 360/g["nx"] if g["kind"] == "full" else g["res"]
	def prof(g, equi=None):
		n = rng.randint(2,6); s = scale(g)
		st = max(1000, int(rng.choice([0.6,1,2,4])*s*D/U))
		kind = rng.choice(["equi","equi","zero","offset","trap"]) if equi is None else equi
		if kind == "equi": rs = [k*st for k in range(n)]
		else:
			rs = [0 if kind != "offset" else rng.randint(100,st)]
			for _ in range(n-1): rs.append(rs[-1]+max(1000,int(st*rng.uniform(0.3,1.8))))
			if kind == "trap" and n > 3 and rs[1]*(n-1)-rs[n-2] >= 1000: rs[n-1] = rs[1]*(n-1)
		mono = rng.random() < 0.6; vs = sorted([rng.randint(0,100) for _ in range(n)])[::-1] if mono else [rng.randint(-100,100) for _ in range(n)]
		if rng.random() < 0.6: vs[-1] = 0
		if mono: vs[0] = rng.choice([100,100,300])
		cap = int(1.9/U); ok = [i for i in range(n) if rs[i] <= cap]
		rs, vs = [rs[i] for i in ok], [vs[i] for i in ok]
		if len(rs) < 2: rs, vs = [0,st], [100,0]
		return [[r,v] for r,v in zip(rs,vs)]
	for c in range(150*N):
		g = geo(); many = rng.random() < 0.25
		if many: g = dict(kind="car", ny=rng.randint(3,9), nx=rng.randint(3,11), res=rng.choice([1,2]), dec=rng.choice([0,40]), ra=rng.choice([0,180])); no = rng.randint(12,18); np_ = 1
		else: no = rng.randint(1,4); np_ = rng.randint(1,3)
		pk = rng.choice(["equi",None,None]); profs = [prof(g,pk) for _ in range(np_)]; ids = [rng.randrange(np_) for _ in range(no)]
		pre = rng.choice([[],[],[2],[1,2],[3]]); nc = int(np.prod(pre)); amps = [[rng.choice([-1,1,1,1])*rng.randint(1,9) for _ in range(no)] for _ in range(nc)]
		if rng.random() < 0.1: amps[0][0] = 0
		if rng.random() < 0.3: o1 = rng.randrange(no); amps = [[v*(rng.choice([100,900]) if o == o1 else 1) for o,v in enumerate(am)] for am in amps]
		shape, wcs = geom(g); P = int(np.prod(shape))
		how = rng.choice(["new","new","omap","omap","low"]); op = rng.choice(["add","add","add","max","min"])
		m0 = [0]*(nc*P) if how == "new" else [rng.randint(-5,5) for _ in range(nc*P)]
		vm = rng.choice([0,0,0,20,100,300])
		drmax = max(p[-1][0] for p in profs)
		dv = max(abs(p[k+1][1]-p[k][1])*1.0/(p[k+1][0]-p[k][0]) for p in profs for k in range(len(p)-1))
		yield dict(k="sim", a=dict(g=g, npix=P, pos=objs(g,no), amps=amps, pre=pre, profs=profs, ids=ids, single=np_ == 1 and rng.random() < 0.5, op=op, how=how, m0=m0, vmin=vm or 1, vset=vm > 0 or how == "low", rmax=rng.choice([0,0,0,max(1000,drmax//2)]), csize=rng.choice([1,2,3,5,8,32]), f64=rng.random() < 0.3, sep=rng.random() < 0.7, nth=rng.choice([1,2,8]), cache=rng.random() < 0.3, equi=rng.choice(["auto","auto",False]), old=rng.random() < 0.5, tol=int(150*dv+3)+2))
	for c in range(100*N):
		g = geo(); no = rng.randint(1,3); pre = rng.choice([[],[2],[1,2]]); nc = int(np.prod(pre)); shape, wcs = geom(g); P = int(np.prod(shape))
		e = [p[0] for p in prof(g, rng.choice(["equi",None,None]))]
		while len(e) < 3: e.append(e[-1]+(e[1]-e[0]))
		mean = rng.random() < 0.4
		yield dict(k="sum", a=dict(g=g, npix=P, pos=objs(g,no), pre=pre, nc=nc, edges=e, m0=[rng.randint(-9,9) for _ in range(nc*P)], mean=mean, w=[rng.randint(0,3) for _ in range(P)] if mean and rng.random() < 0.6 else [1]*P, f64=rng.random() < 0.3, sep=rng.random() < 0.7, nth=rng.choice([1,2,8]), given=rng.random() < 0.3, cache=rng.random() < 0.3, nan=NANQ, equi=rng.choice(["auto","auto",False])))
	for pre in ([],[2]):
		for omap in (True,False): yield dict(k="none", a=dict(pre=pre, omap=omap))

def run(k, a):
	if k == "none":
		shape, wcs = geom(dict(kind="car", ny=4, nx=5, res=1, dec=0, ra=0)); pre = tuple(a["pre"])
		om = enmap.ndmap(np.arange(20*int(np.prod(pre)),dtype=np.float32).reshape(pre+shape),wcs) if a["omap"] else None; m0 = om.copy() if a["omap"] else np.zeros(pre+shape)
		r = pointsrcs.sim_objects(shape, wcs, np.zeros((2,0)), np.zeros(pre+(0,)), [[0,1],[1,0]], omap=om)
		return dict(shape=r.shape == pre+shape, same=bool(np.array_equal(r,m0)))
	shape, wcs = geom(a["g"]); pre = tuple(a["pre"]); threads(a["nth"])
	try:
		pos = np.array(a["pos"]).T/1000*D; sep = wcsutils.is_separable(wcs) and a["sep"]
		pm = enmap.posmap(shape, wcs); d = [qf(dist(np.asarray(pm,float), de, ra)/U) for de, ra in pos.T]
		p0 = pos.copy(); cache = {} if a["cache"] else None
		if k == "sim":
			amps = np.array(a["amps"], np.float64 if a["f64"] else np.float32).reshape(pre+(len(d),)); a0 = amps.copy()
			profs = [np.array(p,float).T*np.array([U,0.01])[:,None] for p in a["profs"]]
			if not a["f64"]: profs = [p.astype(np.float32) for p in profs]
			kw = dict(op=a["op"], separable=sep, rmax=a["rmax"]*U or None)
			if a["vset"]: kw["vmin"] = a["vmin"]/100
			m0 = enmap.ndmap(np.array(a["m0"],np.float32).reshape(pre+shape), wcs); same = True
			if a["how"] == "low":
				fl = m0.preflat.copy(); ys, xs = utils.nint(enmap.sky2pix(shape,wcs,pos)).astype(np.int32); kw["rmax"] = kw["rmax"] or 0
				eq = a["equi"] == "auto" and all(np.array_equal(np.diff([p[0] for p in pr]), [pr[1][0]]*(len(pr)-1)) and pr[0][0] == 0 for pr in a["profs"])
				pa = enmap.posaxes(shape,wcs) if sep else pm
				srcsim.sim_objects(fl, pos[0].astype(np.float32), pos[1].astype(np.float32), ys, xs, amps.reshape(-1,len(d)).astype(np.float32), profs, np.array(a["ids"],np.int32), pa, prof_equi=eq, csize=a["csize"], **kw)
				r = fl.reshape(pre+shape)
			else:
				for rep in range(2 if a["cache"] else 1):
					om = None if a["how"] == "new" else m0.copy()
					if a["single"] and a["old"]: # the older interface
						ex = np.zeros((len(d),int(a["rmax"] > 0))) # further columns are ignored
						r = pointsrcs.sim_srcs(pre+shape, wcs, np.concatenate([pos.T,amps.reshape(-1,len(d)).T,ex],1), profs[0], omap=om, cache=cache, **kw)
						continue
					r = pointsrcs.sim_objects(shape, wcs, pos, amps, profs[0] if a["single"] else profs, prof_ids=None if a["single"] else a["ids"], omap=om, prof_equi=a["equi"], cache=cache, **kw)
				if om is not None: same = np.shares_memory(r, om) and np.array_equal(r, om)
			ok = r.shape == pre+shape
			return dict(d=d, shape=ok, m=qf(r,10000) if ok else [], same=bool(same), inputs=bool(np.array_equal(pos,p0) and np.array_equal(amps,a0)))
		if k == "sum":
			m = enmap.ndmap(np.array(a["m0"],np.float32).reshape(pre+shape), wcs); m0 = m.copy(); e = np.array(a["edges"])*U; nb = len(e)-1
			if not a["f64"]: e = e.astype(np.float32)
			kw = dict(separable=sep, prof_equi=a["equi"], cache=cache)
			if a["mean"]:
				w = None if min(a["w"]) == 1 == max(a["w"]) else enmap.ndmap(np.array(a["w"],np.float32).reshape(shape), wcs)
				with np.errstate(all="ignore"): r = pointsrcs.radial_bin(m, pos, e, weights=w, **kw)
				v = qf(r,1000)
			else:
				op = np.zeros((len(d),)+pre+(nb,),np.float32) if a["given"] else None
				r = pointsrcs.radial_sum(m, pos, e, oprofs=op, **kw)
				if op is not None and r is not op: return dict(d=d, shape=False, v=[], inputs=False)
				v = qf(r)
			return dict(d=d, shape=r.shape == (len(d),)+pre+(nb,), v=v, inputs=bool(np.array_equal(m,m0) and np.array_equal(pos,p0)))
	finally: threads(8)
