"""P22 coordinate transformations"""
import random, numpy as np
from pixell import coordinates, utils, enmap
from lib import q
TRACE = "TraceP22"
MC  = [dict(module="SphereMC", cfg="SphereMC.cfg", min_states=14000)]
GEN = [dict(name="hist", module="SphereGen", cfg="SphereGen.cfg", simulate=220, depth=12, min=100, thorough_factor=8)]
ASSUMPTIONS = ["the turn of directions is only defined away from the poles: within 1e-5 rad for latitudes up to 80 degrees", "transformations to and from horizontal coordinates need a library that is not installed", "the orientation of the galactic and ecliptic systems is given to 1e-4 in the specification; round trips, distances and chains are compared to 1e-7"]
D = utils.degree; U = 10000
NAMES = dict(equ=["equ","cel","icrs","equatorial","celestial"], gal=["gal","galactic"], ecl=["ecl","ecliptic"])
def vec(p): p = np.asarray(p,float); return np.array([np.cos(p[1])*np.cos(p[0]),np.cos(p[1])*np.sin(p[0]),np.sin(p[1])])
def dist(a, b): va, vb = vec(a), vec(b); return 2*np.arctan2(np.sqrt(np.sum((va-vb)**2,0)), np.sqrt(np.sum((va+vb)**2,0)))
def pairs(p): n = p.shape[1]; i, j = np.triu_indices(n,1); return dist(p[:,i],p[:,j])
def cases(tier, seed, gen):
	rng = random.Random(seed); N = 1 if tier == "quick" else 6
	lon = lambda: rng.choice([0,0,1,37,90,123,179,180,181,250,359,-40]); lat = lambda: rng.choice([0,10,-35,60,-72,88,-90,90])
	pts = lambda n, big=90: [[lon(), max(-big,min(big,lat()))] for _ in range(n)]
	cen = lambda: [rng.choice([0,20,90,200,-75]),rng.choice([-60,-15,0,30,45,90]),rng.choice([0,0,50,180,-130]),rng.choice([90,0,0,-40,70,-90])]
	for g in gen["hist"]: yield dict(k="hist", a=dict(ops=g["hist"], pts=pts(rng.randint(1,5)), names=rng.randint(0,4), dt=rng.choice(["f8","f8","list"])))
	def op():
		o = rng.choice(["rot","rot","sys","sys","rec","dec"])
		if o == "rot": return dict(op=o, kind=list("zyz"), c=[rng.randint(-180,180) for _ in range(3)])
		if o == "sys": f, t = rng.sample(["equ","gal","ecl"],2); return dict(op=o, **{"from":f,"to":t})
		return dict(op=o, c=cen(), restore=False)
	for _ in range(220*N):
		pol, mag = rng.choice([(True,False),(True,True),(True,True),(False,True)])
		yield dict(k="pol", a=dict(op=op(), pts=pts(rng.randint(1,4),75), pol=pol, mag=mag, base=rng.choice([0,0,25,-100]), mag0=rng.choice([U,U,2*U]), how=rng.choice(["flag","coords"]), hand=rng.choice(["L","L","R"])))
	for _ in range(60*N):
		yield dict(k="chain", a=dict(sys=[rng.choice(["equ","gal","ecl"]) for _ in range(3)], c=cen(), ref=rng.choice(["","2","4"]), pts=pts(3,75)))
	for _ in range(150*N):
		n = rng.choice([1,1,3])
		yield dict(k="named", a=dict(c=[cen() for _ in range(n)], pts=pts(n), restore=rng.random() < 0.4, two=False, how=rng.choice(["fun","fun","list","str","side","bore"]), lst=rng.random() < 0.3))
	for _ in range(120*N):
		sh = [rng.randint(1,3) for _ in range(rng.randint(0,3))]
		yield dict(k="shape", a=dict(sh=sh, how=rng.choice(["sys","raw","rawnt","euler","rec","cens","time","bore","ref","int"]), seed=rng.randint(0,10**6), f=rng.choice(["equ","gal","ecl"]), t=rng.choice(["equ","gal","ecl"]), tsh=rng.choice(["full","one","last"])))
	for _ in range(40*N):
		sh = [rng.randint(1,3) for _ in range(rng.randint(0,2))]
		yield dict(k="mat", a=dict(sh=sh, axis=rng.choice("xyz"), num=rng.choice([0,1,2]), ax=rng.randint(-len(sh)-1,len(sh)), angs=[rng.randint(-360,720) for _ in range(int(np.prod(sh)))]))
	for _ in range(80*N):
		yield dict(k="ang", a=dict(p=[lon(),lat(),lon(),lat()], zenith=rng.random() < 0.4, axis=rng.choice([0,-1,1]), eps=rng.randint(2,8)))
	for _ in range(60*N):
		nc = rng.choice([2,3,4]); comps = rng.choice([[nc-2,nc-1],[0,1],[nc-1,0]])
		yield dict(k="spol", a=dict(nc=nc, comps=comps, neg=comps == [nc-2,nc-1], spin=rng.choice([0,1,2,2,-2,3]), ang=rng.randint(-180,180), axis=rng.choice([-3,0,1]), pre=rng.choice([0,2]), seed=rng.randint(0,10**6), perpix=rng.random() < 0.3))
def call(o, p, inv=False, names=0):
	if o["op"] == "sys":
		f, t = o["from"], o["to"]
		if inv: f, t = t, f
		nm = lambda s: NAMES[s][names%len(NAMES[s])]
		return coordinates.transform(nm(f), nm(t), p)
	if o["op"] == "rot":
		kind, c = "".join(o["kind"]), np.array(o["c"])*D
		return coordinates.euler_rot(-c[::-1] if inv else c, p, kind=kind[::-1] if inv else kind)
	fun = coordinates.recenter if (o["op"] == "rec") != inv else coordinates.decenter
	return fun(p, np.array(o["c"])*D, restore=o["restore"])
def rect(p): return [[q(x,U) for x in v] for v in vec(p).reshape(3,-1).T]
def nano(x): return q(min(float(np.max(np.abs(x),initial=0)),2.0),1e9)
def wrap(x): return (np.asarray(x)+np.pi)%(2*np.pi)-np.pi
def run(k, a):
	if k == "hist":
		p0 = np.array(a["pts"],float).T*D; p = p0.tolist() if a["dt"] == "list" else p0.copy(); same = True; ok = True
		for o in a["ops"]:
			before = np.array(p); r = call(o, p, names=a["names"]); same &= bool(np.all(before == np.array(p))); p = np.asarray(r)
			ok &= bool(np.all(np.abs(p[1]) <= np.pi/2+1e-9))
		u = p
		for o in a["ops"][::-1]: u = call(o, u, inv=True)
		return dict(rect=rect(p), undo=nano(dist(np.asarray(u),p0)), dist=nano(pairs(p)-pairs(p0)) if p.shape[1] > 1 else 0, lat=ok, same=same)
	if k == "pol":
		o, p0 = a["op"], np.array(a["pts"],float).T*D; pol, mag = a["pol"], a["mag"]
		base, mag0 = a["base"]*D, a["mag0"]/U
		rows = [p0[0],p0[1]]
		if a["how"] == "coords" and not pol: a = dict(a, how="flag")
		if a["base"] or a["mag0"] != U or a["how"] == "coords":
			rows.append(p0[0]*0+base)
			if mag: rows.append(p0[0]*0+mag0)
		inp = np.array(rows); keep = inp.copy(); sgn = 1
		kw = dict(pol=pol, mag=mag) if a["how"] == "flag" else {}
		if a["how"] == "coords" and not mag: kw = {}
		def both(inv, x, kw):
			if o["op"] == "sys":
				f, t = o["from"], o["to"]
				if inv: f, t = t, f
				return coordinates.transform(f, t, x, **kw)
			if o["op"] == "rot":
				c = np.array(o["c"])*D
				return coordinates.transform_euler(-c[::-1] if inv else c, x, **kw)
			ref = [np.array(o["c"])*D,False]; there = (o["op"] == "rec") != inv; s = "tele" if a["hand"] == "R" else "equ"
			return coordinates.transform(s if there else [s,ref], [s,ref] if there else s, x, **kw)
		if o["op"] in ("rec","dec") and a["hand"] == "R": sgn = -1
		res = np.asarray(both(False, inp, kw)); out = res[:2]
		d = dict(rect=rect(out), rows=len(res), same=bool(np.all(inp == keep)), cosout=[q(x,U) for x in np.cos(out[1])])
		far = np.abs(out[1]) < 80*D
		if pol: ang = sgn*(res[2]-(base if len(inp) > 2 else 0))+base; d["cs"] = [[q(np.cos(x),U),q(np.sin(x),U)] for x in ang]
		if mag: d["mag"] = [q(min(x,20.0),U) for x in res[-1]]
		# the value a call starts from is only what was passed in
		if mag and len(inp) < 4: d["mag"] = [q(min(x*mag0,20.0),U) for x in res[-1]]
		if pol or mag:
			x = np.array(res) if pol else np.array([res[0],res[1]]); b = np.asarray(both(True, x, dict(pol=pol,mag=mag)))
			start = base if len(inp) > 2 else 0
			if pol: d["turnback"] = nano(wrap(b[2]-start)[far])
			if mag:
				m0 = mag0 if len(inp) > 3 else 1
				d["magback"] = nano((b[-1]/m0-1)[far]) if pol else nano((b[-1]*res[-1]/m0-1)[far])
		# directions at a pole are undefined
		d["far"] = [bool(v) for v in far]
		return d
	if k == "chain":
		s = a["sys"]; p = np.array(a["pts"],float).T*D
		def nm(x, i): return x if not a["ref"] or i != 1 else x+":%d_%d" % tuple(a["c"][:2])+("" if a["ref"] == "2" else "/%d_%d" % tuple(a["c"][2:]))
		s = [nm(x,i) for i,x in enumerate(s)]
		p1 = coordinates.transform(s[0], s[1], p, pol=True); p2 = coordinates.transform(s[1], s[2], p1); p3 = coordinates.transform(s[0], s[2], p, pol=True)
		far = (np.abs(p1[1]) < 80*D)&(np.abs(p2[1]) < 80*D)
		return dict(dev=nano(dist(p2[:2],p3[:2])), dturn=nano(wrap(p2[2]-p3[2])[far]))
	if k == "named":
		c, p = np.array(a["c"],float).T*D, np.array(a["pts"],float).T*D; n = c.shape[1]; r = a["restore"]; one = n == 1
		cc = c[:,0] if one else c
		if a["lst"]: cc = [x for x in cc]
		keep = np.array(cc); pk = p.copy(); how = a["how"]
		if how in ("str","bore","side") and not one: how = "list"
		if how == "bore" and (a["c"][0][2:] != [0,90] or r): how = "fun"
		if how == "str" and r: how = "side"
		if how == "side" and not r: how = "str"
		if how == "list" and r: how = "fun"
		def there(x):
			if how == "fun": return coordinates.recenter(x, cc, restore=r)
			if how == "list": return coordinates.transform("equ", ["equ",[cc,r]], x)
			if how == "str": return coordinates.transform("equ", "equ:%d_%d/%d_%d" % tuple(a["c"][0]), x)
			if how == "bore": return coordinates.transform("tele", "bore", x, bore=cc[:2])
			return coordinates.transform("bore", "sidelobe:%d_%d/%d_%d" % tuple(a["c"][0]), x, bore=np.zeros(2), pol=a["lst"])[:2]
		def back(x):
			if how == "fun": return coordinates.decenter(x, cc, restore=r)
			if how == "list": return coordinates.transform(["equ",[cc,r]], "equ", x)
			if how == "str": return coordinates.transform("equ:%d_%d/%d_%d" % tuple(a["c"][0]), "equ", x)
			if how == "bore": return coordinates.transform("bore", "tele", x, bore=cc[:2])
			return coordinates.transform("sidelobe:%d_%d/%d_%d" % tuple(a["c"][0]), "bore", x, bore=np.zeros(2))
		img = there(c[:2]); out = there(p); img2 = there(c[:2])
		return dict(img=[[q(v/D,1e6) for v in x] for x in np.asarray(img).T], rect=rect(out), dev=nano(dist(back(out),p)), again=bool(np.all(img == img2)), same=bool(np.all(np.array(cc) == keep) and np.all(p == pk)))
	if k == "shape":
		rng = np.random.default_rng(a["seed"]); sh = tuple(a["sh"]); p = np.array([rng.uniform(-3,3,sh),rng.uniform(-1.4,1.4,sh)]); n = p[0].size
		f, t, how = a["f"], a["t"], a["how"]; extra = p; fl = lambda x: np.asarray(x).reshape(2,-1)
		if how == "int": p = np.array([rng.integers(-3,4,sh),rng.integers(-1,2,sh)])
		if len(sh) == 0 and how in ("time",): how = "sys"
		cens = np.array([rng.uniform(-3,3,sh),rng.uniform(-1.4,1.4,sh)])
		tsh = dict(full=sh, one=(1,)*len(sh), last=sh[-1:])[a["tsh"]]
		funs = dict(sys=lambda x, i: coordinates.transform(f, t, x), raw=lambda x, i: coordinates.transform_raw(f, t, x, time=55500), rawnt=lambda x, i: coordinates.transform_raw(f, t, x),
			int=lambda x, i: coordinates.transform_raw(f, t, x), euler=lambda x, i: coordinates.transform_euler([.3,.7,-1.1], x), rec=lambda x, i: coordinates.recenter(x, np.array([.4,.2])),
			cens=lambda x, i: coordinates.recenter(x, cens if i is None else fl(cens)[:,i]), time=lambda x, i: coordinates.transform(f, t, x, time=55500. if i is not None else 55500+np.zeros(tsh)),
			bore=lambda x, i: coordinates.transform("tele", "bore", x, bore=cens if i is None else fl(cens)[:,i]),
			ref=lambda x, i: coordinates.transform(f, t+":10_20", x, time=55500. if i is not None else 55500+np.zeros(tsh)))
		keep = p.copy(); res = np.asarray(funs[how](p, None)); same = bool(np.all(keep == p))
		each = np.array([np.asarray(funs[how](fl(p)[:,i].astype(float), i)) for i in range(n)]).T
		return dict(sh=list(res.shape), want=[2]+list(sh), dev=nano(dist(fl(res),fl(each))) if res.size == each.size else 2000000000, same=same)
	if k == "mat":
		sh = tuple(a["sh"]); ang = np.array(a["angs"],float).reshape(sh)*D; ax = a["ax"]
		m = utils.rotmatrix(ang, a["axis"] if a["num"] == 0 else a["axis"].upper() if a["num"] == 2 else "xyz".index(a["axis"]), axis=ax)
		pos = ax if ax >= 0 else ang.ndim+1+ax
		want = list(sh[:pos])+[3,3]+list(sh[pos:])
		mm = np.moveaxis(m, (pos,pos+1), (-2,-1)).reshape(-1,3,3) if list(m.shape) == want else np.zeros((0,3,3))
		return dict(sh=list(m.shape), want=want, m=[[[q(v,U) for v in row] for row in x] for x in mm])
	if k == "ang":
		p = np.array(a["p"],float)*D; z = a["zenith"]; conv = lambda x: np.array([x[0],np.pi/2-x[1] if z else x[1]]); ax = a["axis"]
		P = np.array([conv(p[:2]),conv(p[2:])]).T # [2,n]
		x = P if ax == 0 else P.T
		v = utils.ang2rect(x, zenith=z, axis=ax); b = utils.rect2ang(v, zenith=z, axis=ax)
		V = v if ax == 0 else v.T; B = b if ax == 0 else b.T; un = lambda y: np.array([y[0],np.pi/2-y[1] if z else y[1]])
		d1 = utils.angdist(P[:,0], P[:,1], zenith=z); d1b = utils.angdist(P[:,1], P[:,0], zenith=z)
		d1c = utils.angdist(x[:1] if ax else x[:,:1], x[1:] if ax else x[:,1:], zenith=z, axis=ax)
		d2 = utils.vec_angdist(V[:,0], V[:,1])
		e = 10.0**-a["eps"]; lo = np.clip(p[1], -1.5, 1.5)
		s1 = utils.angdist(conv([p[0],lo]), conv([p[0],lo+e]), zenith=z)/e-1; s2 = utils.angdist(conv([p[0],0]), conv([p[0]+e,0]), zenith=z)/e-1
		s = max(abs(s1),abs(s2))*min(1,e*1e6) # relative accuracy limited by the accuracy of the angles themselves
		return dict(v=[q(y,U) for y in V[:,0]], back=nano(dist(un(B),np.array([p[:2],p[2:]]).T)), cosd=q(np.cos(d1),U), cosv=q(np.cos(d2),U), agree=nano((d1-d2)*1e-0) if min(d1,np.pi-d1) > 1e-3 else nano((d1-d2)*1e-3), small=nano(s*1e-1), sym=nano(max(abs(d1-d1b),abs(float(np.ravel(d1c)[0])-d1))))
	if k == "spol":
		rng = np.random.default_rng(a["seed"]); ny, nx = 2, 3; nc = a["nc"]; axis = a["axis"]
		sh = (nc,ny,nx) if axis in (-3,0) else (2,nc,ny,nx)
		if axis == -3 and a["pre"]: sh = (2,)+sh
		m = enmap.ndmap(rng.integers(-9,10,sh).astype(float), enmap.geometry(np.array([[-1,1],[1,-1]])*D, shape=(ny,nx), proj="car")[1]); keep = m.copy()
		comps = [c-nc for c in a["comps"]] if a["neg"] else a["comps"]; ang = a["ang"]*D+(np.zeros((ny,nx)) if a["perpix"] else 0)
		r = enmap.rotate_pol(m, ang, comps=comps, spin=a["spin"], axis=axis); b = enmap.rotate_pol(r, -ang, comps=comps, spin=a["spin"], axis=axis)
		f = lambda x, s: [[q(v,s) for v in y] for y in np.moveaxis(np.asarray(x), axis%m.ndim, 0).reshape(nc,-1)]
		return dict(old=f(keep,1), new=f(r,U), same=bool(np.all(m == keep)), back=nano(b-keep))
