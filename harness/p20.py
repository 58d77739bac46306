"""P20 multimaps"""
import random, os, tempfile, numpy as np
from pixell import multimap, enmap, wcsutils, utils
from lib import q, qf
TRACE = "TraceP20"
MC  = [dict(module="MultimapMC", cfg="MultimapMC.cfg", min_states=10000)]
GEN = [dict(name="hist", module="MultimapGen", cfg="MultimapGen.cfg", simulate=400, depth=18, min=250, thorough_factor=5)]
ASSUMPTIONS = ["members without pixels are not written to files"]
SHAPES = [(1,1),(2,3),(3,2),(1,4),(2,2),(0,3)]
def wcsof(g):
	w = wcsutils.WCS(naxis=2); w.wcs.ctype = ["RA---CAR","DEC--CAR"]; w.wcs.crval = [g,0]; w.wcs.cdelt = [-0.5-0.25*g,0.5+0.125*g]; w.wcs.crpix = [1.5,1+g]; w.wcs.set()
	return w
WCS = {g+1: wcsof(g+1) for g in range(len(SHAPES))}
def geo(g, pre=()): return enmap.Geometry(tuple(pre)+SHAPES[g-1], WCS[g])
def gid(m):
	"""which geometry a map has, 0 for none of them"""
	for g in WCS:
		if tuple(m.shape[-2:]) == SHAPES[g-1] and wcsutils.equal(m.wcs, WCS[g]): return g
	return 0
def build(x, pre, geos):
	"""A multimap through the list of its members, from values in the order of the flat view"""
	x = np.array(x).reshape(tuple(pre)+(sum(SHAPES[g-1][0]*SHAPES[g-1][1] for g in geos),)); maps = []; off = 0
	for g in geos:
		n = SHAPES[g-1][0]*SHAPES[g-1][1]
		maps.append(enmap.ndmap(x[...,off:off+n].reshape(tuple(pre)+SHAPES[g-1]).copy(), WCS[g])); off += n
	return maps

def cases(tier, seed, gen):
	rng = random.Random(seed); N = 1 if tier == "quick" else 6
	for g in gen["hist"]:
		yield dict(k="hist", a=dict(hist=g["hist"], dt=rng.choice(["f8","f4","i4","i8"]), style=rng.randint(0,99)))
	def some():
		geos = [rng.randint(1,5) for _ in range(rng.randint(1,4))]; pre = rng.choice([[],[2],[3],[1,2],[2,2]])
		return geos, pre
	def tot(geos): return sum(SHAPES[g-1][0]*SHAPES[g-1][1] for g in geos)
	for _ in range(60*N):
		geos, pre = some(); f = rng.choice(["max","min","mean","median","var","std"])
		yield dict(k="stat", a=dict(geos=geos, pre=pre, f="var" if f == "std" else f, fn=f, x=[rng.randint(-20,20) for _ in range(tot(geos)*int(np.prod(pre)))]))
	for _ in range(200*N):
		geos, pre = some(); f = rng.choice(["posmap","pixmap","lmap","modlmap","modrmap","pixsizemap","fft","ifft","dct","idct","fft_adjoint","ifft_adjoint","map2harm","harm2map","map2harm_adjoint","harm2map_adjoint","rotate_pol","mposmap","mpixmap","mlmap","mmodlmap","mmodrmap","queb","roundtrip","opt_lmap","opt_modlmap","opt_modrmap","opt_posmap","phys","keep_imag","physall","physall"])
		if f in ("map2harm","harm2map","map2harm_adjoint","harm2map_adjoint","rotate_pol","keep_imag","physall"): pre = rng.choice([[3],[3],[2,3]])
		if f in ("dct","idct"): geos = [rng.choice([2,3,5]) for _ in geos]
		yield dict(k="each", a=dict(f=f, geos=geos, pre=pre, x=[rng.randint(-9,9) for _ in range(tot(geos)*int(np.prod(pre)))], v=rng.randint(0,5), norm=rng.choice([True,False]), iau=rng.random() < 0.4, cplx=rng.random() < 0.5))
	for _ in range(30*N):
		geos, pre = some(); n = rng.randint(1,3); w = tot(geos)
		yield dict(k="matmul", a=dict(geos=geos, n=n, mat=[rng.randint(-5,5) for _ in range(n*n*w)], x=[rng.randint(-9,9) for _ in range(n*w)]))
	for op in ("make","zeros","empty","full"): yield dict(k="none", a=dict(op=op))
	for _ in range(15): yield dict(k="range", a=dict(geos=[rng.randint(1,5) for _ in range(rng.randint(1,4))], i=rng.randint(-7,7)))
	for op in ("make","zeros"):
		yield dict(k="refuse", a=dict(op=op))

def values(o): return [int(v) for v in np.asarray(o).reshape(-1)]
def run(k, a):
	if k == "refuse":
		try:
			if a["op"] == "make": multimap.multimap([enmap.ndmap(np.zeros((2,)+SHAPES[1]),WCS[2]), enmap.ndmap(np.zeros(SHAPES[1]),WCS[2])])
			else: multimap.zeros([geo(1,(2,)), geo(2)])
		except ValueError: return dict(refused=True)
		return dict(refused=False)
	if k == "none":
		m = dict(make=lambda: multimap.multimap([]), zeros=lambda: multimap.zeros([]), empty=lambda: multimap.empty([]), full=lambda: multimap.full([],3))[a["op"]]()
		return dict(nmap=m.nmap, ntot=int(m.ntot), n=len(list(m.maps)), size=int(m.size))
	if k == "range":
		m = multimap.multimap([enmap.ndmap(np.full(SHAPES[g-1],j+1.),WCS[g]) for j,g in enumerate(a["geos"])])
		try: r = m.maps[a["i"]]; return dict(ok=True, v=[int(v) for v in np.unique(np.asarray(r))], g=gid(r))
		except IndexError: return dict(ok=False, v=[], g=0)
	if k == "hist":
		objs, steps = [], []; st = random.Random(a["style"]); tmp = None
		for e in a["hist"]:
			op = e["op"]; o = objs[e["o"]-1] if objs else None; p = objs[e["p"]-1] if objs else None; v = e["v"]; i, j = e["i"]-1, e["j"]-1
			pre, geos = tuple(e["pre"]), e["geos"]; n = int(np.prod(pre))*sum(SHAPES[g-1][0]*SHAPES[g-1][1] for g in geos)
			new = None; x = ""
			if o is not None and not isinstance(o, np.ndarray): o = np.asarray(o)
			neg = st.random() < 0.3
			def mi(): return i-o.nmap if neg else i
			def ej(m): return j-len(m) if neg else j
			try:
				if op == "make": new = multimap.multimap(build(np.arange(n).astype(a["dt"])+(v+1), pre, geos))
				elif op == "zeros":
					new = multimap.zeros([geo(g,pre) for g in geos], dtype=a["dt"])
					if st.random() < 0.3: new = multimap.empty([geo(g,pre) for g in geos], dtype=a["dt"]); new[...] = 0
				elif op == "full":  new = multimap.full([geo(g,pre) for g in geos], v, dtype=a["dt"])
				elif op == "fulls": new = multimap.full([geo(g,pre) for g in geos], [v+k+1 for k in range(len(geos))], dtype=a["dt"])
				elif op == "member":new = o.maps[mi()]
				elif op == "ment":  new = o.maps[(mi(),j)] if st.random() < 0.5 else o.maps[mi()][j]
				elif op == "entry": new = o[i-len(o)] if neg else o[i]
				elif op == "copy":  new = o.copy() if st.random() < 0.5 or not hasattr(o,"contig") else multimap.ndmaps(o.contig().copy(), o.geometries)
				elif op == "relist":new = multimap.multimap(list(o.maps) if st.random() < 0.5 else [m for m in o.maps])
				elif op == "file":
					with tempfile.TemporaryDirectory() as tmp:
						f = os.path.join(tmp, "sub" if neg else "", "m.fits"); multimap.write_map(f, o, extra={"FOO":1}); new = multimap.read_map(f)
						# members can also be read one by one
						for m in range(o.nmap):
							if not np.array_equal(enmap.read_map(f, hdu=m), o.maps[m]): new = new*0-1
				elif op == "plus":  new = o+v if st.random() < 0.5 else v+o if st.random() < 0.5 else np.add(o,v)
				elif op == "times": new = o*2 if st.random() < 0.5 else o+o
				elif op == "neg":   new = -o
				elif op == "add":   new = o+p
				elif op == "sum":   new = np.sum(o,0) if st.random() < 0.5 else o.sum(0)
				elif op == "iadd":  o += v
				elif op == "fill":  o[...] = v
				elif op == "set1":  I = np.unravel_index(i, o.shape); o[I] = v
				elif op == "setm":
					n = int(np.prod(o.shape[:-1]))*int(np.prod(o.maps[i].shape[-2:])); val = (np.arange(n)+v+1).reshape(o.maps[i].shape)
					if st.random() < 0.5: o.maps[mi()] = val
					else: o.maps[mi()][...] = val
				elif op == "setme":
					if st.random() < 0.5: o.maps[(mi(),j)] = v
					else: o.maps[mi()][j] = v
				elif op == "assign": o[...] = p
			except Exception as ex:
				x = type(ex).__name__
			b = dict(x=x, mm=False, pre=[], geos=[], all=[], nmap=[], ntot=[])
			if new is not None and not x:
				mm = isinstance(new, multimap.ndmaps); objs.append(new); b["mm"] = mm
				try: b["pre"] = list(new.shape[:-1] if mm else new.shape[:-2]); b["geos"] = [gid(m) for m in new.maps] if mm else [gid(new)]
				except Exception as ex: b["x"] = type(ex).__name__
			if not b["x"]:
				b["all"]  = [values(y) for y in objs]
				b["nmap"] = [y.nmap if isinstance(y, multimap.ndmaps) else 1 for y in objs]
				b["ntot"] = [int(y.ntot) if isinstance(y, multimap.ndmaps) else int(np.prod(y.shape[-2:])) for y in objs]
			steps.append(b)
			if b["x"]: break
		return dict(steps=steps)
	if k == "stat":
		mm = multimap.multimap(build(np.array(a["x"],float), a["pre"], a["geos"]))
		r = getattr(multimap, a["fn"])(mm)
		if a["fn"] == "std": r = r**2
		ok = r.shape == (len(a["geos"]),)+tuple(a["pre"])
		return dict(v=qf(r,1000) if ok else [])
	if k == "matmul":
		n, w = a["n"], len(a["x"])//a["n"]
		vec = multimap.multimap(build(np.array(a["x"]), [n], a["geos"])); mat = multimap.multimap(build(np.array(a["mat"]), [n,n], a["geos"]))
		r = multimap.map_mul(mat, vec)
		return dict(v=[int(v) for v in np.asarray(r).reshape(-1)], geos=[gid(m) for m in r.maps])
	if k == "each":
		f, geos, pre = a["f"], a["geos"], a["pre"]; x = np.array(a["x"], float)
		if a["cplx"] and (f in ("fft","ifft","harm2map","map2harm_adjoint","fft_adjoint","ifft_adjoint") or f == "physall" and a["v"] in (1,2,4)): x = x*(1+0.5j)
		maps = build(x, pre, geos); mm = multimap.multimap(maps); m0 = mm.copy(); G = [geo(g) for g in geos]
		if f in ("posmap","pixmap"): r = getattr(multimap,f)(G); parts = [getattr(enmap,f)(*g) for g in G]
		elif f in ("mposmap","mpixmap"): r = getattr(mm,f[1:])(); parts = [getattr(enmap,f[1:])(*g) for g in G]
		elif f in ("lmap","modlmap","pixsizemap"): r = getattr(multimap,f)(G); parts = [getattr(enmap,f)(*g) for g in G]
		elif f in ("mlmap","mmodlmap"): r = getattr(mm,f[1:])(); parts = [getattr(enmap,f[1:])(*g) for g in G]
		elif f == "modrmap": r = multimap.modrmap(G); parts = [enmap.modrmap(*g) for g in G]
		elif f == "mmodrmap": r = mm.modrmap(); parts = [enmap.modrmap(*g) for g in G]
		elif f in ("fft","ifft","fft_adjoint","ifft_adjoint"): r = getattr(multimap,f)(mm, normalize=a["norm"]); parts = [getattr(enmap,f)(m, normalize=a["norm"]) for m in maps]
		elif f in ("dct","idct"): r = getattr(multimap,f)(mm, normalize=a["norm"]); parts = [getattr(enmap,f)(m, normalize=a["norm"]) for m in maps]
		elif f == "roundtrip": r = multimap.ifft(multimap.fft(mm)).real; parts = maps
		elif f in ("map2harm","harm2map","map2harm_adjoint","harm2map_adjoint"): r = getattr(multimap,f)(mm, normalize=a["norm"], iau=a["iau"]); parts = [getattr(enmap,f)(m, normalize=a["norm"], iau=a["iau"]) for m in maps]
		elif f == "rotate_pol": r = multimap.rotate_pol(mm, a["v"]/7.); parts = [enmap.rotate_pol(m, a["v"]/7.) for m in maps]
		elif f in ("opt_lmap","opt_modlmap"): f = f[4:]; o = dict(oversample=1+a["v"]%2); r = getattr(mm,f)(**o) if a["iau"] else getattr(multimap,f)(G,**o); parts = [getattr(enmap,f)(*g,**o) for g in G]
		elif f == "opt_modrmap": o = dict(corner=a["cplx"], ref=[0.01,0.02] if a["norm"] else "center"); r = mm.modrmap(**o) if a["iau"] else multimap.modrmap(G,**o); parts = [enmap.modrmap(*g,**o) for g in G]
		elif f == "opt_posmap": o = dict(corner=a["cplx"], safe=a["norm"]); r = mm.posmap(**o) if a["iau"] else multimap.posmap(G,**o); parts = [enmap.posmap(*g,**o) for g in G]
		elif f == "phys": r = multimap.fft(mm, normalize="phys")*100; parts = [enmap.fft(m, normalize="phys")*100 for m in maps]
		elif f == "physall":
			g = ["map2harm","harm2map","map2harm_adjoint","harm2map_adjoint","fft_adjoint","ifft_adjoint"][a["v"]]
			o = dict(normalize="phys"); o.update(dict(iau=a["iau"], spin=[0,1] if a["norm"] else [2,0]) if "harm" in g else {})
			r = getattr(multimap,g)(mm, **o); parts = [getattr(enmap,g)(m, **o) for m in maps]
			sc = 100/(max([float(np.max(np.abs(p_))) for p_ in parts]) or 1); r = r*sc; parts = [p_*sc for p_ in parts]
		elif f == "keep_imag": r = multimap.harm2map(mm, iau=a["iau"], keep_imag=True); parts = [enmap.harm2map(m, iau=a["iau"], keep_imag=True) for m in maps]
		elif f == "queb": l = multimap.lmap(G); r = multimap.queb_rotmat(l, iau=a["iau"], inverse=a["cplx"]); parts = [enmap.queb_rotmat(enmap.lmap(*g), iau=a["iau"], inverse=a["cplx"]) for g in G]
		p = np.concatenate([np.asarray(m).reshape(m.shape[:-2]+(-1,)) for m in parts],-1)
		sc = 1000 if f not in ("lmap","modlmap","mlmap","mmodlmap") else 10
		if r.shape != p.shape: return dict(v=[-1], parts=[1], geos=[], same=False, mm=False)
		both = lambda z: qf(z.real,sc)+(qf(z.imag,sc) if np.iscomplexobj(z) else [])
		return dict(v=both(np.asarray(r)), parts=both(p), geos=(geos if [m.shape for m in r.maps] == [m.shape for m in parts] else []) if a["f"] in ("opt_lmap","opt_modlmap") else [gid(m) for m in r.maps], same=bool(np.array_equal(mm,m0)), mm=isinstance(r, multimap.ndmaps))
