"""P06 maps as arrays: histories of copies, views, arithmetic and changes, and single array operations"""
import random, copy, pickle, operator, numpy as np
from pixell import enmap, utils, wcsutils
from lib import q, qf
import geo
from geo import wkey
TRACE = "TraceP06"
MC  = [dict(module="ContainerMC", cfg="ContainerMC.cfg", min_states=10000)]
GEN = [dict(name="hist", module="ContainerGen", cfg="ContainerGen.cfg", simulate=900, depth=14, min=300, thorough_factor=6)]
ASSUMPTIONS = ["numpy evaluates operations on plain arrays correctly"]

BIN = ["add","subtract","multiply","maximum","minimum","greater","less","equal","not_equal","greater_equal","less_equal","floor_divide","mod","logical_and","logical_or"]
UN  = ["negative","absolute","square","sign","logical_not","isfinite","conj"]
RED = ["sum","max","min","any","all","mean"]
OPER = {"add":"add","subtract":"sub","multiply":"mul","greater":"gt","less":"lt","equal":"eq","not_equal":"ne","greater_equal":"ge","less_equal":"le","floor_divide":"floordiv","mod":"mod"}

def cases(tier, seed, gen):
	rng = random.Random(seed)
	N = 1 if tier == "quick" else 8
	for h in gen["hist"]:
		yield dict(k="hist", a=dict(n=h["n"], hist=h["hist"], geo=rng.choice(geo.KINDS), dt=rng.choice(["f8","f4","i8","i4"])))
	for it in range(1500*N):
		pre = [rng.randint(1,3) for _ in range(rng.choice([0,0,1,1,2,3]))]
		a = dict(n=pre+[rng.randint(1,3), rng.randint(1,3)], geo=rng.choice(geo.KINDS), dt=rng.choice(["f8","f4","i8","i4","c16"]), seed=rng.randint(0,10**6), swap=False)
		op = rng.choice(["bin"]*5+["un","red","red","red","cum"]+["same"]*4+["stack","flat","fill","fillbad","mul"])
		a["op"] = op
		if op == "bin":
			a["f"] = rng.choice(BIN); a["swap"] = rng.random() < 0.4; a["how"] = rng.choice(["ufunc","oper","out"])
			a["with"] = rng.choice(["map","map","arr","scalar"])
			a["n2"] = [] if a["with"] == "scalar" else [d if rng.random()<0.8 else 1 for d in a["n"]][rng.choice([0,0,max(0,len(a["n"])-2)]):]
			if a["with"] == "map": a["n2"] = a["n2"][:-2]+a["n"][-2:]
		elif op == "un": a["f"] = rng.choice(UN)
		elif op == "red":
			a["f"] = rng.choice(RED); a["keep"] = rng.random() < 0.3; a["how"] = rng.choice(["meth","func"])
			nd = len(a["n"])
			a["axes"] = sorted(rng.sample(range(nd), rng.randint(1,nd))) if rng.random() < 0.3 or nd == 2 else sorted(rng.sample(range(nd-2), rng.randint(1,nd-2)))
			a["neg"] = rng.random() < 0.3
		elif op == "cum": a["axes"] = [rng.randrange(len(a["n"]))]
		elif op == "same": a["f"] = rng.choice(["copy","copyF","copymod","deepcopy","pickle","astype","astypef4","enmap","enmapnc","samewcs","ndmap","pos","reshape","swap","enmapwcs","copyto","T","vals"])
		elif op == "stack": a["m"] = rng.randint(1,3); a["f"] = rng.choice(["list","wcs"])
		elif op == "fill": a["c"] = rng.choice([0,3]); a["f"] = rng.choice(["zeros","full","like","gzeros"])
		elif op == "fillbad": a["c"] = rng.choice([0,5]); a["inplace"] = rng.random() < 0.5; a["meth"] = rng.random() < 0.5; a["dt"] = "f8"
		elif op == "mul":
			A = rng.randint(1,3); k = [] if rng.random()<0.5 else [rng.randint(1,2)]
			a["n2"] = k+[A]+a["n"][-2:]; a["n"] = k+[A,A]+a["n"][-2:]
			if rng.random() < 0.4: a["n"] = a["n"][len(k):]
		if op == "bin" and a["dt"] == "c16" or op in ("un","red","mul") and a["dt"] == "c16": a["dt"] = "f8"
		yield dict(k="op", a=a)

def run(k, a): return hist(a) if k == "hist" else single(a)

def hist(a):
	n = a["n"]
	w = geo.mkwcs(a["geo"], n[0], n[1])
	objs = [enmap.ndmap((((7*np.arange(1,n[0]*n[1]+1))%11)-4).astype(a["dt"]).reshape(n), w)]
	g0 = np.array(w.wcs.crpix[::-1])
	k0 = wkey(w)
	def snap():
		res = []
		for m in objs:
			r = dict(d=qf(np.asarray(m)), n=list(m.shape), ismap=isinstance(m, enmap.ndmap) and m.dtype == np.dtype(a["dt"]))
			if r["ismap"]:
				kk = wkey(m.wcs)
				d = np.array(m.wcs.wcs.crpix[::-1])-g0
				r["g"] = q(d) if np.all(d==np.round(d)) and kk[:3]+kk[4:] == k0[:3]+k0[4:] else [77777,77777]
			else: r["g"] = [88888,88888]
			res.append(r)
		return res
	F = dict(add=operator.add, sub=operator.sub, mul=operator.mul, max=np.maximum, min=np.minimum)
	snaps = []
	for o in a["hist"]:
		op, m = o["op"], objs[o["i"]-1]
		if   op == "copy": objs.append(m.copy())
		elif op == "deepcopy": objs.append(copy.deepcopy(m))
		elif op == "shallow": objs.append(copy.copy(m))
		elif op == "pickle": objs.append(pickle.loads(pickle.dumps(m)))
		elif op == "enmap": objs.append(enmap.enmap(m))
		elif op == "plus0": objs.append(m+m.dtype.type(0))
		elif op == "rows": objs.append(m[o["lo"]:o["hi"]])
		elif op == "cols": objs.append(m[...,o["lo"]:o["hi"]])
		elif op == "bin": objs.append(F[o["f"]](m, objs[o["j"]-1]))
		elif op == "binc": objs.append(F[o["f"]](m, m.dtype.type(o["c"])))
		elif op == "rbinc": objs.append(F[o["f"]](m.dtype.type(o["c"]), m))
		elif op in ("ibin","ibinc"):
			x = objs[o["j"]-1] if op == "ibin" else m.dtype.type(o["c"])
			if   o["f"] == "add": m += x
			elif o["f"] == "sub": m -= x
			else: m *= x
			objs[o["i"]-1] = m
		elif op == "set":
			y, x = divmod(o["k"]-1, m.shape[1]); m[y,x] = o["c"]
		elif op == "assign": m[:] = objs[o["j"]-1]
		elif op == "geo":
			m.wcs.wcs.crpix[0] += o["d"][1]; m.wcs.wcs.crpix[1] += o["d"][0]
		snaps.append(snap())
	return dict(snaps=snaps)

def single(a):
	r = np.random.default_rng(a["seed"])
	rng = random.Random(a["seed"])
	n, op = a["n"], a["op"]
	w = geo.mkwcs(a["geo"], n[-2], n[-1])
	def mk(n, dt=a["dt"], nz=False):
		v = r.integers(-4, 5, n)
		if nz: v = np.where(v==0, 7, v)
		if dt == "c16": v = v+1000*r.integers(-4,5,n)*1j
		return np.array(v, dt)
	def dat(x):
		x = np.asarray(x)
		if x.dtype.kind == "c": return qf(x.real+x.imag)
		return qf(x)
	m = enmap.ndmap(mk(n), w)
	k0 = wkey(w)
	ins = [m]
	res = dict(bad=[], edt=m.dtype.str)
	before = [np.array(m)]
	if op == "bin":
		p = mk(a["n2"], nz=True) if a["swap"] is False else mk(a["n2"])
		if a["swap"] and a["f"] in ("floor_divide","mod"): m[m==0] = 3; before = [np.array(m)]
		if a["with"] == "map": p = enmap.ndmap(p, w)
		if a["with"] == "scalar": p = rng.choice([p[()], p.item()])
		ins.append(p); before.append(np.array(p))
		x, y = (p, m) if a["swap"] else (m, p)
		if a["how"] == "oper" and a["f"] in OPER: out = getattr(operator, OPER[a["f"]])(x, y)
		elif a["how"] == "out":
			shp = np.broadcast_shapes(m.shape, np.shape(p))
			out = enmap.zeros(shp, w, np.result_type(m, p) if BIN.index(a["f"]) not in range(5,11) and not a["f"].startswith("log") else bool)
			o2 = getattr(np, a["f"])(x, y, out=out)
			if o2 is not out and np.any(o2 != out): raise ValueError("out")
		else: out = getattr(np, a["f"])(x, y)
	elif op == "un": out = getattr(np, a["f"])(m)
	elif op == "red":
		ax = tuple(i-len(n) if a["neg"] else i for i in a["axes"])
		if len(ax) == 1: ax = ax[0]
		if a["f"] == "mean": m = enmap.ndmap(np.asarray(m).astype("f8"), w); ins = [m]; before=[np.array(m)]
		out = getattr(m, a["f"])(axis=ax, keepdims=a["keep"]) if a["how"] == "meth" else getattr(np, a["f"])(m, axis=ax, keepdims=a["keep"])
	elif op == "cum": out = np.cumsum(m, axis=a["axes"][0])
	elif op == "same":
		f = a["f"]
		if   f == "copy":  out = m.copy()
		elif f == "copyF": out = m.copy(order="F")
		elif f == "copymod": out = copy.copy(m)
		elif f == "deepcopy": out = copy.deepcopy(dict(a=[m]))["a"][0]
		elif f == "pickle":
			out = pickle.loads(pickle.dumps(m, protocol=rng.choice([2,4,5])))
		elif f == "astype": out = m.astype(np.complex128); res["edt"] = "<c16"
		elif f == "astypef4":
			if a["dt"] == "c16": out = m.astype(np.complex64); res["edt"] = "<c8"
			else: out = m.astype(np.float32); res["edt"] = "<f4"
		elif f == "enmap": out = enmap.enmap(m)
		elif f == "enmapnc": out = enmap.enmap(m, copy=False)
		elif f == "samewcs": out = enmap.samewcs(np.array(m), 3, m)
		elif f == "ndmap": out = enmap.ndmap(np.array(m), m.wcs)
		elif f == "pos": out = +m
		elif f == "reshape": out = m.preflat.reshape(m.shape)
		elif f == "swap": out = m.astype(m.dtype.newbyteorder(">")); res["edt"] = m.dtype.newbyteorder(">").str
		elif f == "enmapwcs": out = enmap.enmap(np.array(m).tolist(), w, dtype=m.dtype)
		elif f == "copyto": out = enmap.empty(m.shape, m.wcs, m.dtype); out[...] = m
		elif f == "T":
			out = m.T.T
		elif f == "vals":
			out = enmap.zeros(m.shape, m.wcs, m.dtype); out[:] = np.asarray(m)
	elif op == "stack":
		ms = [m]+[enmap.ndmap(mk(n), w) for i in range(a["m"]-1)]
		ins = ms; before = [np.array(x) for x in ms]
		out = enmap.enmap(ms) if a["f"] == "list" else enmap.enmap([np.array(x) for x in ms], m.wcs)
	elif op == "flat": out = m.preflat
	elif op == "fill":
		dt = m.dtype
		if   a["f"] == "zeros" and a["c"] == 0: out = enmap.zeros(m.shape, m.wcs, dt)
		elif a["f"] == "gzeros" and a["c"] == 0: out = enmap.zeros(*m.geometry, dt)
		elif a["f"] == "like": out = m*0+m.dtype.type(a["c"])
		else: out = enmap.full(m.shape, m.wcs, a["c"], dt)
	elif op == "fillbad":
		bad = r.integers(0,3,n) == 0
		v = np.where(bad, r.choice([np.nan, np.inf, -np.inf], size=n), np.asarray(m))
		mm = enmap.ndmap(v, w)
		out = mm.fillbad(a["c"], inplace=a["inplace"]) if a["meth"] else enmap.fillbad(mm, a["c"], inplace=a["inplace"])
		if a["inplace"]: out = mm
		elif not np.array_equal(np.asarray(mm), v, equal_nan=True): raise ValueError("changed")
		res["bad"] = [bool(b) for b in bad.reshape(-1)]
	elif op == "mul":
		v = enmap.ndmap(mk(a["n2"]), w); ins.append(v); before.append(np.array(v))
		if len(n) == 4 and False: pass
		out = enmap.map_mul(m, v)
	ismap = isinstance(out, enmap.ndmap)
	ad = np.asarray(out)
	mean = op == "red" and a["f"] == "mean"
	o = dict(n=list(np.shape(out)), d=qf(ad, 5040) if mean else dat(ad), ismap=ismap, samewcs=bool(ismap and wkey(out.wcs) == k0), dt=ad.dtype.str)
	res.update(out=o, ins=[dict(n=list(np.shape(x)), d=dat(x)) for x in ins],
		same=all(np.array_equal(np.asarray(x), b) for x, b in zip(ins, before)) and wkey(m.wcs) == k0)
	return res
