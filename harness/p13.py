"""P13 harmonic coefficient layouts"""
import random, numpy as np
from pixell import curvedsky
from lib import q, qf
TRACE = "TraceP13"
MC  = [dict(module="AlmMC", cfg="AlmMC.cfg", min_states=100)]
ASSUMPTIONS = ["arrays have at least the number of elements their layout needs", "the m = 0 coefficients of a real field are real"]

def mklayout(rng, strides=True, lmin=0):
	lmax = rng.choice([lmin, rng.randint(lmin,3), rng.randint(lmin,7), rng.randint(lmin,7)])
	mmax = rng.choice([lmax, lmax, rng.randint(0,lmax)])
	lay  = rng.choice(["tri","tri","tri","rect","own"])
	a = dict(lmax=lmax, mmax=mmax, layout=lay, stride=rng.choice([1,1,1,2,3]) if strides else 1, mstart=[])
	if lay == "own":
		# m blocks in some other order, with gaps
		order = list(range(mmax+1)); rng.shuffle(order)
		pos, ms = 0, [0]*(mmax+1)
		for m in order:
			pos += rng.randint(0,2)
			ms[m] = pos
			pos += (lmax+1)*a["stride"]
		a["mstart"] = ms
	return a

def nelem(a):
	l, m, s = a["lmax"], a["mmax"], a["stride"]
	M = {"tri": lambda: [s*(k*(2*l+1-k)//2) for k in range(m+1)], "rect": lambda: [s*k*(l+1) for k in range(m+1)], "own": lambda: a["mstart"]}[a["layout"]]()
	return max(M)+(l+1)*s

def vals(rng, n): return [rng.randint(-9,9) for _ in range(n)]

def cases(tier, seed, gen):
	rng = random.Random(seed)
	N = 1 if tier == "quick" else 8
	for lmax in range(9):
		for mmax in range(lmax+1):
			for lay in ("tri","rect"):
				for s in (1,2):
					yield dict(k="info", a=dict(lmax=lmax, mmax=mmax, layout=lay, stride=s, mstart=[], via="lm"))
		yield dict(k="info", a=dict(lmax=lmax, mmax=lmax, layout="tri", stride=1, mstart=[], via="nalm"))
		yield dict(k="info", a=dict(lmax=lmax, mmax=lmax, layout="rect", stride=1, mstart=[], via="nalm"))
	for _ in range(60*N):
		a = mklayout(rng); a["via"] = "lm"
		yield dict(k="info", a=a)
	pres = [[],[],[1],[2],[3],[2,2],[1,3],[2,1,2],[3,2]]
	def bc(pa, rng):
		"""a shape that broadcasts with pa"""
		r = [rng.choice([n,n,1]) for n in pa][rng.randint(0,len(pa)) if rng.random() < 0.4 else 0:]
		return r
	for _ in range(700*N):
		a = mklayout(rng); ne = nelem(a)
		a["ash"] = rng.choice(pres); a["fsh"] = bc(a["ash"], rng) if rng.random() < 0.6 else []
		if rng.random() < 0.2: a["ash"], a["fsh"] = bc(a["ash"], rng), a["ash"]
		if len(a["fsh"]) == 2 and len(a["ash"]) == 1: a["fsh"] = a["fsh"][1:]   # that's a matrix product
		a["bs"] = list(np.broadcast_shapes(tuple(a["ash"]), tuple(a["fsh"])))
		a["nl"] = max(1, a["lmax"]+1+rng.choice([0,0,0,-1,-2,1,4]))
		a["alm"], a["f"] = vals(rng, 2*int(np.prod(a["ash"]))*ne), vals(rng, int(np.prod(a["fsh"]))*a["nl"])
		a["out"] = rng.choice(["none","none","new","inplace"]) if a["bs"] == a["ash"] else rng.choice(["none","new"])
		a["ro"] = rng.random() < 0.15 and a["out"] != "inplace"
		a["dt"] = rng.choice(["c16","c16","c8"]); a["fdt"] = rng.choice(["f8","f4","i8"]); a["pad"] = rng.random() < 0.7
		a["fstr"] = rng.choice([1,1,2])
		a["meth"] = rng.randint(0,2)
		a["lead"] = rng.random() < 0.3
		if a["out"] == "new" and rng.random() < 0.25: a["out"] = rng.choice(["strided","wrong"])
		if rng.random() < 0.1 and a["out"] != "inplace": a["adt"] = rng.choice(["f8","i8"]); a["dt"] = "c16"; a["alm"][1::2] = [0]*(len(a["alm"])//2)
		yield dict(k="lmul", a=a)
	for _ in range(500*N):
		a = mklayout(rng); ne = nelem(a)
		a["N"], a["M"] = rng.randint(1,3), rng.randint(1,3)
		a["nl"] = max(1, a["lmax"]+1+rng.choice([0,0,0,-1,-2,1,4]))
		a["alm"], a["f"] = vals(rng, 2*a["M"]*ne), vals(rng, a["N"]*a["M"]*a["nl"])
		a["out"] = rng.choice(["none","none","new","inplace"]) if a["N"] == a["M"] else rng.choice(["none","new"])
		a["ro"] = rng.random() < 0.15 and a["out"] != "inplace"
		a["dt"] = rng.choice(["c16","c8"]); a["fdt"] = rng.choice(["f8","f4","i8"]); a["pad"] = rng.random() < 0.7
		a["fstr"] = rng.choice([1,1,2])
		a["meth"] = rng.randint(0,1)
		if a["out"] == "new" and rng.random() < 0.25: a["out"] = rng.choice(["strided","wrong"])
		yield dict(k="lmat", a=a)
	for _ in range(500*N):
		a = mklayout(rng); ne = nelem(a)
		a["ash"] = rng.choice(pres)
		kind = rng.choice(["auto","cross","cross","matrix","matrix"])
		if kind == "matrix":
			n = rng.randint(1,3)
			a["ash"], a["bsh"] = [n,1], [1,n]
		elif kind == "auto": a["bsh"] = a["ash"]
		else: a["bsh"] = bc(a["ash"], rng)
		a["kind"] = kind
		a["same2"] = kind == "auto" or (kind == "matrix" and rng.random() < 0.6)
		a["bs"] = list(np.broadcast_shapes(tuple(a["ash"]), tuple(a["bsh"])))
		a["alm"]  = vals(rng, 2*int(np.prod(a["ash"]))*ne)
		a["alm2"] = a["alm"] if a["same2"] else vals(rng, 2*int(np.prod(a["bsh"]))*ne)
		a["dt"] = rng.choice(["c16","c16","c8"]); a["dt2"] = a["dt"] if a["same2"] or rng.random() < 0.7 else "c16"
		a["pad"], a["ro"], a["meth"] = rng.random() < 0.5, rng.random() < 0.15, rng.randint(0,1)
		yield dict(k="cl", a=a)
	for _ in range(250*N):
		a = mklayout(rng); ne = nelem(a)
		a["ash"] = rng.choice(pres)
		a["alm"] = vals(rng, 2*int(np.prod(a["ash"]))*ne)
		a["out"] = rng.choice(["none","new","inplace"])
		a["dt"], a["pad"] = rng.choice(["c16","c8"]), rng.random() < 0.5
		yield dict(k="transpose", a=a)
	for _ in range(400*N):
		a = mklayout(rng); a["to"] = mklayout(rng)
		a["ash"] = rng.choice(pres)
		nc = int(np.prod(a["ash"]))
		a["alm"], a["oalm"] = vals(rng, 2*nc*nelem(a)), vals(rng, 2*nc*nelem(a["to"]))
		a["given"] = rng.random() < 0.6
		a["op"] = rng.choice(["set","set","add"])
		a["dt"], a["pad"], a["meth"] = rng.choice(["c16","c8"]), rng.random() < 0.5, 0
		yield dict(k="transfer", a=a)
	for _ in range(25*N):
		yield dict(k="rand", a=dict(l1=rng.randint(1,6), l2=rng.randint(1,9), seed=rng.randint(0,10**6), ps=[rng.randint(1,5) for _ in range(10)], dt=rng.choice(["c16","c8"])))

def info(a):
	kw = dict(stride=a["stride"]) if a["stride"] != 1 else {}
	if a["layout"] == "own": lay = np.array(a["mstart"])
	else: lay = {"tri":"triangular","rect":"rectangular"}[a["layout"]]
	if a.get("via") == "nalm": return curvedsky.alm_info(nalm=nelem(a), layout=lay)
	if a["layout"] == "tri" and a["lmax"] == a["mmax"]: return curvedsky.alm_info(a["lmax"], **kw)
	return curvedsky.alm_info(lmax=a["lmax"], mmax=a["mmax"], layout=lay, **kw)

class Arr:
	"""Array inside a larger one, to see writes outside it"""
	def __init__(self, data, shape, dt, pad, ro=False, lead=False):
		self.big = np.full((tuple(shape[:-1])[::-1] if lead else tuple(shape[:-1]))+(shape[-1]+(12 if pad else 0),), 1000+1000j if np.dtype(dt).kind == "c" else 1000, dt)
		# leading axes in the opposite order in memory
		if lead: self.big = np.transpose(self.big, tuple(range(len(shape)-1))[::-1]+(len(shape)-1,))
		self.p = 6 if pad else 0
		self.a = self.big[...,self.p:self.p+shape[-1]]
		if data is not None:
			d = np.array(data, float)
			if np.dtype(dt).kind == "c": d = d[0::2]+1j*d[1::2]
			self.a[...] = d.reshape(shape)
		self.ref = np.array(self.a)
		if ro: self.big.flags.writeable = False; self.a.flags.writeable = False
	def same(self): return np.array_equal(self.a, self.ref)
	def guard(self): return self.p == 0 or bool(np.all(self.big[...,:self.p] == self.big.dtype.type(1000+1000j if self.big.dtype.kind == "c" else 1000)) and np.all(self.big[...,-self.p:] == self.big.dtype.type(1000+1000j if self.big.dtype.kind == "c" else 1000)))

def flat(x):
	x = np.ascontiguousarray(x).reshape(-1)
	return qf(np.array([x.real, x.imag]).T)

def run(k, a):
	if k == "info":
		f = info(a)
		ind = [[int(f.lm2ind(l,m)) if m <= l else 0 for l in range(a["lmax"]+1)] for m in range(a["mmax"]+1)]
		L, M = np.meshgrid(np.arange(a["lmax"]+1), np.arange(a["mmax"]+1))
		v = f.lm2ind(L, M)
		ok = all(v[m,l] == ind[m][l] for m in range(a["mmax"]+1) for l in range(m, a["lmax"]+1))
		return dict(nelem=f.nelem, nl=f.nl, nm=f.nm, lmax=f.lmax, mmax=f.mmax, ind=ind if ok else [[-1]*(a["lmax"]+1)]*(a["mmax"]+1))
	if k == "rand":
		ps = np.array(a["ps"], float)
		A = [curvedsky.rand_alm(ps, lmax=l, seed=a["seed"], dtype=np.dtype(a["dt"])) for l in (a["l1"], a["l2"])]
		def f(x):
			x = np.array([x.real, x.imag], np.float64).T.reshape(-1)
			return q(x, 1e4 if a["dt"] == "c8" else 1e6)
		return dict(a1=f(A[0]), a2=f(A[1]))
	f, ne = info(a), nelem(a)
	cdt = np.dtype(a["dt"])
	if k in ("lmul","lmat"):
		ash = tuple(a["ash"]) if k == "lmul" else (a["M"],)
		fsh = tuple(a["fsh"]) if k == "lmul" else (a["N"],a["M"])
		osh = tuple(a["bs"]) if k == "lmul" else (a["N"],)
		lead = a.get("lead", False)
		A = Arr(a["alm"], ash+(ne,), cdt, a["pad"], a["ro"], lead)
		if "adt" in a: A = Arr(a["alm"][0::2], ash+(ne,), np.dtype(a["adt"]), a["pad"], a["ro"], lead)
		F = np.array(a["f"], a["fdt"]).reshape(fsh+(a["nl"],))
		if a["fstr"] == 2: F = np.repeat(F, 2, -1)[...,::2]
		if a["ro"]: F.flags.writeable = False
		F0 = F.copy()
		O = {"none": None, "inplace": A}.get(a["out"], None)
		if a["out"] == "new": O = Arr(None, osh+(ne,), cdt, a["pad"], False, lead)
		if a["out"] == "strided":
			O = Arr(None, osh+(2*ne,), cdt, a["pad"])
			O.a = O.a[...,::2]
		if a["out"] == "wrong": O = Arr(None, osh+(ne,), np.dtype("c8" if cdt == np.dtype("c16") else "c16"), a["pad"])
		if a["out"] in ("strided","wrong"):
			# May be refused, but not silently ignored
			try: r = f.lmul(A.a, F, out=O.a)
			except ValueError: return dict(refused=True, shape=[], data=[], same=A.same(), guard=A.guard() and O.guard())
			return dict(refused=False, shape=list(O.a.shape), data=flat(O.a), same=A.same() and np.array_equal(r, O.a), guard=A.guard() and O.guard())
		kw = {} if O is None else dict(out=O.a)
		if   a["meth"] == 0: r = f.lmul(A.a, F, **kw)
		elif a["meth"] == 1: r = curvedsky.almxfl(A.a, F, ainfo=f, **kw)
		else:
			# the filter as a function
			F1 = F if a["nl"] >= a["lmax"]+1 else np.concatenate([F, np.zeros(fsh+(a["lmax"]+1-a["nl"],), F.dtype)], -1)
			r = curvedsky.almxfl(A.a, lambda l: F1[...,l.astype(int)], ainfo=f, **kw)
		same = np.array_equal(F, F0) and (a["out"] == "inplace" or A.same()) and r.dtype == cdt
		if O is not None: same = same and np.array_equal(r, O.a)
		if O is None: same = same and not np.shares_memory(r, A.a)
		return dict(refused=False, shape=list(r.shape), data=flat(r), same=bool(same), guard=A.guard() and (O is None or O.guard()))
	A = Arr(a["alm"], tuple(a["ash"])+(ne,), cdt, a["pad"], a.get("ro",False))
	if k == "cl":
		if a["kind"] == "auto": r = f.alm2cl(A.a) if a["meth"] else curvedsky.alm2cl(A.a, ainfo=f)
		else:
			if a["same2"]: B = A; b = A.a.reshape(tuple(a["bsh"])+(ne,)) if not a["pad"] else np.moveaxis(A.a, 0, 1)
			else: B = Arr(a["alm2"], tuple(a["bsh"])+(ne,), np.dtype(a["dt2"]), a["pad"], a["ro"]); b = B.a
			r = f.alm2cl(A.a, b) if a["meth"] else curvedsky.alm2cl(A.a, b, ainfo=f)
			if not B.same() or not B.guard(): A.p = 0; return dict(shape=list(r.shape), data=[], same=False, guard=B.guard())
		l = np.arange(r.shape[-1])
		return dict(shape=list(r.shape), data=qf(r*(2*l+1), 100), same=bool(A.same() and r.dtype == np.zeros(1, np.result_type(cdt, np.dtype(a["dt2"]))).real.dtype), guard=A.guard())
	if k == "transpose":
		O = {"none": None, "inplace": A}.get(a["out"], None)
		if a["out"] == "new": O = Arr(None, tuple(a["ash"])+(ne,), cdt, a["pad"])
		r = f.transpose_alm(A.a, **({} if O is None else dict(out=O.a)))
		same = (a["out"] == "inplace" or A.same()) and r.dtype == cdt
		if O is not None: same = same and np.array_equal(r, O.a)
		return dict(shape=list(r.shape), data=flat(r), same=bool(same), guard=A.guard() and (O is None or O.guard()))
	g = info(a["to"])
	op = {} if a["op"] == "set" else dict(op=lambda x,y: x+y)
	O = Arr(a["oalm"], tuple(a["ash"])+(nelem(a["to"]),), cdt, a["pad"]) if a["given"] else None
	r = curvedsky.transfer_alm(f, A.a, g, **({} if O is None else dict(oalm=O.a)), **op)
	return dict(shape=list(r.shape), data=flat(r), same=A.same(), guard=A.guard() and (O is None or O.guard()), isout=bool(O is None or np.array_equal(r, O.a)))
