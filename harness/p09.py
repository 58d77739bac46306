"""P09 distributed maps and collectives, on threads standing in for processes"""
import random, threading, queue, tempfile, shutil, os, copy, numpy as np
from pixell import utils, enmap, tilemap, wcsutils, mpiutils
from lib import q
TRACE = "TraceP09"
MC  = [dict(module="DistributedMC", cfg="DistributedMC.cfg", min_states=500000), dict(module="DistributedMC", cfg="DistributedMC3.cfg", min_states=50000)]
GEN = [dict(name="hist", module="DistributedGen", cfg="DistributedGen.cfg", simulate=150, depth=25, min=60, thorough_factor=6)]
ASSUMPTIONS = ["mpi4py is not installed: the processes are threads using a communicator with the semantics of MPI's collectives (counts, types and buffers have to match, nobody leaves a collective before all have arrived)",
 "overlapping input slices agree where they overlap", "boxes are not longer than the period they wrap around"]
class World:
	"""MPI's collectives for threads. perms: the order in which the ranks get to each collective"""
	def __init__(self, n, perms):
		self.n, self.perms = n, perms or [list(range(n))]; self.bar = threading.Barrier(n, timeout=30); self.slots = [None]*n; self.cond = threading.Condition(); self.turn = {}; self.qs = {}; self.lock = threading.Lock(); self.dead = False
	def exchange(self, rank, rnd, obj):
		order = self.perms[rnd%len(self.perms)]; k = order.index(rank)
		with self.cond:
			while self.turn.get(rnd,0) < k:
				if self.dead or not self.cond.wait(30): raise threading.BrokenBarrierError
			self.slots[rank] = obj; self.turn[rnd] = k+1; self.cond.notify_all()
		self.bar.wait(); res = list(self.slots); self.bar.wait(); return res
	def abort(self):
		with self.cond: self.dead = True; self.cond.notify_all()
		self.bar.abort()
	def q(self, key):
		with self.lock: return self.qs.setdefault(key, queue.Queue())
class MPIError(Exception): pass
def flatbuf(a):
	if not isinstance(a, np.ndarray) or not a.flags.c_contiguous: raise MPIError("buffers have to be contiguous arrays")
	return a.reshape(-1)
class Comm:
	def __init__(self, world, rank): self.w, self.rank, self.size, self.rnd = world, rank, world.n, 0
	def ex(self, op, obj):
		self.rnd += 1; res = self.w.exchange(self.rank, self.rnd-1, (op, obj))
		if any(r[0] != op for r in res): raise MPIError("different collectives")
		return [r[1] for r in res]
	def Barrier(self): self.ex("barrier", None)
	def allgather(self, obj): return copy.deepcopy(self.ex("allgather", obj))
	def Allgather(self, a, res):
		a = np.asarray(a); fr = flatbuf(res); all = self.ex("Allgather", flatbuf(a).copy())
		if any(x.dtype != res.dtype or x.size*self.size != fr.size for x in all): raise MPIError("mismatch")
		fr[:] = np.concatenate(all)
	def reduction(self, name, a, op):
		a = np.asarray(a); all = self.ex(name, flatbuf(a).copy())
		if any(x.dtype != a.dtype or x.size != a.size for x in all): raise MPIError("mismatch")
		r = all[0].copy()
		for x in all[1:]: r = op(r, x)
		return r
	def Allreduce(self, a, res, op=np.add): r = self.reduction("Allreduce", a, op); flatbuf(res)[:] = r
	def Reduce(self, a, res, op=np.add, root=0):
		r = self.reduction("Reduce%d" % root, a, op)
		if self.rank == root: flatbuf(res)[:] = r
	def Allgatherv(self, a, spec):
		res, (n, o) = spec; fr = flatbuf(res); all = self.ex("Allgatherv", flatbuf(a).copy())
		for i, x in enumerate(all):
			if x.dtype != res.dtype or x.size != n[i] or o[i]+n[i] > fr.size: raise MPIError("mismatch")
			fr[o[i]:o[i]+n[i]] = x
	def Alltoallv(self, s, r):
		sb, (sn, so) = s; rb, (rn, ro) = r; fs, fr = flatbuf(sb), flatbuf(rb)
		all = self.ex("Alltoallv", (fs.copy(), np.array(sn), np.array(so)))
		for i, (x, n, o) in enumerate(all):
			if n[self.rank] != rn[i] or x.dtype != rb.dtype or o[self.rank]+n[self.rank] > x.size or ro[i]+rn[i] > fr.size: raise MPIError("message of %s does not fit %s" % (n[self.rank], rn[i]))
			fr[ro[i]:ro[i]+rn[i]] = x[o[self.rank]:o[self.rank]+n[self.rank]]
	def send(self, obj, dest=0, tag=0): self.w.q(("o",self.rank,dest,tag)).put(copy.deepcopy(obj))
	def recv(self, source=0, tag=0): return self.w.q(("o",source,self.rank,tag)).get(timeout=30)
	def Send(self, a, dest=0, tag=0): self.w.q(("b",self.rank,dest,tag)).put(flatbuf(a).copy())
	def Recv(self, a, source=0, tag=0):
		x = self.w.q(("b",source,self.rank,tag)).get(timeout=30); f = flatbuf(a)
		if x.dtype != f.dtype or x.size != f.size: raise MPIError("mismatch")
		f[:] = x
def procs(P, f, perms=None, fake=False):
	if fake: return [f(mpiutils.FakeCommunicator())]
	w = World(P, perms); res = [None]*P; err = []
	def go(r):
		try: res[r] = f(Comm(w, r))
		except BaseException as e: err.append(e); w.abort()
	th = [threading.Thread(target=go, args=(r,)) for r in range(P)]
	for t in th: t.start()
	for t in th: t.join()
	if err: raise ([e for e in err if not isinstance(e, threading.BrokenBarrierError)]+err)[0]
	return res
def cases(tier, seed, gen):
	rng = random.Random(seed*31+9); N = 1 if tier == "quick" else 6
	perms = lambda P: [rng.sample(range(P),P) for _ in range(3)]
	def tiles(P, has, wants, perms, how, grid=None):
		ny, nx, th, tw = grid or (rng.randint(1,7),rng.randint(1,7),rng.randint(1,4),rng.randint(1,4)); ntx = -(-nx//tw); nt = -(-ny//th)*ntx
		if has is None:
			pick = lambda: rng.sample(range(nt), rng.choice([0,1,nt//2,nt,rng.randint(0,nt)])); has = [pick() for _ in range(P)]; wants = [pick() for _ in range(P)]
			if rng.random() < .3: has, wants = [sorted(x) for x in has], [sorted(x) for x in wants]
		pre = rng.choice([1,1,2]); sz = lambda t: min(th,ny-t//ntx*th)*min(tw,nx-t%ntx*tw)*pre
		return dict(k="tiles", a=dict(P=P, ny=ny, nx=nx, th=th, tw=tw, pre=pre, flat=pre == 1 and rng.random()<.5, has=has, wants=wants, perms=perms, how=how, root=rng.randrange(P), dt=rng.choice(["f8","f4","i4"]) if how != "file" else "f8", fake=P == 1 and rng.random()<.5 and how != "file",
			val=[[[rng.randint(-50,50) for _ in range(sz(t))] for t in h] for h in has]))
	for g in gen["hist"]: yield tiles(3, g["has"], g["wants"], g["perms"], rng.choice(["wants","wants","wants","omap"]), rng.choice([(4,4,2,2),(3,4,2,2),(3,3,2,2),(2,4,2,1),(4,1,1,1),(5,4,3,2)]))
	for _ in range(120*N):
		P = rng.choice([1,1,2,2,3,4,5]); yield tiles(P, None, None, perms(P), rng.choice(["wants","omap","auto","auto","reduce","file"]))
	for _ in range(100*N):
		P = rng.choice([1,2,3,4]); nd = rng.choice([1,1,2,2,3]); axis = rng.choice([0,0,nd-1,-1,rng.randrange(nd)]); rest = [rng.randint(1,3) for _ in range(nd-1)]; ns = [rng.choice([0,0,1,2,3]) for _ in range(P)]
		yield dict(k="cat", a=dict(P=P, nd=nd, axis=axis, rest=rest, ns=ns, bare=[rng.random()<.3 for _ in range(P)], dt=rng.choice(["i8","i8","f8","f4","bool","U","mix","S"]), perms=perms(P), fake=P == 1 and rng.random()<.6,
			v=[[rng.randint(0,9) for _ in range(n*int(np.prod(rest,dtype=int)))] for n in ns]))
	for _ in range(60*N):
		P = rng.choice([1,2,3,4]); sh = [rng.randint(1,3) for _ in range(rng.randint(0,2))]; how = rng.choice(["allreduce","allreduce","reduce","gather","send"]); n = int(np.prod(sh,dtype=int))
		yield dict(k="red", a=dict(P=P, sh=sh, how=how, op=rng.choice(["sum","max","min"]), default=rng.random()<.5, root=rng.randrange(P), dt=rng.choice(["i8","f8","f4","i4"]), perms=perms(P), fake=P == 1 and rng.random()<.6 and how in ("allreduce","gather"), v=[[rng.randint(-9,9) for _ in range(n)] for _ in range(P)]))
	for _ in range(140*N):
		P = rng.choice([1,2,2,3,4]); nd = rng.choice([2,2,2,1,3]); dims = [rng.randint(2,6) for _ in range(nd)]; wrap = [rng.choice([0,0,n]) for n in dims] if rng.random() < .4 else [0]*nd
		def box(n, w, out):
			s = rng.choice([1,1,1,2,-1,-2])
			if w and rng.random() < .7:
				s = rng.choice([1,1,-1]); m = rng.randint(1,n); a = rng.randint(-n,2*n); return [a,a+m,1] if s > 0 else [a+m-1,a-1,-1]
			a, b = sorted([rng.randint(0,n-1),rng.randint(0,n-1)]); b += 1
			if s > 0: return [a,b,s]
			return [b-1,a-1,s]
		boxes = lambda out: [[box(n,w,out) for n,w in zip(dims,wrap)] for _ in range(rng.choice([0,1,1,2,2,3]))]
		ib = [boxes(False) for _ in range(P)]; ob = [boxes(True) for _ in range(P)]
		if rng.random() < .3: # a partition of the array
			c = sorted(rng.sample(range(1,dims[0]), min(P-1,dims[0]-1))); c = [0]+c+[dims[0]]; ib = [[[[c[p],c[p+1],1]]+[[0,n,1] for n in dims[1:]]] if p < len(c)-1 else [] for p in range(P)]
		if not any(ib): continue
		if rng.random() < .6:
			for l in (ib, ob):
				for p in range(P):
					if not l[p]: l[p].append([[0,1,1] for _ in dims])
		step = rng.random() < .8
		yield dict(k="boxes", a=dict(P=P, dims=dims, wrap=wrap, usewrap=any(wrap), ib=ib, ob=ob, pre=rng.choice([1,1,2]), flat=rng.random()<.5, dt=rng.choice(["f8","i4","f4"]), perms=perms(P), fake=P == 1 and rng.random()<.5, steps=not all(b[2] == 1 for p in ib+ob for B in p for b in B) or step))
def ints(x): return [int(v) for v in np.asarray(x).reshape(-1)]
OPS = dict(sum=np.add, max=np.maximum, min=np.minimum)
def run(k, a):
	P, perms, fake = a["P"], a["perms"], a["fake"]
	if k == "tiles":
		w = wcsutils.WCS(naxis=2); w.wcs.ctype = ["RA---CAR","DEC--CAR"]; w.wcs.cdelt = [-1,1]; w.wcs.set(); pre = () if a["flat"] else (a["pre"],); shape = pre+(a["ny"],a["nx"]); how = a["how"]
		def mk(act, vals):
			m = tilemap.zeros(tilemap.geometry(shape, w, tile_shape=(a["th"],a["tw"]), active=act), dtype=a["dt"])
			for j, v in enumerate(vals): m.active_tiles[j][...] = np.array(v).reshape(m.active_tiles[j].shape)
			return m
		ins = [mk(a["has"][p], a["val"][p]) for p in range(P)]; keep = [np.array(m) for m in ins]; tmp = tempfile.mkdtemp() if how == "file" else None
		def f(comm):
			m = ins[comm.rank]; want = a["wants"][comm.rank]; un = ints(tilemap.get_active_distributed(m, comm))
			if how == "wants": r = tilemap.redistribute(m, comm, active=want); ok = True
			elif how == "auto": r = tilemap.redistribute(m, comm); ok = True
			elif how == "omap":
				o = mk(want, []); o[...] = 77; r = tilemap.redistribute(m, comm, omap=o); ok = r is o
			elif how == "reduce": r = tilemap.reduce(m, comm, root=a["root"]); ok = True
			else: tilemap.write_map(os.path.join(tmp,"map.fits"), m, comm); return None
			return ints(r.active), [ints(t) for t in r.active_tiles], bool(ok and r.shape[:-1] == pre and r.dtype == m.dtype and r.geometry.shape[-2:] == (a["ny"],a["nx"]) and tuple(r.geometry.tile_shape) == (a["th"],a["tw"])), un
		try:
			res = procs(P, f, perms, fake); same = all(np.array_equal(x,y) for x,y in zip(ins,keep))
			if how == "file": return dict(full=ints(enmap.read_map(os.path.join(tmp,"map.fits"))), same=same)
		finally:
			if tmp: shutil.rmtree(tmp)
		return dict(act=[r[0] for r in res], res=[r[1] for r in res], ident=all(r[2] for r in res), union=[r[3] for r in res], same=same)
	if k == "cat":
		nd, axis = a["nd"], a["axis"]; ins = []; kinds = {"mix":["i4","f8","f4","i8"]}
		for p in range(P):
			n = a["ns"][p]; v = np.array(a["v"][p],int).reshape([n]+a["rest"])
			if a["dt"] == "bool": v = v%2 == 1
			elif a["dt"] == "U": v = np.array([("%d"%t)*(p+1) for t in v.reshape(-1)],dtype="U%d"%(p+1)).reshape(v.shape)
			elif a["dt"] == "S": v = np.array([b"%d"%t for t in v.reshape(-1)],dtype="S3").reshape(v.shape)
			else: v = v.astype(kinds["mix"][p%4] if a["dt"] == "mix" else a["dt"])
			v = np.moveaxis(v, 0, axis)
			if n == 0 and a["bare"][p]: v = np.zeros([0]*nd if nd > 1 else 0, v.dtype) if nd < 3 else v
			ins.append(v)
		keep = [x.copy() for x in ins]; res = procs(P, lambda comm: utils.allgatherv(ins[comm.rank], comm, axis=axis), perms, fake); full = sum(a["ns"]); out = []
		for p, r in enumerate(res):
			x = np.moveaxis(r, axis, 0).reshape(-1)
			if a["dt"] in ("U","S"):
				x = [t.decode() if isinstance(t,bytes) else str(t) for t in x]; x = [int(t[0]) if len(t) > 0 else -5 for t in x]
			out.append([int(t) for t in x])
		if a["dt"] == "bool": a["v"] = [[t%2 for t in v] for v in a["v"]]
		wsh = list(np.moveaxis(np.zeros([full]+a["rest"]),0,axis).shape); kinds = {"bool":"b","U":"U","S":"S","i8":"i","f8":"f","f4":"f","mix":"if"}[a["dt"]]
		return dict(res=out, sh=[list(r.shape) if full else wsh for r in res], wsh=wsh, same=all(np.array_equal(x,y) for x,y in zip(ins,keep)), dt=all(r.dtype.kind in kinds for r in res))
	if k == "red":
		ins = [np.array(v,a["dt"]).reshape(a["sh"]) for v in a["v"]]; keep = [x.copy() for x in ins]; how = a["how"]; op = None if a["op"] == "sum" and a["default"] else OPS[a["op"]]
		def f(comm):
			x = ins[comm.rank]
			if how == "allreduce": return utils.allreduce(x, comm, op)
			if how == "reduce": return utils.reduce(x, comm, root=a["root"], op=op)
			if how == "gather": return utils.allgather(x, comm)
			utils.send(x, comm, dest=(comm.rank+1)%P, tag=3); return utils.recv(comm, source=(comm.rank-1)%P, tag=3)
		res = procs(P, f, perms, fake); return dict(res=[ints(r) if r is not None else [-1] for r in res], same=all(np.array_equal(x,y) for x,y in zip(ins,keep)), dt=all(r is None or r.dtype == a["dt"] for r in res))
	dims = a["dims"]; nd = len(dims); pre = () if a["flat"] and a["pre"] == 1 else (a["pre"],); G = np.arange(int(np.prod(dims))).reshape(dims)+1; G = (G+np.arange(a["pre"]).reshape([-1]+[1]*nd)*1000).reshape(pre+tuple(dims)).astype(a["dt"])
	def cut(B):
		r = G
		for d, (s, e, st) in enumerate(B): r = np.take(r, np.arange(s,e,st)%(a["wrap"][d] or 10**9), axis=len(pre)+d)
		return np.ascontiguousarray(r)
	ins = [[cut(B) for B in a["ib"][p]] for p in range(P)]; keep = copy.deepcopy(ins)
	def f(comm):
		ib, ob = a["ib"][comm.rank], a["ob"][comm.rank]; kw = dict(wrap=a["wrap"]) if a["usewrap"] else {}
		return utils.redistribute(ins[comm.rank], np.array(ib,int).reshape(-1,nd,3), np.array(ob,int).reshape(-1,nd,3), comm, **kw)
	res = procs(P, f, perms, fake); return dict(res=[[ints(x) for x in r] for r in res], same=all(np.array_equal(x,y) for X,Y in zip(ins,keep) for x,y in zip(X,Y)), dt=all(x.dtype == a["dt"] and x.shape[:len(pre)] == pre for r in res for x in r))
