"""P17 memory pools"""
import random, numpy as np
import importlib.util, os, pixell
# device.py is not among the modules the build installs, so it is loaded from the source tree
def load(name):
	spec = importlib.util.spec_from_file_location("pixell."+name, os.path.join(os.environ.get("REPO","/repo"), "pixell", name+".py"))
	mod  = importlib.util.module_from_spec(spec); spec.loader.exec_module(mod)
	return mod
device = load("device")
from lib import q, qf
TRACE = "TraceP17"
MC  = [dict(module="PoolMC", cfg="PoolMC.cfg", min_states=500000)]
GEN = [dict(name="hist", module="PoolGen", cfg="PoolGen.cfg", simulate=400, depth=20, min=250, thorough_factor=6)]
ASSUMPTIONS = ["only the cpu pools are exercised: there is no gpu and no cupy here"]
ITEM = {d: np.dtype(d).itemsize for d in ("u1","i2","f4","f8","c16")}

def cases(tier, seed, gen):
	rng = random.Random(seed)
	for g in gen["hist"]:
		yield dict(k="hist", a=dict(hist=g["hist"], align=rng.choice([16,16,None,1,8,64,512]) or 16, default=rng.random() < 0.3, item=ITEM))
	for _ in range(250 if tier == "quick" else 2000):
		reqs = [[rng.choice("ab"), rng.choice([0,1,3,8,15,16,17,33,100,rng.randint(1,300)]), rng.choice(["u1","f4","f8"])] for _ in range(rng.randint(1,7))]
		warm = [[rng.choice("ab"), rng.randint(1,200), "u1"] for _ in range(rng.choice([0,0,2,4]))]
		yield dict(k="cycle", a=dict(reqs=reqs, warm=warm, align=rng.choice([1,8,16,64]), how=rng.choice(["first","reset","all"]), rep=4))

class Counter:
	def __init__(self): self.n = 0
	def alloc(self, n):
		self.n += n
		return np.empty(n, np.uint8)

def mkdev(a, counter=None):
	if counter is None and a.get("default"): return device.DeviceCpu(align=a["align"])
	al = counter or device.AllocCpu()
	return device.DeviceCpu(alloc_factory=lambda name: device.ArrayPoolCpu(device.AllocAligned(al, align=a["align"]), name=name))

def addr(x): return x.ctypes.data
def content(x): return qf(np.real(x)) if x.dtype.kind != "c" or np.all(np.imag(x) == 0) else [-77]*x.size

def run(k, a):
	if k == "cycle":
		c = Counter()
		pools = mkdev(a, c).pools
		al0 = a["align"]-1
		for p, n, dt in a["warm"]: pools[p].empty(n, dt, reset=False)
		sys, ok = [], True
		for r in range(a["rep"]):
			n0, seen, arrs = c.n, set(), []
			if a["how"] == "all": pools.reset()
			for j, (p, n, dt) in enumerate(a["reqs"]):
				if a["how"] == "reset" and p not in seen: pools[p].reset()
				x = pools[p].empty(n, dt, reset=a["how"] == "first" and p not in seen)
				seen.add(p)
				x[...] = j+1
				arrs.append((x,j+1))
			ok = ok and all(np.all(x == v) for x, v in arrs)
			# in a pool that never gets a non-empty request, a zero-size one may cost the alignment padding
			used = set(p for p, n, dt in a["reqs"] if n > 0)
			pad  = al0*sum(p not in used for p, n, dt in a["reqs"])
			sys.append(0 if c.n-n0 <= pad else c.n-n0)
		return dict(sys=sys, ok=bool(ok))
	dev   = mkdev(a)
	pools = dev.pools
	pools.want("a","b")
	arrs, steps = {}, []
	for j, o in enumerate(a["hist"]):
		op, step = o["op"], {}
		kk = j+1
		if op == "alloc":
			P = pools.want(o["p"])[0] if kk % 2 else pools[o["p"]]
			shape = tuple(o["shape"])
			if len(shape) == 1 and kk % 3 == 0: shape = shape[0]
			dt = np.dtype(o["dt"])
			if   o["how"] == "empty": x = P.empty(shape, dt, reset=o["reset"]); x[...] = kk+10
			elif o["how"] == "full":  x = P.full(shape, kk+10, dtype=dt, reset=o["reset"])
			elif o["how"] == "zeros": x = P.zeros(shape, dtype=dt, reset=o["reset"])
			else: x = P.ones(shape, dtype=dt, reset=o["reset"])
			arrs[kk] = x; step["same"] = True
		elif op == "array":
			n = int(np.prod(o["shape"]))
			src = ((np.arange(n)+1+kk)%90).astype(o["dt"]).reshape(o["shape"])
			ref = src.copy()
			x = pools[o["p"]].array(src if kk % 2 or src.ndim == 0 else np.array(src.tolist(), o["dt"]).reshape(src.shape))
			arrs[kk] = x; step["same"] = bool(np.array_equal(src, ref) and not np.shares_memory(src, x))
		elif op == "reset": pools[o["p"]].reset()
		elif op == "free": pools[o["p"]].free()
		elif op == "del":
			if kk % 2 and o["p"] in pools.pools: delattr(pools, o["p"])
			pools[o["p"]].reset()
		elif op == "scope":
			with pools[o["p"]].as_allocator(reset=o["reset"]): pass
		elif op == "resetall": pools.reset()
		elif op == "freeall": pools.free()
		elif op == "size":
			step["size"], step["tot"] = int(pools.size()), int(pools.totsize())
			repr(pools)
		if op in ("alloc","array"):
			step.update(shape=list(x.shape), dt={"uint8":"u1","int16":"i2","float32":"f4","float64":"f8","complex128":"c16"}.get(x.dtype.name, x.dtype.name), mod=addr(x)%a["align"], nbytes=int(x.nbytes))
		ends = sorted({e for y in arrs.values() for e in (addr(y), addr(y)+y.nbytes)})
		rank = {e:i for i,e in enumerate(ends)}
		step["arrs"] = [dict(lo=rank[addr(arrs[i])], hi=rank[addr(arrs[i])+arrs[i].nbytes], vals=content(arrs[i]), nbytes=int(arrs[i].nbytes)) if i in arrs else dict(lo=0, hi=0, vals=[], nbytes=0) for i in range(1,kk+1)]
		steps.append(step)
	return dict(steps=steps)
