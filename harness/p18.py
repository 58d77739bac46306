"""P18 conjugate gradients and minres"""
import random, os, tempfile, shutil, zlib, numpy as np
from pixell import utils
from lib import q, qf
TRACE = "TraceP18"
MC  = [dict(module="SolverMC", cfg="SolverMC.cfg", min_states=5000)]
GEN = [dict(name="hist", module="SolverGen", cfg="SolverGen.cfg", simulate=400, depth=24, min=250, thorough_factor=6)]
ASSUMPTIONS = ["the functions given to the solver return new vectors and the inner product makes the operator self-adjoint",
	"no more steps are taken once the error has reached zero exactly"]

def system(rng, n=None):
	n = n or rng.randint(1,5)
	B = np.array([[rng.randint(-2,2) for _ in range(n)] for _ in range(n)])
	K = B.T.dot(B) + rng.randint(1,3)*np.eye(n, dtype=int)
	w = [1]*n; A = K
	if rng.random() < 0.4:
		d = np.array([rng.choice([1,2]) for _ in range(n)])
		A = d[:,None]*K; w = (2//d).tolist()
	M = [rng.randint(1,3) for _ in range(n)] if rng.random() < 0.6 else [1]*n
	b = [rng.randint(-9,9) for _ in range(n)]
	if not any(b): b[0] = 1
	xs = [[], [rng.randint(-3,3) for _ in range(n)], [rng.randint(-3,3) for _ in range(n)]]
	for i in (1,2):
		if np.array_equal(A.dot(xs[i]), b): xs[i][0] += 1
	return dict(A=A.tolist(), b=b, M=M, w=w, x0=xs, Q=np.diag(M).tolist(), sx=10000, tol=100)

def cases(tier, seed, gen):
	rng = random.Random(seed)
	for g in gen["hist"]:
		a = system(rng, rng.randint(5,7)); a["hist"] = g["hist"]
		a["dt"], a["two"] = rng.choice(["f8","f8","f4"]), rng.random() < 0.3
		a["destroy"] = rng.random() < 0.3
		yield dict(k="hist", a=a)
	for _ in range(800 if tier == "quick" else 6000):
		a = system(rng)
		a["meth"] = rng.choice(["cg","cg","cg","minres"])
		if a["meth"] == "minres":
			# minres here works with the plain inner product
			n = len(a["b"]); B = np.array([[rng.randint(-2,2) for _ in range(n)] for _ in range(n)])
			A = B.T.dot(B) + rng.randint(1,3)*np.eye(n, dtype=int)
			a["A"], a["Q"], a["w"], a["M"] = A.tolist(), A.tolist(), [1]*n, [1]*n
			for i in (1,2):
				if np.array_equal(A.dot(a["x0"][i]), a["b"]): a["x0"][i][0] += 1
		a["dt"], a["two"] = rng.choice(["f8","f8","f8","f4"]), rng.random() < 0.3 and a["meth"] == "cg"
		a["q"] = rng.randint(1,3)
		# single precision loses conjugacy to rounding, so the last residual is only small
		if a["dt"] == "f4": a["tol"] = 3000
		a["destroy"] = a["meth"] == "cg" and rng.random() < 0.3
		yield dict(k="solve", a=a)

def parts(a):
	dt = np.dtype(a["dt"])
	A, M, w = np.array(a["A"], dt), np.array(a["M"], dt), np.array(a["w"], dt)
	n = len(a["b"])
	def sh(x): return x.reshape(n,1) if a["two"] else x
	kw = {}
	if a["M"] != [1]*n: kw["M"] = lambda x: sh(M*x.reshape(-1))
	if a["two"] or a["w"] != [1]*n: kw["dot"] = lambda x, y: np.sum(w*x.reshape(-1)*y.reshape(-1))
	return (lambda x: sh(A.dot(x.reshape(-1)))), sh(np.array(a["b"], dt)), [None]+[sh(np.array(x, dt)) for x in a["x0"][1:]], kw

def fp(s):
	h = 0
	# In single precision the error is computed with one more or less digit after resuming, depending on
	# whether rz0 is a python float or a numpy one. That is not part of the state
	single = np.asarray(s.x).dtype == np.float32
	for v in (s.x, s.r, s.p, s.rz, s.rz0) + (() if single else (s.err,)):
		v = np.asarray(v)
		if np.ndim(v) == 0: v = np.float64(v)
		else: h = zlib.crc32((v.dtype.str+str(v.shape)).encode(), h)
		h = zlib.crc32(np.ascontiguousarray(v).tobytes(), h)
	return h & 0x7fffffff

def run(k, a):
	A, b, x0, kw = parts(a)
	def new(qq, b): return utils.CG(A, b.copy(), x0=x0[qq-1], destroy_b=a["destroy"], **kw)
	if k == "hist":
		ref = []
		for qq in (1,2,3):
			s = new(qq, b); f = [fp(s)]
			for _ in range(4): s.step(); f.append(fp(s))
			ref.append(f)
		old = os.getcwd(); d = tempfile.mkdtemp(dir=old, prefix="p18_")
		try:
			os.chdir(d)
			sol, steps = {}, []
			for o in a["hist"]:
				if   o["op"] == "new":  sol[o["s"]] = new(o["q"], b)
				elif o["op"] == "step": sol[o["s"]].step()
				elif o["op"] == "save": sol[o["s"]].save("f%d.hdf" % o["f"])
				elif o["op"] == "load": sol[o["s"]].load("f%d.hdf" % o["f"])
				steps.append(dict(fp=fp(sol[o["s"]]), i=int(sol[o["s"]].i)))
		finally:
			os.chdir(old); shutil.rmtree(d, ignore_errors=True)
		return dict(ref=ref, steps=steps)
	n = len(a["b"])
	x = x0[a["q"]-1]
	b0, xc = b.copy(), None if x is None else x.copy()
	if a["meth"] == "cg": s = utils.CG(A, b, x0=x, destroy_b=a["destroy"], **kw)
	else: s = utils.Minres(A, b, x0=x)
	xi = qf(s.x, a["sx"])
	xs, errs = [], []
	for _ in range(n):
		s.step()
		xs.append(qf(s.x, a["sx"])); errs.append(q(s.err, 1000))
		if s.rz == 0 or s.err < (1e-13 if a["dt"] == "f4" else 1e-28): break
	same = (a["destroy"] or np.array_equal(b, b0)) and (x is None or np.array_equal(x, xc)) and not (not a["destroy"] and np.shares_memory(s.x, b))
	return dict(x0=xi, xs=xs, errs=errs, same=bool(same), i=int(s.i))
