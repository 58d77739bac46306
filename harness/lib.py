import json, os, numpy as np, traceback, signal
NANQ = 2000000001
INFQ = 2000000002
CAP  = 1999999999

class HarnessError(Exception): pass
class Hang(Exception): pass
HANG = 60       # seconds a single case may take
def _alarm(*args): raise Hang()

def q(x, scale=1):
    """Quantise to integers TLC can hold (32 bit). Not-a-numbers and out of range values get sentinels"""
    x = np.asarray(x)
    if x.dtype.kind == "b": x = x.astype(int)
    if x.dtype.kind in "iu" and scale == 1:
        v = np.clip(x.astype(np.int64), -CAP, CAP)
    else:
        x = np.asarray(x, np.float64)*scale
        with np.errstate(all="ignore"):
            v = np.where(np.isnan(x), NANQ, np.where(np.isinf(x), INFQ, np.clip(np.rint(np.nan_to_num(x)), -CAP, CAP))).astype(np.int64)
    return v.tolist()

def qf(x, scale=1):
    """Flattened version of q"""
    return np.asarray(q(x, scale)).reshape(-1).tolist() if np.size(x) else []

def jd(o):
    """Make json-able"""
    if isinstance(o, dict): return {str(k): jd(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)): return [jd(v) for v in o]
    if isinstance(o, np.ndarray): return jd(o.tolist())
    if isinstance(o, (np.bool_, bool)): return bool(o)
    if isinstance(o, np.integer): return int(o)
    if isinstance(o, (float, np.floating)): raise HarnessError("float in record: %r" % o)
    if o is None: raise HarnessError("null in record")
    return o

def observe(mod, case, n):
    rec = dict(n=n, i=n+1, k=case["k"], a=case["a"], o={}, x="", tag=case.get("tag"))
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(HANG)
    try:
        if case["k"] == "deleg": import deleg
        rec["o"] = jd(deleg.run(case["a"]) if case["k"] == "deleg" else mod.run(case["k"], case["a"]))
    except HarnessError: raise
    except Exception as e:
        rec["x"] = type(e).__name__
        rec["err"] = traceback.format_exc()[-1500:]
    finally: signal.alarm(0)
    return rec
