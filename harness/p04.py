"""P04 constructed geometries, areas, extents and corners"""
import random, numpy as np
from pixell import enmap, utils, wcsutils
from lib import q, qf
TRACE = "TraceP04"
MC = [dict(module="GridMC", cfg="GridMC.cfg", min_states=1000)]
ASSUMPTIONS = ["wcslib (astropy) evaluates headers correctly", "work-in-progress geometry2 family not covered"]
DEG = np.pi/180

def nob(w):
	w = w.deepcopy(); w.wcs.bounds_check(False, False); return w
def topix(w, dec, ra):
	"""[y,x] in degrees"""
	r = nob(w).wcs_world2pix(np.array([[ra, dec]], float), 0)[0]
	return [r[1], r[0]]
def tosky(w, y, x):
	y, x = np.broadcast_arrays(np.asarray(y, float), np.asarray(x, float))
	r = nob(w).wcs_pix2world(np.stack([x.reshape(-1), y.reshape(-1)], -1), 0)
	return r[:,1].reshape(y.shape), r[:,0].reshape(y.shape)

PRE = [[], [], [2], [2,3]]
def cases(tier, seed, gen):
	rng = random.Random(seed)
	N = 1 if tier == "quick" else 8
	for it in range(2500*N):
		k = rng.choice(["fullsky","band","band","box","box","box","thumb","areas","areas","genarea","corners","bounds"])
		pre = rng.choice(PRE)
		if k in ("fullsky","band"):
			variant = rng.choice(["cc","fejer1"])
			ky = rng.choice([1,2,3,4,5,6,7,9,10,12,15,18,20,30,36,45,rng.randint(1,60)])
			if variant == "cc": ky = max(ky,1)
			nx = rng.choice([1,2,3,4,5,6,8,9,10,12,15,18,20,24,36,rng.randint(1,60)])
			a = dict(variant=variant, ky=ky, nx=nx, pre=pre, byres=rng.random()<0.5)
			if k == "band":
				f0, f1 = (0, 1000*ky) if variant == "cc" else (-500, 1000*ky-500)
				for _ in range(50):
					f = sorted([rng.choice([rng.randint(f0,f1), f0, f1, 1000*rng.randint(0,ky)]), rng.choice([rng.randint(f0,f1), f0, f1])])
					a["sym"] = False
					if rng.random() < 0.3:
						m = (f0+f1)/2; d = rng.randint(1, max(1,int(f1-m))); f = [m-d, m+d]; a["sym"] = True
						if f[0] != int(f[0]): continue
						f = [int(f[0]), int(f[1])]
					# Bands with fewer rows than one are not maps. Limits exactly between rows are decided by rounding
					if f[1]-f[0] >= 1010 and all(abs(v % 1000 - 500) > 2 or v in (f0,f1) for v in f): break
				else: continue
				a["f"] = f
			yield dict(k=k, a=a)
		elif k == "box":
			proj = rng.choice(["car","car","car","cea","mer","tan","zea","arc","sin","gnom","plain"])
			zen = proj in ("tan","zea","arc","sin","gnom")
			dirs = [rng.choice([1,1,1,-1]), rng.choice([1,-1,-1])]
			# res and sizes in 1/1000 degrees
			res = [rng.choice([100,250,500,333]), rng.choice([100,250,500,333,1000])]
			if zen:
				c = [rng.randint(-60000,60000), rng.randint(-400000,400000)]; w = [rng.randint(1000,6000), rng.randint(1000,6000)]
			else:
				c = [rng.randint(-30000,30000), rng.randint(-400000,400000)]; w = [rng.randint(1000,20000), rng.choice([rng.randint(1000,50000), rng.randint(2000,359000)])]
			pos = [[c[0]-dirs[0]*(w[0]//2), c[1]-dirs[1]*(w[1]//2)],[c[0]+dirs[0]*(w[0]//2), c[1]+dirs[1]*(w[1]//2)]]
			shape = [rng.randint(1,40), rng.randint(1,40)] if rng.random()<0.35 else []
			force = rng.random() < 0.3
			ref = [rng.randint(-20000,20000), c[1]+rng.randint(-3000,3000)] if rng.random() < 0.2 and not force and not zen else []
			centre = rng.random() < 0.2
			if centre: ref = []
			if centre: shape = [rng.randint(1,40), rng.randint(1,40)]
			if zen or proj == "plain": pass
			# how far the edges may be from the requested ones. Tweaking moves them by up to half a pixel,
			# rounding the size moves the upper one by up to another half
			tw = 0 if force and not zen or (proj == "plain" and not ref) else 500
			tol = [tw+2, tw+2+(500 if not shape else 0)]
			if centre: dirs = [1,-1] if proj != "plain" else [1,1]
			yield dict(k="box", a=dict(proj=proj, pos=pos, res=res, shape=shape, pre=pre, force=force, ref=ref, dirs=dirs, tol=tol,
				centre=centre, ctr=c, std=not force and proj != "plain" or bool(ref), zen=zen, deg=rng.random()<0.5, scalar=rng.random()<0.3))
		elif k == "thumb":
			mode = rng.choice(["rres","resshape","rshape"])
			proj = rng.choice(["tan","car","zea","arc","sin"])
			scal = rng.random() < 0.4
			dirs = [rng.choice([1,-1]), rng.choice([1,-1])] if mode != "rshape" and not scal else [1,-1]
			rs = [rng.choice([50,100,125,333]), rng.choice([50,100,125,333])]
			if scal: rs[1] = rs[0]
			yield dict(k=k, a=dict(pre=pre, mode=mode, scal=scal, proj=proj, r=[rng.randint(600,3000), rng.randint(600,3000)] if rng.random()<0.5 else [rng.randint(600,3000)]*2,
				res=rs if mode != "rshape" else [],
				shape=[rng.randint(3,40), rng.randint(3,40)] if mode != "rres" else [], hasr=mode != "resshape", dirs=dirs))
		elif k == "areas":
			h = rng.choice([1,2,2,4,6,12]); dn = rng.random() < 0.4
			lo, hi = -36-(h//2), 36+h//2
			e = rng.randint(lo, hi-h) if rng.random() < 0.6 else rng.choice([lo,-36])
			ny = rng.randint(1, min(8,(hi-e)//h)) if rng.random() < 0.7 else (hi-e)//h
			if dn: e = -e
			dra = rng.choice([1,2,5,10,30]); nx = rng.randint(1, min(6,360//dra)) if rng.random()<0.7 else 360//dra
			if nx*ny > 400: nx = max(1,400//ny)
			yield dict(k=k, a=dict(n=[ny,nx], h=h, e=e, dn=dn, dra=dra, sra=rng.choice([1,-1]), ra0=rng.choice([0,10,180,-77]), cx=rng.randint(-3,10), pre=pre))
		elif k in ("genarea","bounds"):
			proj = rng.choice(["TAN","ZEA","SIN","ARC","CAR","CEA"])
			cyl = proj in ("CAR","CEA")
			n = [rng.randint(1,12), rng.randint(1,12)]
			yield dict(k=k, a=dict(proj=proj, n=n, cd=[rng.choice([50,100,300])*rng.choice([1,-1]), rng.choice([50,100,300])*rng.choice([1,-1])],
				cv=[0 if cyl else rng.choice([0,20,-50,70]), rng.choice([0,33,180,300])], cp=[rng.randint(-5,12), rng.randint(-5,12)], cyl=cyl, pre=pre))
		else:
			cdx = rng.choice([15000,30000,7500,1000,500])*rng.choice([1,-1])
			nx = rng.choice([1,2,3,8,12,24]); nx = min(nx, 360000//abs(cdx))
			cdy = rng.choice([500,1000,3000])*rng.choice([1,-1])
			yield dict(k=k, a=dict(n=[rng.randint(1,6), nx], hy=dict(cd=cdy, cv=0, cp=rng.randint(-10,24)),
				hx=dict(cd=cdx, cv=rng.choice([0,500,90000,179500,180000,-77000]), cp=rng.randint(-10,60)), corner=rng.random()<0.5, pre=pre))

def genwcs(a):
	import astropy.wcs
	w = astropy.wcs.WCS(naxis=2)
	w.wcs.ctype = ["RA---%s" % a["proj"], "DEC--%s" % a["proj"]]
	w.wcs.cdelt = [a["cd"][1]/1000, a["cd"][0]/1000]; w.wcs.crval = a["cv"][::-1]; w.wcs.crpix = a["cp"][::-1]
	if a["proj"] == "CEA": w.wcs.set_pv([(2,1,0.8)])
	return w

def run(k, a):
	pre = tuple(a["pre"])
	if k in ("fullsky","band"):
		ny = a["ky"]+(a["variant"]=="cc")
		kw = dict(res=[np.pi/a["ky"], 2*np.pi/a["nx"]]) if a["byres"] else dict(shape=(ny,a["nx"]))
		if k == "fullsky":
			shape, wcs = enmap.fullsky_geometry(dims=pre, variant=a["variant"], **kw)
		else:
			# a latitude that is f/1000 rows from the first row
			d = [(f/1000+(0 if a["variant"]=="cc" else 0.5))*np.pi/a["ky"]-np.pi/2 for f in a["f"]]
			shape, wcs = enmap.band_geometry(d[1] if a["sym"] else d, dims=pre, variant=a["variant"], **kw)
		ny, nx = shape[-2:]
		return dict(shape=q(shape), dec=qf(tosky(wcs, np.arange(ny), 0*np.arange(ny)+nx//2)[0], 1e6), ra=qf(tosky(wcs, 0*np.arange(nx)+ny//2, np.arange(nx))[1], 1e6))
	elif k == "box":
		unit = 1e-3 if a["deg"] else DEG*1e-3
		pos = np.array(a["ctr"] if a["centre"] else a["pos"])*unit
		res = np.array(a["res"])*unit
		if a["centre"]: res = res*a["dirs"]
		kw = {}
		if a["scalar"] and not a["shape"] or a["scalar"] and a["centre"]: res = abs(res[0])
		if not a["shape"] or a["centre"]: kw["res"] = res
		if a["shape"]: kw["shape"] = tuple(a["shape"])
		if a["force"]: kw["force"] = True
		if a["ref"]: kw["ref"] = np.array(a["ref"])*unit
		shape, wcs = enmap.geometry(pos, deg=a["deg"], proj=a["proj"], pre=pre, **kw)
		u = 1e-3
		if a["proj"] == "plain": u = 1e-3 if a["deg"] else 1e-3
		n = shape[-2:]
		if a["centre"]:
			c = topix(wcs, a["ctr"][0]*u, a["ctr"][1]*u)
			c1, c2 = [c[i]-n[i]/2 for i in range(2)], [c[i]+n[i]/2 for i in range(2)]
		else:
			c1, c2 = [topix(wcs, p[0]*u, p[1]*u) for p in a["pos"]]
		if   a["ref"]: org = topix(wcs, a["ref"][0]*u, a["ref"][1]*u)
		elif a["zen"] and a["centre"]: org = topix(wcs, a["ctr"][0]*u, a["ctr"][1]*u)
		elif a["zen"]: org = topix(wcs, (a["pos"][0][0]+a["pos"][1][0])/2*u, (a["pos"][0][1]+a["pos"][1][1])/2*u)
		else: org = topix(wcs, 0, 0)
		ores = a["res"] if not a["scalar"] else [a["res"][0]]*2
		return dict(shape=q(shape), c1=qf(c1,1000), c2=qf(c2,1000), org=qf(org,1000), cd=qf([wcs.wcs.cdelt[1],wcs.wcs.cdelt[0]],1e7), res=qf(ores,1e4))
	elif k == "thumb":
		kw = {}
		if a["mode"] != "resshape": kw["r"] = np.array(a["r"])*DEG*1e-3
		if a["mode"] != "rshape": kw["res"] = a["res"][0]*DEG*1e-3 if a["scal"] else np.array(a["res"])*a["dirs"]*DEG*1e-3
		if a["mode"] != "rres": kw["shape"] = tuple(a["shape"])
		shape, wcs = enmap.thumbnail_geometry(dims=pre, proj=a["proj"], **kw)
		return dict(shape=q(shape), org=qf(topix(wcs,0,0),1000), cd=qf([wcs.wcs.cdelt[1],wcs.wcs.cdelt[0]],1e7), rad=qf(topix(wcs,a["r"][0]*1e-3,a["r"][1]*1e-3),1000), res=qf(a["res"],1e4))
	elif k == "areas":
		import astropy.wcs
		w = astropy.wcs.WCS(naxis=2); cdy = a["h"]*2.5*(-1 if a["dn"] else 1)
		w.wcs.ctype = ["RA---CAR","DEC--CAR"]; w.wcs.cdelt = [a["dra"]*a["sra"], cdy]; w.wcs.crval = [a["ra0"],0]; w.wcs.crpix = [a["cx"], 0.5-2.5*a["e"]/cdy]
		shape = pre+tuple(a["n"]); ny, nx = a["n"]
		ps = enmap.pixsizemap(shape, w); sh = enmap.pixshapemap(shape, w); ext = enmap.extent(shape, w)
		area = enmap.area(shape, w)
		psb = enmap.pixsizemap(shape, w, broadcastable=True)
		sgn = enmap.extent(shape, w, signed=True)
		m = enmap.zeros(shape, w)
		return dict(psize=qf(ps,1e7/DEG), area=q(area,1e5/DEG), height=qf(sh[0,:,0],1e6/DEG), width=qf(sh[1,:,nx-1],1e6), extent=qf(ext,1e6/DEG),
			extprod=q(ext[0]*ext[1],1e5/DEG), pixsize=q(enmap.pixsize(shape,w),1e5/DEG), contour=q(enmap.area(shape,w,method="contour"),1e5/DEG),
			shapes=[q(ps.shape),q(sh.shape)], bsize=qf(np.broadcast_to(psb,(ny,nx)),1e7/DEG), sgn=qf(np.sign(sgn)), psgn=qf(np.sign([enmap.pixshape(shape,w,signed=True),m.pixshape(signed=True),m.extent(signed=True)])), mprod=q(np.prod(m.pixshape())*nx*ny,1e5/DEG),
			method=q(m.area(),1e5/DEG))
	elif k == "genarea":
		w = genwcs(a); shape = pre+tuple(a["n"]); ny, nx = a["n"]
		# area of the pixels from their outlines
		yy, xx = np.mgrid[:ny+1,:nx+1]-0.5
		d, r = tosky(w, yy, xx); d = d*DEG; r = r*DEG
		v = np.array([np.cos(d)*np.cos(r), np.cos(d)*np.sin(r), np.sin(d)])
		def tri(A,B,C):
			return 2*np.arctan2(np.abs(np.sum(A*np.cross(B,C,axis=0),0)), 1+np.sum(A*B,0)+np.sum(B*C,0)+np.sum(C*A,0))
		A, B, C, D = v[:,:-1,:-1], v[:,:-1,1:], v[:,1:,1:], v[:,1:,:-1]
		pix = tri(A,B,C)+tri(A,C,D)
		if a["cyl"]: # edges are parallels rather than great circles
			pix = np.abs(np.sin(d[1:,1:])-np.sin(d[:-1,:-1]))*abs(a["cd"][1]/1000*DEG)
		tot = pix.sum(); s = 1e6/tot
		ps = enmap.pixsizemap(shape, w)
		# pixel shapes from the opposite corners of each pixel, where that is well defined
		sh = enmap.pixshapemap(shape, w)
		dd = np.abs(d[1:,1:]-d[:-1,:-1]); dr = np.abs((r[1:,1:]-r[:-1,:-1]+np.pi)%(2*np.pi)-np.pi)*np.cos(0.5*(d[1:,1:]+d[:-1,:-1]))
		good = (np.cos(d[1:,1:])>0.2)&(np.cos(d[:-1,:-1])>0.2)
		shk = 0 if a["cyl"] else 1
		shp = [qf(np.where(good,x,1)*shk,1e6/DEG) for x in (sh[0],dd,sh[1],dr)]
		return dict(shp=shp, ref=q(tot,s), area=q(enmap.area(shape,w),s), sum=q(np.sum(ps),s), extprod=q(np.prod(enmap.extent(shape,w)),s), npixsize=q(enmap.pixsize(shape,w)*nx*ny,s),
			psize=qf(ps,1e5/pix.mean()), pref=qf(pix,1e5/pix.mean()))
	elif k == "bounds":
		w = genwcs(a); shape = pre+tuple(a["n"])
		sh = enmap.pixshapemap(shape, w)
		b = enmap.pixshapebounds(shape, w)
		return dict(lo=qf([np.min(sh[0]),np.min(sh[1])],1e6/DEG), hi=qf([np.max(sh[0]),np.max(sh[1])],1e6/DEG), b=q(np.asarray(b),1e6/DEG))
	else:
		import astropy.wcs
		w = astropy.wcs.WCS(naxis=2); w.wcs.ctype = ["RA---CAR","DEC--CAR"]
		w.wcs.cdelt = [a["hx"]["cd"]/1000, a["hy"]["cd"]/1000]; w.wcs.crval = [a["hx"]["cv"]/1000, a["hy"]["cv"]/1000]; w.wcs.crpix = [a["hx"]["cp"]/2, a["hy"]["cp"]/2]
		shape = pre+tuple(a["n"])
		b = enmap.corners(shape, w, corner=a["corner"])
		b2 = enmap.zeros(shape, w).corners(corner=a["corner"]) if a["corner"] else b
		return dict(box=qf(b,1e6/DEG), box2=qf(b2,1e6/DEG))
