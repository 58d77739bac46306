"""Base geometries used by the drivers, and observations of positions that go straight to wcslib"""
import numpy as np
from pixell import enmap, wcsutils

def mkwcs(kind, ny, nx, flip=(1,-1)):
	"""A geometry whose pixels are well inside the valid region of its projection."""
	import astropy.wcs
	w = astropy.wcs.WCS(naxis=2)
	def setup(ct, crval, cdelt, crpix):
		w.wcs.ctype = ["RA---%s" % ct, "DEC--%s" % ct]
		w.wcs.crval, w.wcs.cdelt, w.wcs.crpix = crval, cdelt, crpix
		w.wcs.cunit = ["deg", "deg"]
	dy, dx = flip
	if   kind == "car":   setup("CAR", [12.0, 0.0],  [dx*0.50, dy*0.50], [nx/2+1.0, 9.0])
	elif kind == "car2":  setup("CAR", [-40.0, 0.0], [dx*0.25, dy*0.50], [3.5, -20.0])
	elif kind == "cea":   setup("CEA", [100.0, 0.0], [dx*0.50, dy*0.50], [nx/2+0.5, 3.0]); w.wcs.set_pv([(2,1,0.9)])
	elif kind == "mer":   setup("MER", [5.0, 0.0],   [dx*0.50, dy*0.50], [2.0, 4.0])
	elif kind == "tan":   setup("TAN", [50.0, 20.0], [dx*0.10, dy*0.10], [nx/2+0.5, ny/2+0.5])
	elif kind == "zea":   setup("ZEA", [250.0,-40.0],[dx*0.20, dy*0.10], [1.0, 1.0])
	elif kind == "sin":   setup("SIN", [10.0, 85.0], [dx*0.10, dy*0.10], [2.0, 2.0])
	elif kind == "arc":   setup("ARC", [180.0, -60.0],[dx*0.10, dy*0.20],[2.0, 5.0])
	else: raise ValueError(kind)
	w.wcs.set() if False else None
	return w

KINDS = ["car", "car2", "cea", "mer", "tan", "zea", "sin", "arc"]

def wkey(w):
	"""Everything that matters in a wcs"""
	return (tuple(w.wcs.ctype), tuple(w.wcs.crval), tuple(w.wcs.cdelt), tuple(w.wcs.crpix), tuple(map(tuple,w.wcs.get_pv())),
		tuple(np.asarray(w.wcs.get_pc()).reshape(-1)))

def to_base(wcs, base, ny, nx, maxn=64):
	"""Pixel coordinates in the base geometry of the pixels of row 0 and column 0 of ny,nx pixels of wcs.
	Returns [ypos],[xpos], ignoring pixell entirely"""
	ys, xs = np.arange(min(ny,maxn)), np.arange(min(nx,maxn))
	def conv(y, x):
		y, x = np.broadcast_arrays(np.asarray(y, float), np.asarray(x, float))
		wld = wcs.wcs_pix2world(np.stack([x, y], -1).reshape(-1,2), 0)
		res = base.wcs_world2pix(wld, 0)
		return res[:,1], res[:,0]
	return conv(ys, 0)[0], conv(0, xs)[1]
