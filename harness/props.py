prop("P01", "Indexing a map returns the right pixels with a geometry that matches them",
 "Indexing a map with any combination of slices, integers, ellipsis and new axes selects exactly the elements that plain array indexing would, as a view of the original data, and returns a map whenever both sky axes survive as slices and a plain array otherwise. The returned map's world coordinates are those of the selected pixels: with unit steps every pixel keeps its sky position, and with a step of n each pixel covers the block of n original pixels it starts. Slicing a bare geometry gives the same shape and coordinates, and neither operation changes the coordinates of the map being indexed.",
 "all shapes, leading dimensions, projections, axis directions, and chains of slices with arbitrary (also negative, missing and out-of-range) start, stop and step",
 "each index position interacts with sign, step and range; a test samples a few slices, while an off-by-one in pixel coordinates only shows for particular combinations",
 ["pixell/enmap.py", "pixell/utils.py"], [("ndmap.__getitem__", "pixell/enmap.py"), ("slice_geometry", "pixell/enmap.py"), ("expand_slice, split_slice", "pixell/utils.py")], over=("inputs", "programs"))
prop("P02", "Extraction, insertion and submaps place every pixel where it belongs on the sky",
 "Extracting any pixel box or geometry from a map yields, at each output pixel, the value of the input pixel at that sky position, wrapping around the sky in longitude where the map is periodic and giving the fill value where the map has no data; negative strides in a box mirror the result. Inserting a map into another combines exactly the overlapping pixels with the requested operation and leaves all others alone, so that inserting what was extracted is a no-op. Cutting out a coordinate box returns a map covering that box to within the rounding mode, with unchanged pixel positions, and none of these operations modify their arguments.",
 "all maps, boxes (inside, outside, straddling and wrapping, several turns away), strides, geometries, fill values and operations",
 "placement depends on the relative position of two grids modulo a full turn; the combinations are far too many to sample in unit tests",
 ["pixell/enmap.py", "pixell/utils.py"], [("extract, extract_pixbox, insert, insert_at", "pixell/enmap.py"), ("submap, subgeo, subinds", "pixell/enmap.py"), ("sbox_wrap, sbox_intersect", "pixell/utils.py")])
prop("P03", "Pixel and sky coordinates are inverses and follow the map's world coordinates",
 "For every geometry, converting pixels to sky coordinates gives the position defined by the world coordinate system, and converting back gives the original pixel up to whole turns; pixel corners are half a pixel below pixel centres. The separable fast paths, the per-pixel position map, the row/column coordinate axes and the point lookups all agree with the plain conversion, and safe conversion returns coordinates without jumps along each row of pixels, within the principal range around the map.",
 "all projections, axis directions, pixel positions inside and outside the map, and batches of any shape",
 "agreement of the alternative code paths must hold for every geometry and pixel, and wrap-around makes failures appear only for particular reference points",
 ["pixell/enmap.py", "pixell/wcsutils.py"], [("sky2pix, pix2sky, posmap, posaxes", "pixell/enmap.py"), ("unwind, rewind", "pixell/utils.py"), ("is_cyl, is_separable, nobcheck", "pixell/wcsutils.py")])
prop("P04", "Constructed geometries cover the requested sky with the requested pixels",
 "Full-sky, declination-band, box and thumbnail geometries have the requested resolution or shape, cover the requested area to within a pixel, place pixel centres or edges on the poles as the requested variant demands, and a band is always an exact subset of the corresponding full-sky grid. The reported extent, area, pixel sizes, pixel areas and corners of any geometry agree with each other and with the sky area the pixels actually span.",
 "all resolutions, variants, projections, boxes and declination cuts",
 "rounding of the number of rows and columns and half-pixel offsets have to be right for every resolution",
 ["pixell/enmap.py", "pixell/wcsutils.py"], [("fullsky_geometry, band_geometry, geometry, thumbnail_geometry", "pixell/enmap.py"), ("area, pixsize, extent, corners, pixsizemap", "pixell/enmap.py"), ("fix_cdelt, pixelization, wcs builders", "pixell/wcsutils.py")])
prop("P05", "Padding, resampling by factors, shifting and stamps keep values and positions",
 "Padding adds pixels (zero, or wrapped copies) around a map without moving existing pixels on the sky; downgrading replaces each block by the requested reduction of its pixels and upgrading repeats pixels, with the pixel coordinates changed accordingly, so that downgrading an upgraded map is the identity; apodisation, shifting and cutting stamps likewise return exactly the values and positions their definitions give. Inputs are not modified.",
 "all shapes, factors, pad widths, offsets and reductions",
 "edge handling depends on divisibility and offset combinations that tests only sample",
 ["pixell/enmap.py"], [("pad, downgrade, upgrade, downgrade_geometry, upgrade_geometry", "pixell/enmap.py"), ("stamps, shift, fractional shift, apod", "pixell/enmap.py")])
prop("P06", "Maps behave like arrays that carry their geometry along",
 "Arithmetic, comparisons, reductions over leading axes, copies, pickling, stacking and type conversion on maps give the same numbers as on plain arrays, and every result that still has the sky axes carries the operand's world coordinates. Copies of a map (its copy method, the copy module, enmap.enmap, pickling) and results of arithmetic share neither data nor coordinates with the original, so that changing one never changes the other; slices share data but have coordinates of their own.",
 "all operations, dtypes, leading shapes and histories of operations",
 "aliasing and lost metadata show up only in particular sequences of operations",
 ["pixell/enmap.py"], [("ndmap.__array_wrap__, __array_finalize__, copy, __reduce__", "pixell/enmap.py"), ("samewcs, zeros, empty, full, enmap, ndmap", "pixell/enmap.py")], over=("inputs", "histories"))
prop("P07", "Maps written to disk read back identically, in full or in part",
 "A map written to any supported file format reads back with the same values, type, shape and world coordinates, also when it lives in one of several images of the same file. Reading only part of a file, by pixel box, sky box, geometry, slice or through a lazily opened map, gives exactly the same result as reading everything and then cutting, including polarisation sign conventions, and metadata-only readers report what the full read gives.",
 "all formats, dtypes, shapes, byte orders, leading dimensions, partial selections, image numbers and metadata",
 "every combination of format and partial-read path has to agree with the full read; tests exercise only a few",
 ["pixell/enmap.py"], [("write_map, read_map, read_map_geometry, read_map_dtype", "pixell/enmap.py"), ("write_fits, read_fits, write_hdf, read_hdf, read_npy, ndmap_proxy", "pixell/enmap.py"), ("get_stokes_flips, fix_endian", "pixell/enmap.py")], over=("inputs", "configurations"))
prop("P08", "A tile map behaves like the dense map it stands for",
 "Converting a map to tiles and back preserves values on active tiles and gives zero elsewhere; arithmetic, in-place arithmetic, reductions, slicing of leading axes, copies and changes of the active tile set act on a tile map exactly as the same operation acts on the dense map restricted to active tiles. Operations between maps with different tilings or different active sets are refused or combined according to the documented rules rather than silently misaligned.",
 "all shapes, tile sizes, active sets (any order), leading dimensions and sequences of operations",
 "edge tiles of different sizes and arbitrary active sets make the index bookkeeping input-dependent",
 ["pixell/tilemap.py"], [("TileMap, geometry, TileGeometry", "pixell/tilemap.py"), ("from_enmap, to_enmap, with_tiles, insert", "pixell/tilemap.py")], over=("inputs", "histories"))
prop("P09", "Distributed maps and collectives give the same answer for any process layout",
 "Reducing, gathering, scattering and redistributing arrays and tile maps over any number of processes gives every process exactly the data that a single process holding everything would have, for any assignment of pieces to processes including processes that own nothing, any order of the lists of pieces and any order in which the processes arrive. Pieces with several owners are combined by addition (tile maps) or are copies (slices of arrays); what a process contributes is not modified. No data is lost, duplicated or attributed to the wrong process.",
 "all process counts, ownership assignments, array shapes, dtypes and message schedules",
 "depends on the process count and ownership pattern; the tests run on one process",
 ["pixell/utils.py", "pixell/tilemap.py"], [("allreduce, allgather, allgatherv, redistribute", "pixell/utils.py"), ("tilemap.redistribute, reduce, write_map", "pixell/tilemap.py"), ("FakeCommunicator", "pixell/mpiutils.py")], over=("schedules", "inputs", "configurations"))
prop("P10", "Box, range, index and binning utilities are exact set and index algebra",
 "Integer-range operations (union, intersection, difference, complement, merging, mask conversion), box operations (intersection, wrapping, union, tiling), bin construction and lookup, and array reshaping helpers compute exactly the set, sequence or partition their names denote. Every element is accounted for exactly once, the inputs are left unmodified, and empty inputs are handled as empty sets.",
 "all inputs including empty, touching, nested, reversed and out-of-range ones",
 "off-by-one and empty-input errors appear only for particular configurations",
 ["pixell/utils.py"], [("range_*, mask2range, sbox_*, box helpers", "pixell/utils.py"), ("linbin, expbin, bin_data, edges2bins, label helpers", "pixell/utils.py"), ("flatten_axes, moveaxis, partial_flatten, repeat_filler", "pixell/utils.py")])
prop("P11", "Distance maps and nearest-point labels equal the brute-force answer",
 "For every geometry and set of points or mask, the distance map gives at each pixel the angular distance to the nearest point or unset pixel, and the label map names a point that attains it; all algorithm choices agree to within the accuracy they document. A maximum radius changes only pixels farther away than it, and grow, shrink and labelled-distance operations follow from this distance. Cross-matching two catalogues finds exactly the pairs within the given radius, each object at most once when only the closest or first match is kept.",
 "all geometries, point sets, masks, methods and maximum radii",
 "the fast methods propagate fronts whose errors depend on the layout of the points",
 ["pixell/enmap.py", "cython/distances_core.c", "cython/distances.pyx", "pixell/utils.py"], [("distance_from, distance_transform, labeled_distance_transform, grow_mask, shrink_mask", "pixell/enmap.py"), ("distance_from_points_*", "cython/distances_core.c"), ("crossmatch", "pixell/utils.py")])
prop("P12", "Fourier transforms satisfy the DFT definition and its identities",
 "Forward and inverse real, complex, real-even and real-odd transforms along any axes equal the sum that defines them, invert each other with the stated normalisation, and do not modify their input unless asked to. The map-level transforms, multipole maps and their normalisations preserve total power, shifting and resampling through Fourier space (also of time series, which may instead be averaged or repeated in blocks) act as exact translation and band-limited interpolation, gradients, divergences and Laplacians are the derivatives of the waves, and results do not depend on the back end or output buffer used.",
 "all sizes including odd and prime, axes, dtypes, strides, normalisations and back ends",
 "normalisation and Nyquist handling depend on the parity of each size and the choice of axes",
 ["pixell/fft.py", "pixell/enmap.py"], [("fft, ifft, rfft, irfft, dct, idct, redft00, chebt", "pixell/fft.py"), ("shift, resample_fft, fft_len", "pixell/fft.py"), ("enmap.fft, ifft, harm2map, lmap", "pixell/enmap.py")])
prop("P13", "Harmonic coefficient layout, filtering and spectra follow one index map",
 "The coefficient layout maps each multipole pair to its own element and back, and transferring coefficients between layouts, multiplying by a filter, multiplying by a matrix, computing auto- and cross-spectra and converting between orders all act element by element on the same pairs as a direct computation. Elements outside the filter's or the layout's range are treated as documented (zero), and no memory outside the arrays is touched.",
 "all lmax, mmax, layouts, dtypes, leading dimensions and filter lengths",
 "compiled loops over a triangular layout can go wrong only for particular lmax, mmax and filter lengths",
 ["pixell/curvedsky.py", "cython/cmisc.pyx", "cython/cmisc_core.c"], [("alm_info, transfer_alm, almxfl, filter, alm2cl", "pixell/curvedsky.py"), ("lmul, lmatmul, alm2cl, transpose_alm", "cython/cmisc_core.c")])
prop("P14", "Spherical harmonic transforms evaluate the harmonics on every geometry",
 "Synthesis on any supported geometry, full or partial sky, either direction along each axis, and at arbitrary points gives at every pixel the sum of coefficients times spherical harmonics for its spin; all methods agree with one another. Analysis of a band-limited full-sky map recovers its coefficients, adjoint operations are true adjoints of the forward ones, and gradients are the derivatives of the synthesised map. None of these operations modifies its inputs.",
 "all geometries, spins, band limits, dtypes, methods and leading shapes",
 "selection between specialised code paths depends on the geometry, so most are never exercised by a given test",
 ["pixell/curvedsky.py"], [("alm2map, map2alm, alm2map_pos, adjoints", "pixell/curvedsky.py"), ("analyse_geometry, flip_geometry, quad_weights, get_ducc_maps", "pixell/curvedsky.py")])
prop("P15", "Interpolating and projecting maps returns the map's own values",
 "Interpolating a map at pixel centres returns the pixel values, nearest-neighbour and linear interpolation equal the direct formula with the chosen boundary handling, and the adjoint of interpolation is its transpose. Projecting a map onto another geometry gives the input's value at each output pixel's sky position and is the identity when the geometries are equal; unobserved positions get the fill value.",
 "all maps, positions (inside, on and beyond the edges), orders, boundary modes and geometries",
 "boundary handling and coordinate conventions only show at particular positions",
 ["pixell/enmap.py", "pixell/utils.py", "pixell/interpol.py", "fortran/interpol.F90"], [("ndmap.at, project", "pixell/enmap.py"), ("interpol, interpol_prefilter, interpolator", "pixell/utils.py"), ("map_coordinates, spline_filter", "pixell/interpol.py")])
prop("P16", "Object simulation and radial binning account for every object and pixel once",
 "Simulating objects gives at every pixel the requested combination (sum, maximum or minimum) of each object's amplitude times its radial profile at the angular distance between them, truncated only below the stated threshold, independent of the cell size and order of objects. Radial sums bin every pixel within range of each object into the bin containing its distance exactly once.",
 "all geometries, object positions including off the map and across the longitude seam, profiles, amplitudes, cell sizes, dtypes and thread counts",
 "cells, wrapping and thresholds partition the work in ways that depend on the positions of the objects",
 ["pixell/pointsrcs.py", "cython/srcsim_core.c", "cython/srcsim.pyx"], [("sim_objects, radial_sum, radial_bin", "pixell/pointsrcs.py"), ("srcsim loops", "cython/srcsim_core.c")], over=("inputs", "schedules"))
prop("P17", "Memory pools never hand out overlapping or stale memory",
 "Arrays obtained from a memory pool since its last reset never overlap each other, have the requested shape, type and alignment, and keep their contents until the pool is reset or its scope is left. Pools grow when needed and, under repeated identical use, stop allocating from the system; named pools and scoped use do not disturb one another.",
 "all sequences of allocations, resets, frees and nested scopes",
 "overlap appears only for particular allocation histories",
 ["pixell/device.py"], [("Mempool, ArrayPool, ArrayMultipool", "pixell/device.py")], over=("histories",))
prop("P18", "Iterative solvers converge to the solution and resume exactly from a checkpoint",
 "For every symmetric positive definite system, right-hand side, preconditioner and inner product, the conjugate gradient solver's iterates solve the system in at most as many steps as its size up to rounding, its reported error measures the true residual, and its inputs are unchanged. Saving the state after any step and resuming from the file in a new solver continues with exactly the iterates of the uninterrupted run.",
 "all systems, checkpoint positions and numbers of resumptions",
 "resuming must be exact at every interruption point",
 ["pixell/utils.py"], [("CG, Minres", "pixell/utils.py")], over=("crash_points", "histories", "inputs"))
prop("P19", "Overlapping padded tiles reconstruct the map exactly",
 "Splitting a map into padded overlapping tiles and accumulating them back with cross-fading weights reproduces the map exactly, for any tile, padding (up to half the tile) and margin size, also on maps that go around the whole sky: the weights of all tiles covering a pixel sum to one. Each tile read has the values and sky positions of the corresponding part of the map, and writing tiles back changes only the pixels they cover.",
 "all map shapes, tile sizes, paddings, margins, read/write modes and ways of sharing the tiles between workers",
 "the sum of weights depends on how tiles meet at edges and corners",
 ["pixell/utils.py", "pixell/enmap.py"], [("padtiles, Padtiler", "pixell/enmap.py")])
prop("P20", "A multimap behaves like the list of maps it holds",
 "A container of several maps with different geometries keeps each map's values and coordinates separate: arithmetic, reductions, indexing of leading axes, copying and conversion act on it exactly as on each member individually. Writing a member through the container or the flat view is visible in the other, and converting to and from the list of maps is lossless.",
 "all numbers of maps, geometries, leading shapes and sequences of operations",
 "offsets of members within the shared buffer depend on all shapes",
 ["pixell/multimap.py"], [("multimap class, from_maps, geometry", "pixell/multimap.py")], over=("inputs", "histories"))
prop("P21", "Power spectra pack, interpolate and convert without loss",
 "Packing a symmetric spectrum matrix into its independent entries and unpacking it are inverses in every ordering scheme; reading a spectrum file written in any layout restores each entry at its multipole; binned and interpolated spectra on a map evaluate the spectrum at each pixel's multipole.",
 "all matrix sizes, orderings, schemes, axes and multipole ranges",
 "the orderings differ only for larger matrices and particular schemes",
 ["pixell/powspec.py", "pixell/enmap.py"], [("sym_compress, sym_expand, read_spectrum, write_spectrum", "pixell/powspec.py"), ("spec2flat, lbin, calc_ps2d", "pixell/enmap.py")])
prop("P22", "Celestial coordinate transformations are consistent rotations",
 "Transformations between celestial systems are invertible rotations: transforming there and back returns the original position, distances between positions are preserved, chains of transformations compose, and the polarisation rotation reported with a transformation is the angle between the two local norths. Recentring moves the named point to the requested place and its inverse undoes it.",
 "all positions including near the poles, pairs of systems and array shapes",
 "signs and argument orders only show away from special points",
 ["pixell/coordinates.py", "pixell/utils.py"], [("transform, transform_raw, recenter, euler_rot, decenter", "pixell/coordinates.py"), ("ang2rect, rect2ang, rotmatrix", "pixell/utils.py")])
prop("P23", "Wavelet and harmonic decompositions reconstruct the map",
 "Decomposing a map into wavelet or harmonic components and recombining them returns the band-limited map, for every basis and geometry supported; the basis functions' squares sum to one at every multipole in range. Each scale's map covers the same sky as the input, and the abstract harmonic interface gives the same result as the flat- or curved-sky operation it stands for. Resampling a map in Fourier space evaluates the same waves on another grid of the same patch of sky, for any pair of sizes, and the Haar pyramid reproduces the map with each level holding block averages. None of these change their input.",
 "all bases, band limits, geometries and leading shapes",
 "partition of unity has to hold at every multipole and for every choice of basis parameters",
 ["pixell/wavelets.py", "pixell/uharm.py"], [("WaveletTransform, bases, HaarTransform", "pixell/wavelets.py"), ("UHT", "pixell/uharm.py"), ("resample, resample_fft", "pixell/enmap.py")])
