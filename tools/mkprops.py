"""Writes properties.jsonl.  Kept as a script only because it is easier to edit."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, **kw):
	assert len(title) <= 80, title
	a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
	a.update(kw)
	P.append({"id": id, "title": title, "statement": " ".join(statement.split()), "quantifier": {"over": over, "text": text},
		"why_tests_cant": why, "anchors": a})

prop("C01", "Indexing a map keeps the right pixels with the right sky coordinates",
	"""Indexing a map with any numpy index expression (slices with any start, stop and step, ellipsis, integers, masks, lists, new axes) returns exactly the values numpy returns,
	and whenever both pixel axes survive, the coordinate system of the result places every kept pixel where it was (a stride of s gives pixels covering the s input pixels they stand for).
	The same holds for geometry-only slicing, for chains of slices, arithmetic, copies and pickling, and none of them changes the coordinates or values of the original (writes through views excepted).""",
	["inputs","histories"], "all index expressions, all map shapes and coordinate systems, all sequences of such operations",
	"The tests slice a few maps with a few positive slices; bounds outside the array, negative steps and chains are never combined with a coordinate check.",
	["pixell/enmap.py","pixell/utils.py"], [("ndmap.__getitem__/slice_geometry","pixell/enmap.py"),("expand_slice, split_slice","pixell/utils.py")],
	observe_at=["returned map values, shape and wcs"])

prop("C02", "Pixel and sky coordinates are mutually consistent for every pixelisation",
	"""For every geometry, the sky position reported for a pixel (position by position, as a whole coordinate map, or as separable axes, at pixel centres or corners, with or without wrapping protection) is the one its FITS coordinate system defines,
	and converting it back gives the same pixel, modulo whole turns of the sky. Wrapping protection returns positions with no jump across the map and pixel coordinates on the copy of the sky nearest the map.
	Reported corners, bounding boxes, centres, extreme-value positions, distances from the centre and pixel-box conversions agree with those per-pixel positions.""",
	["inputs","configurations"], "all shapes, projections, reference points, pixel sizes and signs; all pixels inside and outside the map",
	"Tests compare a few stored reference maps for a few geometries; branch cuts, flipped axes, offset reference points and per-axis shortcuts are not swept.",
	["pixell/enmap.py","pixell/wcsutils.py","pixell/utils.py"], [("pix2sky, sky2pix, posmap, posaxes, corners, skybox2pixbox","pixell/enmap.py"),("is_separable, is_cyl, is_plain, nobcheck, describe","pixell/wcsutils.py"),("rewind, unwind","pixell/utils.py")])

prop("C03", "Geometry builders deliver the requested patch and measure it correctly",
	"""A geometry built from a bounding box, a resolution, a shape or a combination of them has the requested resolution and shape and covers the requested box to within a pixel (exactly when a shape is given);
	full-sky and declination-band geometries tile the whole circle once with rows placed on the poles or half a pixel from them as their variant promises; thumbnail geometries are centred on their reference point.
	Pixel areas and shapes reported for a geometry (total area, per-pixel areas, pixel sizes and extents) agree with each other and with the true solid angle of those pixels, and their sum over the full sky is 4 pi.""",
	["inputs","configurations"], "all boxes, resolutions, shapes, projections and variants",
	"Tests build a handful of geometries with round numbers; combinations of variant, rounding and orientation are not enumerated.",
	["pixell/enmap.py","pixell/wcsutils.py"], [("geometry, fullsky_geometry, band_geometry, thumbnail_geometry, union_geometry, pixsizemap, area, extent","pixell/enmap.py"),("build, car, cea, ..., pixelization","pixell/wcsutils.py")])

prop("C04", "Cutting out and pasting in map regions moves every value with its sky position",
	"""Extracting, cropping, padding, stamping out, tiling or merging compatible maps gives an output in which every pixel holds the input value at the same sky position (including across the 360 degree seam and for flipped, strided, or partially and fully outside regions) and the fill value where there is none.
	Inserting is the reverse: it changes exactly the target pixels that share a sky position with the inserted map, combining values with the requested operation, and inserting what was extracted restores the original.
	Inputs that are not documented as being modified are left unchanged.""",
	["inputs","histories"], "all region positions, sizes, strides and orientations relative to the map, all combining operations",
	"Tests extract a few boxes from a few maps; they do not walk a region around the seam or across every edge and combine it with flips, strides and offsets.",
	["pixell/enmap.py","pixell/utils.py"], [("extract, extract_pixbox, submap, subinds, insert, insert_at, map_union, overlap, pad, padslice, stamps, autocrop, padtiles","pixell/enmap.py"),("sbox_wrap","pixell/utils.py")])

prop("C05", "Strided-box and range algebra matches the index sets it describes",
	"""Every operation on strided boxes, slices and half-open ranges (intersection, difference, composition, normalisation, flipping, wrapping, union, merging, splitting into blocks, membership) describes exactly the set or sequence of indices obtained by expanding its operands and performing the operation element by element.
	Splitting a periodic strided box into pieces covers each requested index that exists once, paired with the right output position.""",
	["inputs"], "all starts, stops and strides (both signs), empty boxes, any period and cap, any number of ranges",
	"The unit tests cover a handful of hand-picked boxes; off-by-one errors depend on residues of start, stop, stride and period.",
	["pixell/utils.py"], [("sbox_intersect, sbox_div, sbox_mul, sbox_flip, sbox_fix, sbox_wrap, range_normalize, range_union, range_sub, mask2range, ...","pixell/utils.py")])

prop("C06", "Changing resolution by whole factors conserves content and coordinates",
	"""Downgrading a map by any factor combines exactly the input pixels that each output pixel covers (mean by default, or any reduction) and gives coordinates whose pixel edges coincide with input pixel edges; an optional offset or reference position shifts the grid by whole input pixels and partially covered pixels are kept or dropped as requested.
	Upgrading repeats each pixel over the area it covers and is undone by downgrading with the same parameters. The generic block reduction and expansion operations do the same along any axis.""",
	["inputs"], "all shapes, factors, offsets, reductions and axes",
	"Tests downgrade maps by one or two factors that divide the map size.",
	["pixell/enmap.py","pixell/utils.py"], [("downgrade, upgrade, downgrade_geometry, upgrade_geometry, scale_geometry","pixell/enmap.py"),("block_reduce, block_expand, block_mean_filter","pixell/utils.py")])

prop("C07", "Maps survive storage, and partial reads equal reading then cutting",
	"""Writing a map to disk and reading it back, in every supported format, gives the same values, shape, data type and coordinate system, as does reading only its geometry or data type.
	Reading with any selection (index expression, sky box, pixel box, target geometry) or through a lazily loaded map gives the same result as reading everything and applying the selection in memory.
	Polarisation sign conventions recorded in the file are honoured for whatever part is read, and writing does not alter the map in memory.""",
	["inputs","histories","configurations"], "all map shapes, types, geometries, formats, selections and access sequences",
	"Tests round-trip a couple of maps and one box; the lazy path, sign-flip path and selection kinds are not crossed with each other.",
	["pixell/enmap.py"], [("write_map, read_map, read_map_geometry, read_map_dtype, read_helper, ndmap_proxy_fits, ndmap_proxy_hdf, get_stokes_flips","pixell/enmap.py")])

prop("C08", "Fourier transforms are exact, invertible and leave inputs alone",
	"""Forward and inverse complex, real, cosine/sine-type and Chebyshev transforms over any axes, for any length and precision, produce the values of the defining sums, are inverses of each other when normalised, and each transform offered as an adjoint is the exact adjoint of its partner.
	Results do not depend on the engine, number of threads, memory layout or whether an output array is supplied, and inputs are not modified.
	Frequency grids and conversions between frequency and index match the transforms; non-uniform transforms match the direct sums.""",
	["inputs","configurations"], "all array shapes, axes, precisions, memory layouts, normalisations and engines",
	"Tests cover one or two shapes per function; odd/even lengths, unusual axes and adjoint pairs are not enumerated.",
	["pixell/fft.py"], [("fft, ifft, rfft, irfft, dct, idct, chebt, fft_len, ind2freq, freq2ind, nufft family","pixell/fft.py")])

prop("C09", "Fourier-space resampling and shifting is exact for band-limited signals",
	"""Changing the number of samples of a periodic signal in Fourier space, up or down, even or odd, in one or more dimensions, reproduces every Fourier mode representable on both grids exactly at the new sample positions; going up and back down is the identity.
	Shifting by any real offset multiplies every representable mode by its exact phase, integer shifts equal rolling the array, and shifts compose.
	The coordinates of a resampled or shifted map follow its pixels.""",
	["inputs"], "all pairs of input and output lengths, all offsets, all modes, any axes and leading dimensions",
	"Tests use one even size; the treatment of the highest mode depends on the parities of both lengths.",
	["pixell/fft.py","pixell/resample.py","pixell/enmap.py"], [("resample_fft, shift, fft_flat, interpolate","pixell/fft.py"),("resample_fft","pixell/resample.py"),("resample, resample_fft, shift, fractional_shift, fftshift, downgrade_fft, upgrade_fft","pixell/enmap.py")])

prop("C10", "Flat-sky harmonic analysis of maps is invertible, adjoint and normalised",
	"""Transforming a map to harmonic space and back returns the map, for any number of components, any assignment of spins and either polarisation convention; the operators offered as adjoints are exact adjoints, and the default normalisation makes the two-dimensional power of a harmonic map independent of pixelisation.
	The multipole coordinates given for each Fourier pixel are those of the corresponding plane wave, in the right direction on the sky, so that filtering, gradients, divergences and pixel windows act on a plane wave as on the continuous one.
	Binning in radius or multipole averages exactly the pixels in each bin.""",
	["inputs","configurations"], "all map shapes, pixel sizes and orientations, component counts and spin assignments",
	"Tests transform one or two maps with default options; adjointness and handedness need every basis mode and orientation.",
	["pixell/enmap.py"], [("fft, ifft, map2harm, harm2map, queb_rotmat, lmap, laxes, lbin, rbin, grad, div, smooth_gauss, apply_window, calc_ps2d","pixell/enmap.py")])

prop("C11", "Spherical-harmonic coefficient bookkeeping is exact for every layout",
	"""For every maximum degree, order limit and layout, the coefficient index assigned to (l,m) is unique, within bounds and invertible; per-degree and per-degree-matrix scaling, layout transposition, copying between layouts, cross spectra, conversion between real and complex representations and normalisation multiply, move or sum exactly the coefficients they name and leave everything else (including memory outside the coefficients) untouched.
	Results are the same in single and double precision and for any number of threads.""",
	["inputs","configurations"], "all degree and order limits, layouts, filter lengths shorter or longer than the coefficients, component counts, precisions, thread counts",
	"Tests use one triangular layout with large lmax and matching filter lengths.",
	["pixell/curvedsky.py","cython/cmisc.pyx","cython/cmisc_core.c"], [("alm_info and its methods, almxfl, filter, alm2cl, transfer_alm, rotate_alm","pixell/curvedsky.py"),("lmul, lmatmul, transpose_alm, alm2cl, transfer_alm","cython/cmisc_core.c")])

prop("C12", "Synthesis on any pixelisation evaluates the spherical harmonics at its pixels",
	"""Turning harmonic coefficients into a map gives, in every pixel of every supported geometry (full or partial sky, cylindrical or not, flipped, offset, masked, arbitrary position lists or ring layouts), the value of the spin-weighted harmonic sum at that pixel's position; all evaluation methods agree.
	Derivative maps are the gradients of that sum, and every transform offered as an adjoint is the exact adjoint of its partner, without modifying its inputs.""",
	["inputs","configurations"], "all coefficient indices and spins, all geometries and methods",
	"Tests compare stored maps for one geometry; the choice of method, flips, offsets and block boundaries depend on the geometry's parameters.",
	["pixell/curvedsky.py"], [("alm2map, alm2map_adjoint, alm2map_pos, analyse_geometry, get_ring_info, calc_locinfo, alm2map_raw_2d/cyl/general","pixell/curvedsky.py")])

prop("C13", "Analysis inverts synthesis for band-limited skies",
	"""For every full-sky cylindrical geometry with enough rows and columns for the band limit, analysing a synthesised map returns the coefficients it was made from, for every spin, orientation and starting column; analysis on any geometry is the quadrature-weighted adjoint of synthesis, and iterative refinement of it is that many steps of adding the analysis of the residual.
	Ring weights integrate every band-limited zonal function exactly and sum to the sphere's area, rotating coefficients rotates the sky, and profile/beam conversions between radius and degree are mutually inverse for band-limited profiles.""",
	["inputs","configurations"], "all band limits, spins, geometries, methods and iteration counts",
	"Tests analyse one map; parity of the sizes, orientation and the placement of rows change the quadrature branch taken.",
	["pixell/curvedsky.py"], [("map2alm, map2alm_adjoint, quad_weights, rotate_alm, prof2alm, profile2harm","pixell/curvedsky.py")])

prop("C14", "Tiled maps behave like a dictionary of tiles under any history of operations",
	"""A tiled map with any set of active tiles behaves, under every sequence of construction, indexing, assignment, arithmetic, reactivation, copying and conversion, exactly like the corresponding collection of per-tile arrays: tile boundaries partition the geometry, each tile's values and geometry are those of its part of the sky, in-place edits affect only the addressed tiles, and combining maps with different active tiles follows the documented rule.
	Converting to an ordinary map and back is lossless for active tiles and uses the fill value elsewhere.""",
	["histories","inputs"], "all tile shapes, active sets (any order) and operation sequences",
	"Tests exercise a single tiling with few operations.",
	["pixell/tilemap.py"], [("TileGeometry, TileMap, TileView, to_enmap, insert, map_mul","pixell/tilemap.py")])

prop("C15", "Distributed data operations give the serial answer for every number of ranks",
	"""Redistributing, reducing, gathering and scattering map tiles and array boxes across any number of ranks, with any assignment of pieces to ranks and any order in which the ranks make progress, delivers to each rank exactly the data that the same operation on the undivided data would put there, and never deadlocks.
	On a single rank every such operation reduces to a local copy.""",
	["schedules","configurations","inputs"], "all rank counts, ownership patterns, box layouts and interleavings of ranks",
	"The test suite has no distributed test at all.",
	["pixell/tilemap.py","pixell/utils.py","pixell/mpi.py","pixell/mpiutils.py"], [("redistribute, reduce, get_active_distributed","pixell/tilemap.py"),("allreduce, allgather, allgatherv, send, recv, redistribute, greedy_split","pixell/utils.py"),("FakeCommunicator","pixell/mpi.py")])

prop("C16", "Distance transforms report the true nearest point, by every method",
	"""For any geometry and any set of points or mask, every pixel is assigned the great-circle distance to the nearest point (or nearest blocked pixel or labelled region edge) and the index of a point or region achieving it; the direct methods are exact, the propagating methods report the true distance to the point they name and are never more than about two thirds of a pixel from the optimum, a search limit only truncates distances above it, and growing or shrinking a mask by a radius changes exactly the pixels within that distance.
	Results do not depend on the number of threads or on supplied output buffers.""",
	["inputs","configurations"], "all masks and point sets, geometries, methods and search limits",
	"Tests compare two methods on one mask.",
	["cython/distances.pyx","cython/distances_core.c","pixell/enmap.py"], [("distance_from, distance_transform, labeled_distance_transform, grow_mask, shrink_mask","pixell/enmap.py"),("bubble, heap, cellgrid, simple","cython/distances_core.c")])

prop("C17", "Simulated sources are the sum of their profiles, wherever they land",
	"""Painting objects with tabulated radial profiles onto a map gives, in every pixel, the combination (sum, maximum or minimum as requested) of each object's amplitude times its profile at the true distance, for objects inside, outside and across the edges or the seam of any geometry, wherever the profile exceeds the requested lower limit and lies within the maximum radius (parts below the limit may or may not be painted); the result does not depend on the order of the objects, the internal cell size or the number of threads.
	The reverse operation returns, for each object, the sums of the map over the requested radial bins, leaving the map unchanged. The older map-based beam simulation agrees away from the poles.""",
	["inputs","configurations"], "all object positions, amplitudes, profiles, combining operations, geometries and tuning parameters",
	"Tests paint a few sources in the middle of a map.",
	["cython/srcsim.pyx","cython/srcsim_core.c","pixell/pointsrcs.py"], [("sim_objects, radial_sum, radial_bin","pixell/pointsrcs.py"),("sim_objects, radial_sum","cython/srcsim_core.c")])

prop("C18", "Interpolation reproduces the samples and its transpose is exact",
	"""Interpolating an array at sample positions returns the samples, for every order, border rule and precision (for the non-wrapping spline borders, away from the edge); polynomials up to the interpolation order are reproduced away from borders; positions outside the array follow the stated border rule; derivatives are those of the interpolated function wherever it is smooth; and the transposed operation is the exact adjoint.
	Reading a map at sky positions or projecting it to another geometry returns interpolated values of the map at those positions, and is the identity at shared pixel centres.""",
	["inputs","configurations"], "all array shapes, positions, orders, border rules, precisions and leading dimensions",
	"Tests interpolate one smooth function with one order.",
	["pixell/interpol.py","fortran/interpol.F90","pixell/utils.py","pixell/enmap.py"], [("map_coordinates, spline_filter, get_weights, interpolator classes","pixell/interpol.py"),("interpol","pixell/utils.py"),("at, project","pixell/enmap.py")])

prop("C19", "Displacing and lensing moves points along great circles and preserves structure",
	"""Offsetting positions by a gradient moves each of them by the gradient's length along the great circle leaving in its direction, everywhere on the sphere including near and across the poles, and rotates polarisation by the angle parallel transport requires; zero displacement is the identity.
	Lensing a temperature or temperature-plus-polarisation map equals evaluating the unlensed map at the displaced positions, flat-sky displacement of a plane wave follows it, and conversions between lensing potential, convergence and deflection are mutually inverse.""",
	["inputs","configurations"], "all positions, displacement lengths and directions, map geometries and options",
	"Tests lens one sky with small deflections.",
	["pixell/lensing.py"], [("offset_by_grad, offset_by_grad_helper, displace_map, lens_map, lens_map_curved, phi_to_kappa, pole_wrap","pixell/lensing.py")])

prop("C20", "Wavelet decompositions are complete: the inverse returns the map",
	"""For every wavelet basis, the squared responses of the scales sum to one at every multipole covered (for the Butterworth basis, up to its tolerance), and for every geometry a wavelet decomposition followed by its inverse returns the original map, with any leading dimensions and any number of scales that each hold at least one mode.
	Scale maps have the geometry and resolution announced for them, and the Haar-like block transform is likewise inverted exactly.""",
	["inputs","configurations"], "all bases and parameters, geometries, leading dimensions",
	"Tests decompose one map with one basis.",
	["pixell/wavelets.py"], [("WaveletTransform, basis classes, HaarTransform","pixell/wavelets.py")])

prop("C21", "Lists of maps act like their members and share one buffer consistently",
	"""A collection of maps with different geometries behaves, under indexing, views, arithmetic, reductions, copying, selection of components and storage, exactly as the list of its member maps would individually; views of members refer to the same data, so edits through either are visible through both, and negative indices count from the end.""",
	["histories","inputs"], "all member geometries, leading dimensions and operation sequences",
	"The existing tests do not exercise sequences of operations on such collections.",
	["pixell/multimap.py"], [("ndmaps/multimap constructors, maps view, __getitem__, geometries, read/write","pixell/multimap.py")])

prop("C22", "Searching, grouping, sorting and binning helpers match their definitions",
	"""The array helpers for locating values, grouping and matching elements, splitting work, building bins and histograms, parsing index lists and cumulative operations return (number of bins within the number of values, whole blocks in block filters), for every input including empty, repeated, unsorted and single-element ones, exactly what an element-by-element evaluation of their definition gives, without modifying their inputs.""",
	["inputs"], "all short arrays over a small alphabet of values, including empty ones",
	"The tests sample each helper at one or two hand-picked arrays, if at all.",
	["pixell/utils.py"], [("find, contains, common_vals, uncat, union, crossmatch, label_unique, bin_data, pathsplit, parse_ints, greedy_split, ...","pixell/utils.py")])

prop("C23", "Angle, rotation and coordinate conversions are exact and invertible everywhere",
	"""Rewrapping an angle changes it by a whole number of periods into the requested window, and unwinding removes every jump; conversions between angles and vectors, Euler rotations, great-circle distances and polarisation rotation angles agree with direct vector geometry and are undone by their inverses, including at the poles, at the seam and for nearly coincident or antipodal points.
	Transformations between sky coordinate systems are rotations: they compose, invert and preserve distances, and rotate polarisation consistently.""",
	["inputs"], "all angles, reference points and periods; all pairs of coordinate systems",
	"Tests check a few generic positions.",
	["pixell/utils.py","pixell/coordinates.py"], [("rewind, unwind, ang2rect, rect2ang, angdist, rotmatrix, euler","pixell/utils.py"),("transform, transform_raw, euler_rot, recenter, decenter","pixell/coordinates.py")])

prop("C24", "Iterative solvers converge correctly and resume exactly from saved state",
	"""For every symmetric positive definite system with a nonzero right-hand side, the conjugate gradient solver reaches the solution in at most as many steps as there are unknowns, with monotonically decreasing energy error, with any preconditioner and starting point; the companion solver for symmetric indefinite systems reaches the solution likewise.
	Stopping the conjugate gradient solver at any step, saving its state and resuming in a new process gives the same sequence of iterates as running uninterrupted, and the inputs are not modified.""",
	["crash_points","inputs","histories"], "all systems over a small alphabet, all interruption points",
	"Tests solve one system without interruption.",
	["pixell/utils.py"], [("CG, Minres","pixell/utils.py")])

prop("C25", "Attribute dictionaries keep dictionary semantics under any history",
	"""The attribute-accessible dictionary type behaves, under any sequence of item and attribute reads, writes, deletions, updates, copies and iteration, like an ordinary dictionary in which attribute access is item access, and stores numeric arrays, scalars, byte strings and nested dictionaries to disk and loads them back without loss, including partial loads by group.""",
	["histories","inputs"], "all operation sequences over a small key and value alphabet",
	"There are no tests for operation sequences on it.",
	["pixell/bunch.py"], [("Bunch, read, write","pixell/bunch.py")])

prop("C26", "Per-pixel matrix operations equal doing the linear algebra pixel by pixel",
	"""Applying per-pixel matrices to component maps, raising per-pixel matrices to any power, inverting, multiplying, eigen-decomposing, limiting eigenvalues, measuring condition numbers and rotating polarisation gives in every pixel exactly the corresponding matrix result, for every number of components, precision, axis placement and leading dimension, degenerate and zero matrices included.""",
	["inputs","configurations"], "all matrices over a small alphabet of entries, axes and precisions",
	"Tests use one random matrix per function.",
	["pixell/array_ops.py","fortran/array_ops.F90","pixell/utils.py","pixell/enmap.py"], [("eigpow, matmul, eigflip, condition_number_multi, roll_rows, svdpow","pixell/array_ops.py"),("map_mul, multi_pow, rotate_pol","pixell/enmap.py"),("eigpow, ...","pixell/utils.py")])

prop("C27", "Power spectrum tables are laid out, converted and stored losslessly",
	"""Expanding compact spectra to full symmetric matrices and compressing them back is lossless for every component count and ordering scheme; scaling between the plotted and raw conventions is mutually inverse above the monopole; and spectra, covariance matrices and lensing spectra written to disk are read back unchanged to the written precision with rows placed at their multipoles.""",
	["inputs","configurations"], "all component counts, ordering schemes, multipole ranges and file layouts",
	"Tests read a single file.",
	["pixell/powspec.py"], [("sym_expand, sym_compress, read_spectrum, write_spectrum, scale_spectrum","pixell/powspec.py")])

prop("C28", "The unified flat/curved harmonic interface honours one contract",
	"""The harmonic interface that hides whether a map is treated as flat or curved gives, in both modes and for every geometry: an inverse pair of transforms for band-limited maps (in curved mode on the full sky), exact adjoint partners, multiplication by degree-dependent filters equal to filtering the coefficients, and sums and norms consistent with the map's own.""",
	["inputs","configurations"], "all geometries, modes, filters and component counts",
	"Tests do not cover adjointness or the curved branch.",
	["pixell/uharm.py"], [("UHT","pixell/uharm.py")])

prop("C29", "Masks, apodisation and edge handling act exactly where they should",
	"""Apodisation tapers are one in the interior, fall monotonically to zero at the edges over the requested width and depend only on the distance to the edge or mask; edge detection and cropping remove exactly the blank border of a map that is not all blank; replacing bad values or inpainting changes exactly the bad pixels; outputs keep the geometry and inputs stay unchanged unless the operation is in place.""",
	["inputs"], "all small masks, widths, profiles and fill modes",
	"Tests do not enumerate masks or widths.",
	["pixell/enmap.py"], [("apod, apod_mask, find_blank_edges, autocrop, padcrop, fillbad, inpaint","pixell/enmap.py")])

prop("C30", "Reprojection carries values and polarisation to the right place on the sky",
	"""Converting a map to or from healpix, with or without a rotation of the coordinate system (named or given as Euler angles), and cutting out recentred thumbnails gives at every output pixel the value of the input sky at the position that pixel comes from:
	exactly for band-limited skies with the harmonic method, and equal to the requested interpolation of the input samples otherwise. Spin components are turned by the angle between the old and new local north, extensive quantities are scaled by the ratio of pixel areas,
	and the result does not depend on batch size or on whether the output array was supplied. Inputs are left unchanged. Resolutions chosen automatically obey the requested restriction.""",
	["inputs","configurations"], "all geometries, healpix resolutions, rotations, spins, component layouts, interpolation orders and batch sizes",
	"Tests compare a few stored thumbnails; rotations of spin components, supplied outputs, batches and extensive maps are not covered.",
	["pixell/reproject.py","pixell/curvedsky.py","pixell/coordinates.py"], [("map2healpix, healpix2map, thumbnails, thumbnails_ivar, rot2euler, restrict_nside","pixell/reproject.py"),("rotate_alm, alm2map_healpix, map2alm_healpix","pixell/curvedsky.py")])

prop("C31", "Doppler boosting maps the rest-frame sky to the observed sky",
	"""Aberrating a map gives at every pixel the value of the rest-frame sky in the Lorentz-boosted direction: exactly for band-limited full-sky maps in the default layout and any speed and direction, and the periodic trigonometric interpolation of the samples for patches.
	Polarisation components are parallel-transported along the boost, modulation follows Planck's law (or the plain Doppler factor) for every unit conversion, frequency and monopole, with or without the dipole, deboosting is boosting in the opposite direction, and inputs are left unchanged.
	Reusing a prepared aberrator or modulator gives the same result, in either precision.""",
	["inputs","configurations"], "all geometries, directions, speeds, spins, modulation modes, frequencies and units",
	"No test covers boosting.",
	["pixell/aberration.py","pixell/utils.py"], [("aberrate_map, boost_map, modulate_map, Aberrator, Modulator, calc_boost_1d, apply_modulation","pixell/aberration.py"),("planck, dplanck, iplanck_T","pixell/utils.py")])

prop("C32", "Matched filters and finders are optimal for their documented noise model",
	"""For every pixel, each matched filter returns rho = S'N^-1 m and kappa = S'N^-1 S for the beam S and the noise model N it documents (up to its documented approximation of kappa and flat-sky corrections), so that rho/kappa is the unbiased flux of a source there and kappa its inverse variance,
	and all noise models that describe the same noise agree. The filters are linear, treat leading components according to the covariance between them, and leave their inputs unchanged. Finders report every isolated source above the threshold once, at the right position, flux and uncertainty, sorted by significance and honouring thresholds and penalties;
	measurers return the flux at given positions; modellers paint the sum of the catalogue's sources; multi-class versions treat every entry with its own class; iterative versions account for neighbours.""",
	["inputs","configurations"], "all maps, beams, noise spectra, depth maps, catalogues and source positions",
	"No test covers this module.",
	["pixell/analysis.py","pixell/uharm.py","pixell/utils.py"], [("matched_filter_constcov, matched_filter_white, matched_filter_constcorr_lowcorr, matched_filter_constcorr_smoothivar, matched_filter_constcorr_dual, NmatConstcov, NmatConstcorr, NmatWavelet, FinderSimple, FinderMulti, FinderMultiSafe, FinderIterative, MeasurerSimple, MeasurerMulti, MeasurerIterative, ModellerPerfreq, ModellerScaled, ModellerMulti, snr_split, solve_mapsys","pixell/analysis.py")])

prop("C33", "Beams, profiles, spectra and times are described correctly",
	"""Radial and logarithmic Fourier transforms of a profile equal its continuous transform over the requested range and invert each other, for either way of giving the range. Solid angles, beam windows, pixel windows, elliptical-beam parameters, disk overlaps and Airy patterns equal their defining integrals;
	conversions between scales, resolutions and multipoles invert each other. Blackbody, greybody and Sunyaev-Zeldovich emission laws and their derivatives follow Planck's law at every frequency and temperature, and the pressure profile's projection and transform equal the line-of-sight and Hankel integrals.
	Conversions between unix time, julian dates and calendar dates invert each other and agree with the calendar. Scalars and arrays of any shape give the same values, and inputs are left unchanged.""",
	["inputs"], "all sizes, ranges, frequencies, temperatures, shapes and dates",
	"No test covers these functions.",
	["pixell/utils.py"], [("RadialFourierTransform, FFTLog, profile_to_tform_hankel, tform_to_profile, calc_beam_area, airy, lairy, disk_overlap, expand_beam, compress_beam, pixwin_1d, planck, dplanck, graybody, tsz_spectrum, tsz_profile_los, tsz_tform, flux_factor","pixell/utils.py"),("ctime2mjd, mjd2ctime, ctime2djd, ctime2jd, ctime2date","pixell/utils.py")])

prop("C34", "Plots show the map: colours, orientation, ranges and grid",
	"""A plotted image has one pixel per (possibly up- or downgraded, sliced or cropped) map pixel, with east to the left and north up whatever the map's own pixel order, and each pixel's colour is the colour scheme's piecewise linear interpolation at the map value's position in the colour range; values outside the range saturate and undefined or masked values are transparent.
	The colour range is the requested one per component, or else the documented quantiles of all defined values. This holds for every combination of options, for scalar and rgb plots, tiles, stamps and symmetric matrices, for either colour implementation, number type and number of threads, and for options given as strings, keywords or a mixture; the map itself is never changed.
	Layers composite to the plot, grid lines lie on the coordinate they are labelled with at multiples of the spacing, contours separate the values they stand for, and plots are named and distributed over tasks without omissions or duplicates.""",
	["inputs","configurations","schedules"], "all maps, colour schemes, options, thread counts and task counts",
	"No test covers plotting.",
	["pixell/enplot.py","pixell/colorize.py","pixell/cgrid.py","fortran/colorize.f90","fortran/array_ops.F90"], [("colorize, Colorscheme","pixell/colorize.py"),("plot_iterator, get_map, get_color_range, map_to_color, draw_map_field, draw_contours, draw_annotations, calc_contours, hwexpand, hwstack, merge_plots, write","pixell/enplot.py"),("calc_gridinfo, calc_label_pos, prune_bad_segs","pixell/cgrid.py"),("remap, direct, direct_colorcap","fortran/colorize.f90")])

prop("C35", "Memory pools hand out disjoint aligned memory; timers account exactly",
	"""After any sequence of allocations, resets and frees, the buffers a memory pool has handed out since the last reset have the requested size and alignment, never overlap each other or those of another pool, and keep their contents. The pool's size and capacity are what has been handed out and its maximum so far;
	a reset consolidates the pool to exactly its capacity, and no new memory is requested until more than that is needed, so that repeated work settles. Arrays made in a pool have the requested shape, type and values and are copies of their source.
	Timed blocks account for every entry, nested, repeated or left by an exception, under the given clock. The sqlite helper lists tables, columns and rows completely up to its limit.""",
	["histories","configurations"], "all operation sequences, sizes, alignments, and block nestings",
	"No test covers these modules; the pool's bookkeeping only goes wrong after particular sequences of operations.",
	["pixell/device.py","pixell/bench.py","pixell/sqlite.py","pixell/memory.py"], [("Mempool, ArrayPoolCpu, ArrayMultipool, AllocAligned, DeviceCpu","pixell/device.py"),("Bench","pixell/bench.py"),("SQL, show, format_result","pixell/sqlite.py")])

prop("C36", "Source catalogue files are read and written faithfully",
	"""Every source in a catalogue file is returned with the position, fluxes, uncertainties and other columns the file holds, converted to the library's units as each format defines, for every supported text and binary format, any number of sources (including a single one, and none where the format allows it), components and bands.
	The format is found automatically when it is not named, and gives the same catalogue as naming it. Writing a catalogue and reading it back returns the same catalogue, to the digits a text file keeps. Conversion to source parameters keeps position and amplitude. Columns whose names are translated keep their type, shape and contents, other columns and the input are unchanged, and a file in no known format is refused.""",
	["inputs","configurations"], "all catalogues, formats and file types",
	"No test reads or writes a catalogue.",
	["pixell/pointsrcs.py"], [("read, read_nemo, read_simple, read_dory_fits, read_dory_txt, read_fits, write_sauron, read_sauron, format_sauron, translate_dtype_keys, src2param","pixell/pointsrcs.py")])

prop("C37", "Text, file, environment, type and date helpers do what they say",
	"""The small helpers that scripts built on the library depend on behave as documented for every input: lists of numbers and strings are parsed, replaced, sliced and encoded exactly, a missing pattern is an error; directories, links and time stamps are created, replaced or refreshed without touching anything else, whatever was there before; environment variables are set, kept or removed as asked;
	text lines and tables are read completely; number types are mapped to their native, real and complex versions; contiguity of any array view is judged correctly; joint iteration advances every iterator equally often; suppressed warnings come back exactly when the block is left. Dates convert to unix time and back in any time zone; sexagesimal angles and source names keep sign and digits. Block medians, basis decompositions and periods of pure tones equal their definitions.""",
	["inputs","histories","configurations"], "all strings, number lists, file states, array layouts, nestings, dates, time zones and positions",
	"No test covers these helpers.",
	["pixell/utils.py"], [("parse_numbers, replace, regreplace, streq, contains_any, chararray_slice, encode_array_if_necessary, decode_array_if_necessary, mkdir, symlink, touch, glob, lines, read_lines, load_ascii_table, getenv, setenv, native_dtype, real_dtype, complex_dtype, iscontig, zip2, nowarn, Printer, first_importable, date2ctime, ctime2date, format_sexa, jname, medmean2, decomp_basis, find_period_fourier, astuple, moveaxes","pixell/utils.py")])

prop("S01", "Random skies have the requested covariance",
	"""Simulated random maps and harmonic coefficients drawn with a given power spectrum have exactly that covariance in distribution, for all seeds taken together (one-dimensional spectra on flat maps up to the few percent their smoothing over pixels allows).
	The same seed gives the same result, and single-component coefficients drawn to a higher maximum degree agree with those drawn to a lower one.""",
	["inputs"], "all spectra and geometries, in distribution over seeds",
	"A test can only estimate a covariance from finitely many draws.",
	["pixell/enmap.py","pixell/curvedsky.py"], [("rand_map","pixell/enmap.py"),("rand_alm","pixell/curvedsky.py")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
	for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
