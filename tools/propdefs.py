IN = ["inputs"]; INH = ["inputs","histories"]; INC = ["inputs","configurations"]
prop("G01", "Selecting, cropping, padding and shifting keep every pixel on its sky position",
 "Whenever a map is sliced, indexed, cropped, padded, cut to a sky or pixel box, cyclically shifted or has its reference point moved, every pixel that survives keeps its value, and the sky position the result assigns to it is the one it had before (a strided slice has proportionally larger pixels that start at the same pixel edges). Selections that no longer form a sky grid behave like plain array indexing and never carry wrong coordinates, and out-of-range, negative, strided and reversed slices follow array-indexing rules. The input map and its coordinate system are left unchanged.",
 INH, "every map shape, projection, orientation, number of leading dimensions, slice (including negative, out-of-range, strided and reversed) and chain of such selections",
 "tests slice a handful of fixed maps; wrong coordinates only show for particular combinations of step, sign, bounds and projection", ["pixell/enmap.py","pixell/utils.py","pixell/wcsutils.py"],
 [("slice_geometry","pixell/enmap.py"),("submap/subinds","pixell/enmap.py"),("expand_slice/split_slice","pixell/utils.py"),("pad, padslice, autocrop, shift, recenter_geo","pixell/enmap.py")],
 "Positions are recomputed from the FITS projection equations in an independent implementation; held on the seeded workloads, not proved")
prop("G02", "Pixel-to-sky and sky-to-pixel conversion are exact and invert each other",
 "The sky position reported for any pixel coordinate is the one the map's FITS projection defines, and converting a position inside the map back yields the pixel it came from. Position maps, per-axis positions, corner and box reports, containment tests, extrema and distances-to-a-point agree with this, for full-sky, partial, wrapped and flipped maps alike.",
 IN, "every supported projection, shape, orientation, reference point, pixel coordinate and sky position, including across the RA wraparound and at the poles",
 "tests compare a few grids against stored values; wraparound and branch choices depend on geometry and position", ["pixell/enmap.py","pixell/wcsutils.py"],
 [("pix2sky/sky2pix","pixell/enmap.py"),("posmap/posaxes/pixmap","pixell/enmap.py"),("corners/box/skybox2pixbox/contains","pixell/enmap.py"),("argmax/argmin","pixell/enmap.py")],
 "Oracle: independent FITS projection equations plus astropy for the oblique cases")
prop("G03", "Geometry builders deliver the coverage, resolution and alignment requested",
 "A geometry built from a resolution, a shape, a box, a centre or a declination range covers the sky that was asked for (to within a pixel), has the requested shape or resolution, and follows the documented pixel alignment of its variant. Geometries built with the same resolution are pixel-compatible, rescaled or downgraded geometries cover the same sky, and reported overlaps and neighbourhoods contain every pixel they should.",
 IN, "every projection, variant, resolution, box (also across the RA wraparound), shape and extra-dimension request the builders document",
 "tests build a few full-sky and patch geometries with round numbers", ["pixell/enmap.py","pixell/wcsutils.py"],
 [("geometry/geometry2/fullsky_geometry/band_geometry/thumbnail_geometry","pixell/enmap.py"),("build/fullsky/pixelization/validate","pixell/wcsutils.py"),("overlap/union_geometry/neighborhood_pixboxes","pixell/enmap.py")],
 "Builders are judged by what the resulting pixels cover according to the projection equations; branches documented as work in progress are outside the workload")
prop("G04", "Pixel areas and sizes are the true solid angles and add up",
 "The area reported for each pixel of a map is the solid angle of that pixel, the areas of a full-sky map sum to 4 pi, and the total area, average pixel size and pixel side lengths are consistent with them. Shortcut computations for separable maps agree with the general ones.",
 IN, "every projection, shape, orientation, patch position (poles and RA wraparound included)", "tests check a few totals; per-row errors cancel in sums and depend on geometry", ["pixell/enmap.py"],
 [("pixsizemap/pixshapemap/area/extent","pixell/enmap.py")], "Cylindrical areas compared to the analytic solid angle, others to a numerical outline integral (1%)")
prop("M01", "Cutting, pasting, tiling and reprojecting put values at the same sky position",
 "Extracting from, inserting into and combining maps on compatible grids moves each value to the pixel at the same sky position, wrapping around the sky where the map does and using the fill value or leaving the target untouched where there is no overlap. Processing a map tile by tile through overlapping tiles reproduces the map, and interpolating a map at or onto other positions returns its values there to the accuracy of the chosen interpolation order.",
 INH, "every pair of compatible geometries and overlap (none, partial, wrapped, repeated), pixel box, tiling, combination operator, interpolation mode and border", "tests cover a few extract and project calls on one geometry", ["pixell/enmap.py","pixell/utils.py"],
 [("extract/extract_pixbox/insert/insert_at/map_union","pixell/enmap.py"),("padtiles/Padtiler/tile_maps/stamps","pixell/enmap.py"),("project/at","pixell/enmap.py"),("sbox_wrap","pixell/utils.py")],
 "Oracle: integer pixel arithmetic modulo the number of pixels around the sky; interpolation compared to known smooth functions")
prop("M02", "Changing resolution conserves the data and the sky positions",
 "Downgrading replaces each block of pixels with the requested aggregate of exactly those pixels, upgrading duplicates each pixel, and the two undo each other where documented, with each output pixel centred on the sky area it represents. Fourier resampling and fractional shifts reproduce band-limited signals exactly at the new sample positions, for maps and plain arrays, and spline resampling approximates smooth ones. Inputs are left unchanged.",
 IN, "every shape (odd and even), factor, offset, reference point, aggregate, axis selection and data type", "tests use a few even sizes; leftovers, offsets and odd lengths take other paths", ["pixell/enmap.py","pixell/utils.py","pixell/resample.py","pixell/fft.py","pixell/wcsutils.py"],
 [("downgrade/upgrade/resample/resample_fft/fractional_shift","pixell/enmap.py"),("block_reduce/block_expand","pixell/utils.py"),("resample_fft/downsample_bin/upsample_bin","pixell/resample.py")],
 "Oracle: explicit block loops and analytic trigonometric polynomials")
prop("I01", "Maps survive disk, and partial reads equal a full read plus selection",
 "Writing a map to FITS or HDF and reading it back gives the same values, data type, leading dimensions and pixel positions, and maps also survive pickling. Reading only a part (index, pixel box, sky box, geometry, delayed access, any order and number of reads) gives exactly what reading everything and selecting would, and the file is converted to the COSMO polarization convention exactly once. Geometry, data type and header queries agree with the stored map, and writing does not alter the map in memory.",
 INH, "every map, file format, data type, read pattern and sequence of reads through the same delayed map", "tests write and read a few maps; stale or doubly converted buffers need repeated and partial reads", ["pixell/enmap.py"],
 [("write_map/write_fits/write_hdf","pixell/enmap.py"),("read_map/read_fits/read_hdf/read_helper","pixell/enmap.py"),("ndmap_proxy_fits/ndmap_proxy_hdf","pixell/enmap.py"),("get_stokes_flips","pixell/enmap.py")],
 "Files are additionally read with astropy.io.fits and h5py as independent readers")
prop("F01", "Fourier-type transforms compute their defining sums and invert",
 "The FFT wrappers compute the discrete Fourier, real Fourier, cosine, sine and Chebyshev transforms they name, over any set of axes, for any length, data type, memory layout and choice of backend or thread count, into a provided output or a new one, and each inverse undoes its transform with the documented normalization. Frequencies, fast-length helpers, cyclic fractional shifts and Fourier resampling follow the same definitions. Inputs are left unchanged.",
 INC, "every array shape, axis selection, data type, memory layout, direction, output argument, engine and thread count", "tests run a few transforms on one shape", ["pixell/fft.py"],
 [("fft/ifft/rfft/irfft","pixell/fft.py"),("redft00/dct/dst/chebt","pixell/fft.py"),("shift/resample/fft_len","pixell/fft.py")],
 "Oracle: explicit transform matrices")
prop("F02", "Flat-sky harmonic analysis has consistent units, wavevectors and E/B signs",
 "The Fourier transform of a map, its physical normalization, wavevectors, E/B decomposition, gradients, Laplacians, divergences, smoothing, pixel windows, 2D spectra and radial or multipole binning are mutually consistent: plane waves have the derivatives, filter response and polarization rotation that their wavevector implies, transforms invert exactly, adjoints satisfy the inner-product identity, bins average exactly the pixels inside them, and the coordinate system is carried along. Inputs are left unchanged.",
 IN, "every map geometry, shape (odd and even), leading dimensions, spin layout, normalization and filter parameter", "tests check round trips of one map", ["pixell/enmap.py"],
 [("fft/ifft/map2harm/harm2map and adjoints","pixell/enmap.py"),("laxes/lmap/modlmap/lpixsize","pixell/enmap.py"),("grad/div/laplace/smooth_gauss/apply_window","pixell/enmap.py"),("calc_ps2d/spec2flat/lbin/rbin/multi_pow/rotate_pol","pixell/enmap.py")],
 "Oracle: explicit plane waves and numpy.fft")
prop("S01", "Spherical harmonic synthesis evaluates the expansion at each pixel's position",
 "A map or list of values synthesized from spherical harmonic coefficients equals the harmonic expansion of those coefficients evaluated at the true sky position of every pixel or point, with the COSMO/Healpix spin convention, for scalar, spin and derivative fields. The answer does not depend on the synthesis method chosen, the coefficient layout, how the map is cut, flipped or shifted, the number of leading dimensions, or whether an output array is provided, and inputs are left unchanged.",
 INC, "every geometry (cylindrical, partial, flipped, non-cylindrical, healpix, arbitrary positions), lmax/mmax/coefficient layout, spin list, precision and method", "tests compare a few fixed maps; errors only show for particular row ranges, flips, layouts or method choices", ["pixell/curvedsky.py"],
 [("alm2map/alm2map_2d/alm2map_cyl/alm2map_general","pixell/curvedsky.py"),("alm2map_pos/alm2map_healpix/alm2map_raw_*","pixell/curvedsky.py"),("analyse_geometry/get_ring_info/calc_locinfo","pixell/curvedsky.py")],
 "Oracle: Wigner-d recursion summed explicitly at the FITS-projected pixel positions (lmax <= ~25)")
prop("S02", "Harmonic analysis, weights, adjoints and filters are consistent with synthesis",
 "Analysing a band-limited full-sky map returns its coefficients to numerical accuracy on every geometry with exact quadrature; on others it is the documented weighted sum and improves with iterations. The adjoint functions are the exact transposes of synthesis and analysis, quadrature weights integrate the sphere, isotropic filtering multiplies coefficients and nothing else, and radial profiles and beams convert to harmonic space and back. Inputs are left unchanged, partial maps are analysed in place, and results do not depend on the layout or method chosen.",
 INC, "every analysable geometry, lmax, spin list, precision, weighting, iteration count, coefficient layout and filter", "tests round-trip one full-sky map", ["pixell/curvedsky.py"],
 [("map2alm/map2alm_2d/cyl/general/healpix","pixell/curvedsky.py"),("*_adjoint","pixell/curvedsky.py"),("quad_weights","pixell/curvedsky.py"),("filter/profile2harm/harm2profile/prof2alm","pixell/curvedsky.py")],
 "Oracle: explicit spherical harmonic matrices, inner-product identities")
prop("A01", "Coefficient arrays are read and written where their layout says",
 "Every operation on spherical harmonic coefficients (spectra, multiplication by filters and filter matrices, transposition, truncation and transfer between layouts, index lookups, rotation) acts on the coefficient (l,m) that the layout assigns, for any lmax, mmax and layout, precision and number of components, gives the textbook result for it, and touches nothing else, in place or into a given output.",
 INC, "every alm layout (triangular, rectangular, custom mstart/stride 1), lmax and mmax, precision, filter length (shorter and longer than lmax), component count", "tests use triangular layouts with mmax=lmax and filters of matching length", ["pixell/curvedsky.py","pixell/cmisc.pyx","cython/cmisc_core.c"],
 [("alm_info","pixell/curvedsky.py"),("alm2cl/lmul/transpose_alm/transfer_alm","cython/cmisc_core.c, cython/cmisc.pyx"),("rotate_alm","pixell/curvedsky.py")],
 "Oracle: dense (l,m) tables; rotation by comparing synthesized values at rotated positions")
prop("D01", "Distance transforms return the true angular distance to the nearest point",
 "Distance maps to points, to masked regions and to region edges give, for every pixel, the angular distance to the nearest target and, where asked, which target that is, up to the documented method accuracy, on flat-sky, full-sky, wrapped and healpix maps. Cutoff radii leave closer pixels exact and fill the rest as documented, multi-label and edge finders report exactly the pixels concerned, and degenerate masks (empty, full, single pixel) are handled.",
 IN, "every geometry, target set, mask, labelling, cutoff radius and method", "tests compare one map's distances to stored values", ["pixell/enmap.py","pixell/distances.py","cython/distances_core.c","cython/distances.pyx"],
 [("distance_from/distance_transform/labeled_distance_transform","pixell/enmap.py"),("distance_from_points_*/find_edges*","cython/distances_core.c"),("distance_from_healpix/distance_transform_healpix","pixell/enmap.py, pixell/distances")],
 "Oracle: brute-force minimum over all targets with the Vincenty formula; the bubble and cell searches are allowed their documented pixel-scale error")
prop("N01", "Interpolation evaluates the stated kernel, its derivative and its transpose",
 "Interpolating an array at arbitrary positions gives the weighted sum of samples that the chosen kernel (convolution, spline or Lanczos, any supported order) and border rule define, for any number of dimensions, leading dimensions, memory layout and precision. Spline interpolation with cyclic or mirrored borders passes through the samples, prefiltering separately gives the same answer, the reported derivative is the derivative of the interpolated function, and the transpose is the exact adjoint of both. Automatically built interpolators meet their requested accuracy. Inputs are left unchanged.",
 INC, "every array shape (single-sample axes included), position (inside, on samples, far outside), kernel, order, border, layout, precision, output argument", "tests interpolate one smooth map with default settings", ["pixell/interpol.py","fortran/interpol.F90"],
 [("map_coordinates/spline_filter","pixell/interpol.py"),("interpol/interpol_deriv/spline_filter1d/calc_weights/map_border","fortran/interpol.F90"),("build/ip_linear/ip_grad/ip_ndimage","pixell/interpol.py")],
 "Oracle: dense interpolation matrices from textbook kernels; spline coefficients from a dense linear solve (zero/nearest borders only for orders with one pole, where the boundary filter is exact)")
prop("P01", "Objects are painted with their profile in every pixel they reach, no others",
 "Simulated objects and sources add, in every pixel within their reach, the amplitude times the radial profile at the true angular distance from the object, combined with the map by the requested operation, and leave all other pixels alone, also around the RA wraparound, at the poles and outside the map. Results do not depend on how many objects there are, how they are split in calls or processed in parallel. The transposed operation is the exact adjoint, radial sums put each pixel in the bin of its distance, catalogue matching reports exactly the pairs within the search radius, and catalogue files of every supported format are read with positions in radians and written catalogues read back unchanged to the printed precision.",
 INC, "every geometry, object list (none, one, many, overlapping, outside), profile set, precision, operation, truncation level and thread count", "tests simulate a few sources in one flat patch", ["pixell/pointsrcs.py","cython/srcsim_core.c","pixell/srcsim.pyx","pixell/utils.py"],
 [("sim_objects/radial_sum/radial_bin","pixell/pointsrcs.py"),("sim_srcs/sim_srcs_python/crossmatch","pixell/pointsrcs.py"),("sim_objects/radial_sum and their transpose","cython/srcsim_core.c")],
 "Oracle: explicit loop over objects and pixels with the Vincenty distance and linear interpolation of the profile")
prop("V01", "Colors, contours and plots show the value of the pixel they stand for",
 "Colour mapping gives every value the colour that linear interpolation in the colour scheme defines, saturating outside it and leaving invalid values transparent, identically for all implementations. Plots show each map pixel with its colour at its place, with declination upwards and RA to the left, over the requested value range, with masks, rescaling, contours, grid lines and annotations where they belong, one image per field. The small array kernels used for this (contours, row rolling, rectangular coordinates, small matrix products) compute what they name, and the plotted map is left unchanged.",
 INC, "every colour scheme, value (nan, infinite, outside the scheme), array layout and precision, map orientation, plot option combination covered by the workload", "tests do not cover plotting or the color code", ["pixell/colorize.py","pixell/enplot.py","pixell/cgrid.py","pixell/array_ops.py","fortran/colorize.f90","fortran/array_ops.F90"],
 [("remap/direct/direct_colorcap","fortran/colorize.f90"),("plot/get_map/map_to_color/draw_map_field","pixell/enplot.py"),("find_contours/roll_rows/matmul_multi","fortran/array_ops.F90"),("calc_gridinfo","pixell/cgrid.py")],
 "Text labels and antialiasing are not judged")
prop("X01", "Compiled kernels are memory safe, free of undefined behaviour, and do not leak",
 "No call of the public functions that reach pixell's compiled C, Cython and Fortran code makes that code access memory outside the arrays involved, let a result depend on uninitialised memory, execute undefined behaviour (overflowing or invalid conversions included), crash the interpreter, or keep memory allocated after it returns. This holds for ordinary inputs and for odd ones: empty lists, single pixels, coordinates that are nan, infinite or far outside the map, filters longer or shorter than the coefficients, any data type, memory layout and option.",
 INC, "every input the functions accept, including degenerate and non-finite ones", "tests run on valid mid-sized inputs, where stray reads and writes usually go unnoticed", ["cython/cmisc_core.c","cython/distances_core.c","cython/srcsim_core.c","fortran/interpol.F90","fortran/array_ops.F90","fortran/colorize.f90"],
 [("alm2cl/lmul/transpose/transfer kernels","cython/cmisc_core.c"),("distance searches, edge finders, healpix tables","cython/distances_core.c"),("object painting and radial sums","cython/srcsim_core.c"),("interpol/spline_filter1d","fortran/interpol.F90"),("remap/direct, roll_rows/find_contours","fortran/colorize.f90, fortran/array_ops.F90")],
 "AddressSanitizer + UBSan build with Fortran bounds checks; allocator fill patterns for uninitialised reads; heap growth for leaks. Only pixell's own native code is instrumented", technique="compiler sanitizers (ASan, UBSan, Fortran bounds checks), allocator-pattern and heap-growth monitors under hostile workloads",
 observe=["sanitizer reports and exit status of the worker processes", "heap statistics (mallinfo2)", "results under two malloc fill patterns (mallopt M_PERTURB)"])
prop("X02", "Parallel execution is race free and does not change results",
 "pixell's parallel loops contain no data races, and the result of every parallel function is the same for any number of threads, up to floating-point summation order, and the same when it is called from several Python threads at once as when it is called alone.",
 ["schedules","inputs","configurations"], "every schedule and thread count of the OpenMP regions in the C, Cython and Fortran code, and concurrent callers", "tests run one thread count and cannot see a race that happens not to strike", ["cython/cmisc_core.c","cython/distances_core.c","cython/srcsim_core.c","fortran/interpol.F90","fortran/array_ops.F90","fortran/colorize.f90","pixell/fft.py","pixell/curvedsky.py"],
 [("omp parallel regions","cython/*_core.c, fortran/*.F90, fortran/colorize.f90"),("nthread arguments","pixell/fft.py, pixell/curvedsky.py")],
 "ThreadSanitizer with an OpenMP runtime it understands (tools/minigomp.c): races are judged by happens-before on the executions seen. ducc0 and numpy are not instrumented", technique="ThreadSanitizer race detection with injected delays, plus thread-count and concurrent-caller differential monitors",
 observe=["ThreadSanitizer reports of the worker processes", "return values with 1, 2, 3, 4 and 8 threads and from concurrent Python threads"])
prop("B01", "Buffers from memory pools never overlap and are recycled without growing",
 "An array handed out by a memory pool has the requested shape, type, alignment and contents, can be written freely, and shares no memory with any other array that is still live, whether from the same pool since its last reset or from another pool. Resetting or freeing a pool affects no other pool, and a pass of allocations that has been seen before is served again from the memory already held. Reported sizes and memory use agree with what has been allocated.",
 ["histories","inputs"], "every sequence of allocations, writes, resets and frees on any number of pools, every shape, type and alignment", "no test allocates from the pools; overlaps show only for particular sizes in particular orders, after a reset", ["pixell/device.py","pixell/memory.py"],
 [("Mempool/AllocAligned","pixell/device.py"),("ArrayPoolCpu/ArrayMultipool/DeviceCpu","pixell/device.py"),("current/resident/max","pixell/memory.py")],
 "Shadow copies of every live buffer compared after every step of random histories; a recording allocator counts requests. GPU pools need cupy, which is absent", technique="online shadow-memory monitor over random allocation histories, with a recording allocator",
 observe=["address ranges, alignment and contents of every live buffer after every operation", "requests reaching the underlying allocator", "reported pool sizes"])
prop("M03", "Map operations act per component, keep coordinates and leave inputs alone",
 "Maps behave as arrays that carry their coordinates: arithmetic, copies, constructors, masking and the filtering, filling, apodizing, inpainting and edge-trimming operations compute what they are documented to, give results on the same sky grid, treat every leading component as if it were alone, and do not depend on memory layout or on what was called before. Unless asked to work in place they leave their input values and coordinates unchanged, and copies share neither data nor coordinates with their source.",
 INH, "every map, geometry, leading dimensions, memory layout, precision, operation and parameter", "tests use contiguous double precision maps and rarely look at the input again", ["pixell/enmap.py"],
 [("ndmap","pixell/enmap.py"),("apod/apod_mask/inpaint/fillbad/find_blank_edges/autocrop","pixell/enmap.py"),("enmap/samewcs/Geometry","pixell/enmap.py")],
 "Metamorphic: layouts, single components, repetition; explicit loops for apodization, inpainting and blank edges")
prop("F03", "Non-uniform Fourier transforms and array interpolation evaluate their definition",
 "The non-uniform Fourier transforms evaluate, at every requested position, the trigonometric sum of the given coefficients (or its transpose) with the documented sign, period and normalization, and their inverses recover the input for well-conditioned positions. Interpolating an array by index gives the nearest sample, the multilinear, spline or trigonometric interpolant of the samples, passing through the samples and following the border rule outside, the same for prepared interpolators, any number of leading dimensions, layouts, axes and output arguments. Inputs are left unchanged.",
 INC, "every array shape, data type, leading dimension, axis choice (ascending), position (inside, on samples, many periods away), mode, order and border", "tests interpolate one periodic map", ["pixell/fft.py","pixell/utils.py"],
 [("u2nu/nu2u/iu2nu/inu2u/nufft/inufft and adjoints","pixell/fft.py"),("u2nu_plan/interpol_nufft","pixell/fft.py"),("interpol/interpolator/SplineInterpolator/FourierInterpolator/interp","pixell/utils.py")],
 "Oracle: direct sums; explicit kernels")
prop("L01", "Lensing and boosting move light along the exact paths on the sphere",
 "Lensed maps hold, in every pixel, the unlensed field at the end of the great circle that leaves the pixel along the gradient of the potential, with polarization turned by the change of bearing along it, and the potential, convergence, deflection and unlensed maps asked for are those of the given coefficients; flat-sky lensing, its transpose and delensing do the same on the pixel grid. Doppler boosting reads the map at the relativistically aberrated direction and modulates it by the Doppler factor in the chosen temperature units, with or without the dipole. Results do not depend on blocking, requested outputs, prepared objects or earlier calls, and inputs are left unchanged.",
 INC, "every geometry, harmonic coefficients, displacement (zero, tiny, large, next to a pole), direction, speed, unit mode, output selection, precision", "tests compare one stored lensing realization, and check one boosted map at a tiny speed", ["pixell/lensing.py","pixell/aberration.py","pixell/curvedsky.py"],
 [("offset_by_grad/lens_map_curved/rand_alm","pixell/lensing.py"),("lens_map/displace_map/delens_map/lens_map_flat","pixell/lensing.py"),("Aberrator/Modulator/boost_map/calc_boost_1d","pixell/aberration.py"),("alm2map_pos","pixell/curvedsky.py")],
 "Three known findings: displacements over a pole and the doubled polarization rotation, both frozen by stored test data")
prop("C01", "Coordinate conversions agree with the sky and invert each other",
 "Converting directions between equatorial, galactic, ecliptic, telescope and boresight systems, systems recentered on a point, and Euler rotations gives the direction in the other system, the same whether done in one step or several, and converting back returns the original. The polarization angle reported alongside is the angle the local basis turns by, added to a given one, and the magnification is the ratio of the parallels. Angular distances (tiny and antipodal included), vectors, wrapped and unwound angles, dates and sexagesimal numbers follow their definitions, and inputs are left unchanged.",
 INC, "every direction, pair of systems, reference point, rotation, array shape and data type", "tests only cover coordinates through a few reprojected maps", ["pixell/coordinates.py","pixell/utils.py"],
 [("transform/transform_raw/transform_meta/transform_euler","pixell/coordinates.py"),("recenter/decenter/getsys_full/tele2hor/tele2bore","pixell/coordinates.py"),("ang2rect/rect2ang/angdist/vec_angdist/rotmatrix/rewind/unwind","pixell/utils.py"),("ctime2mjd and friends/to_sexa/jname","pixell/utils.py")],
 "Horizontal coordinates need an external package and are not exercised")
prop("H01", "Reprojection keeps the sky: healpix, thumbnails and rotated maps",
 "Converting maps to and from healpix, with or without a rotation between coordinate systems or by Euler angles, gives in every output pixel the value of the input sky at the corresponding direction - exactly for band-limited skies through harmonics, the containing pixel or the documented interpolation otherwise - with polarization turned with the local basis, extensive quantities rescaled by the pixel areas, and automatically chosen resolutions that follow the requested restriction. Thumbnails show the sky around each requested position, north up, centred and undistorted, with polarization and extensive weights treated alike. Results do not depend on batch size, given output arrays or the other sources or components, and inputs are left unchanged.",
 INC, "every geometry, healpix resolution, rotation, spin arrangement, number of components, precision, interpolation method and order, position (across the right ascension seam included)", "tests compare a few stored thumbnails and one healpix round trip", ["pixell/reproject.py","pixell/enmap.py"],
 [("map2healpix/healpix2map","pixell/reproject.py"),("thumbnails/thumbnails_ivar","pixell/reproject.py"),("rot2euler/inv_euler/restrict_nside","pixell/reproject.py"),("neighborhood_pixboxes/thumbnail_geometry/to_healpix","pixell/enmap.py")],
 "healpy supplies healpix pixel centres and bilinear weights")
prop("T01", "Tiled and stacked maps behave as the maps they hold",
 "A tiled map holds, for each of its active tiles, exactly the pixels that tile covers in the full map: looking tiles up, inserting and collecting maps, changing the set of active tiles, arithmetic between tiled maps with different active tiles, slicing and stacking of leading dimensions give what the same operation gives tile by tile on ordinary maps, with the tile geometry kept consistent. A stack of maps with different geometries likewise gives, for arithmetic, slicing, Fourier and coordinate operations and disk round trips, what each map gives alone. Inputs are left unchanged.",
 INH, "every geometry, tile size (not dividing the map included), set and order of active tiles, leading dimensions, precision and operation", "tests do not cover tilemap or multimap", ["pixell/tilemap.py","pixell/multimap.py"],
 [("TileMap/TileGeometry/TileView","pixell/tilemap.py"),("insert/to_enmap/with_tiles/map_mul","pixell/tilemap.py"),("MultiMap","pixell/multimap.py")],
 "Where the two operands of a tiled operation have different active tiles, the documented rule is the reference")
prop("T02", "Data spread over tasks is gathered, reduced and redistributed exactly",
 "However many tasks take part and in whatever order they run, moving tiles or map regions between tasks with different layouts delivers every pixel to exactly the tasks that asked for it, in their requested order; gathers concatenate every task's data in rank order for any (also empty) contributions; tiled and dictionary reductions give each task the sum over all tasks; and every task gets the same answer where the operation promises it. The box algebra this rests on (intersection, multiplication, flips, wrapping) describes exactly the pixels selected. Inputs are left unchanged.",
 ["schedules","inputs","configurations"], "every number of tasks, schedule, distribution of tiles or boxes over tasks, box step and sign, shape and data type", "tests run a single task", ["pixell/tilemap.py","pixell/utils.py","pixell/mpi.py"],
 [("redistribute/reduce","pixell/tilemap.py"),("redistribute/allgather/allgatherv/uallgatherv/allreduce/send/recv","pixell/utils.py"),("sbox_intersect/sbox_mul/sbox_fix/sbox_wrap/sbox_flip","pixell/utils.py"),("FakeCommunicator","pixell/mpi.py")],
 "MPI is not installed: tasks are threads with a stand-in communicator (lib/fakecomm.py) that records every message and delays tasks at random; the single-task communicator of pixell.mpi is checked too", technique="message-trace monitor with randomized task schedules: exactly-once delivery and conservation judged against a single-task computation",
 observe=["messages exchanged (source, destination, size) in each run", "every task's result against the single-task reference"])
prop("R01", "Random skies have the requested statistics and are reproducible",
 "Random harmonic coefficients, maps and Fourier modes drawn for given auto and cross spectra have exactly those spectra on average for every component, multipole and mode (monopole, m=0 modes and highest multipole included), with zero mean, the right reality conditions and no correlation between modes; drawing with the same seed gives the same sky, also to a different maximum multipole for the first component, and different seeds give independent ones. The helpers around them (compressed and expanded spectrum layouts, rotations between E/B and Q/U, spectra to correlation functions, two-dimensional spectra, spectrum files) keep every component in its place, and inputs are left unchanged.",
 INC, "every spectrum layout, number of components, maximum multipole, precision, seed, geometry", "tests compare stored realizations for a few seeds", ["pixell/curvedsky.py","pixell/enmap.py","pixell/powspec.py"],
 [("rand_alm/rand_alm_healpy/rand_alm_white/rand_map","pixell/curvedsky.py"),("rand_gauss/rand_gauss_harm/rand_map/spec2flat","pixell/enmap.py"),("sym_compress/sym_expand/read_spectrum/spec2corr","pixell/powspec.py")],
 "Statistical assertions use 8 sigma limits on fixed seeds; one known finding (later components of multi-component draws depend on lmax)")
prop("W01", "Wavelets lose nothing, and flat and curved harmonic operations agree",
 "The filters of every wavelet basis lie between zero and one, vanish above their level's maximum multipole and their squares sum to one, so transforming a map to wavelets and back returns the map, on the flat and the curved sky and for Haar wavelets of any map size; each coefficient map is the correspondingly filtered map read off at its own pixels, whatever the selected levels, output arrays, leading dimensions and resolution. The unified harmonic transforms, their adjoints, profile multiplication, beams, power sums and random draws mean the same in flat and curved mode and follow their definitions. Inputs are left unchanged.",
 INC, "every basis, multipole range, geometry away from the poles, leading dimensions, precision, level selection and harmonic mode", "tests do not cover wavelets or uharm", ["pixell/wavelets.py","pixell/uharm.py","pixell/enmap.py"],
 [("Butterworth/ButterTrim/DigitalButterTrim/CosineNeedlet","pixell/wavelets.py"),("WaveletTransform/HaarTransform","pixell/wavelets.py"),("UHT","pixell/uharm.py"),("resample_fft","pixell/enmap.py")],
 "Wavelet variance transforms are approximate by design and not judged")
prop("K01", "Matched filters, finders and modellers recover the sources in a map",
 "Every matched filter and noise model reports, at the position of a source, its flux and the flux uncertainty that the stated noise implies, for white, correlated and position-dependent noise, for one or several (correlated) components and on the flat and curved sky; noise simulated from a model has the model's covariance. Finders list every sufficiently significant object exactly once, sorted by significance, with its position, kind, fluxes and uncertainties, and nothing else; thresholds and penalized regions are respected; measurers report the fluxes at given positions and modellers rebuild the map from the catalogue, also for weak objects next to strong ones. Results do not depend on caches or batching, and inputs are left unchanged.",
 INC, "every noise level and spectrum, beam of at least three pixels, source position (between pixels, near the seam), number of components, kind of object and threshold, on small patches near the equator", "tests do not cover the analysis module", ["pixell/analysis.py","pixell/uharm.py","pixell/utils.py"],
 [("matched_filter_*","pixell/analysis.py"),("NmatConstcov/NmatConstcorr/NmatWavelet","pixell/analysis.py"),("FinderSimple/FinderMulti/FinderMultiSafe/FinderIterative","pixell/analysis.py"),("Measurer*/Modeller*","pixell/analysis.py")],
 "Tolerances follow the documented approximations (0.3% where exact, up to 20% for the approximate filters with varying depth)")
prop("U01", "Index, range, box, axis, grouping and binning helpers follow their definitions",
 "The general-purpose helpers the rest of the package and its users build on do what they are documented to do for every input: looking values up (missing, repeated and empty selections included), union, difference and cutting of ranges with their index mappings, overlap, corners, padding and unwrapping of boxes, flattening, expanding and broadcasting of any set of axes and writing through flattened views, grouping and labelling of equal entries, balanced splitting, binning, block reduction and expansion, slice arithmetic, the splitting and parsing of strings, file names and text files, and records with attributes that can be stored to disk and read back. They all finish, and inputs are left unchanged.",
 IN, "every array length (0 and 1 included), shape, memory layout, axis selection, data type (integer, float, string), range and box arrangement, and string with delimiters, brackets and escapes", "tests cover three of the roughly eighty helpers with one input each", ["pixell/utils.py","pixell/bunch.py","pixell/bench.py"],
 [("Bunch/read/write/split_hdf_path","pixell/bunch.py"),("find/find_any/contains/nearest_ind/common_vals/union","pixell/utils.py"),("range_sub/range_union/range_cut/mask2range","pixell/utils.py"),("box_overlap/box_slice/bounding_box/widen_box/unwrap_range","pixell/utils.py"),("partial_flatten/flatview/to_Nd/broadcast_arrays/addaxes","pixell/utils.py"),("find_equal_groups/label_multi/label_unique/equal_split","pixell/utils.py"),("linbin/expbin/bin_data/block_reduce/bincount","pixell/utils.py"),("split_outside/split_esc/parse_ints/format_to_regex","pixell/utils.py")],
 "Each helper is judged against a direct loop or set computation of its documented result")
prop("U02", "Numerical helpers, solvers, beams and spectra match their definitions",
 "The numerical helpers give what their definitions say for every input: weighted quantiles and robust means along any axis, detrending, matrix powers, conditional distributions and linear systems along any axes with singular entries masked, iterative solvers that approach the solution monotonically, reach it in about as many steps as there are unknowns and continue exactly after being saved and restored, blackbody, graybody and Sunyaev-Zeldovich spectra with their derivatives and conversion factors, beam widths, angles, areas and regularization, transforms between radial profiles and harmonics and back, cluster profiles and their line-of-sight integrals, points in polygons and distances from their edges, overlaps of disks, catalogue matching in every mode and coordinate system, and scan sweeps. Inputs are left unchanged unless the operation is documented to work in place.",
 ["inputs","histories"], "every shape, axis selection, precision, matrix (singular and indefinite included), starting point, preconditioner, interruption point, frequency, temperature, beam width, polygon, catalogue and matching radius", "tests do not cover these helpers", ["pixell/utils.py"],
 [("weighted_quantile/medmean/maskmed/deslope","pixell/utils.py"),("eigpow/solve/build_conditional/eigsort","pixell/utils.py"),("CG/Minres","pixell/utils.py"),("planck/dplanck/tsz_spectrum/flux_factor","pixell/utils.py"),("RadialFourierTransform/FFTLog/tsz_tform/regularize_beam/airy","pixell/utils.py"),("point_in_polygon/poly_edge_dist/disk_overlap_curved/crossmatch/find_sweeps","pixell/utils.py")],
 "Judged against direct formulas, numerical quadrature or exhaustive comparison")
