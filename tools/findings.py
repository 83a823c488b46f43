# (substring of the commit subject, property)
PROPERTY_OF = [
  ("project applies cval","M01"),("geometry2(shape=...)","G03"),("fullsky_geometry2 and","G03"),("memory pools count","B01"),("ArrayMultipool.size","B01"),("memory pools can fill","B01"),
  ("spec2flat_corr moves","R01"), ("neighborhood_pixboxes works","G03"), ("greedy_split works","U01"),
    ("dct_adjoint and idct_adjoint","F02"),
 ("enplot rgb images","V01"),("enplot evenly","V01"),("lens_map_curved rotates each","L01"),("read_fits_header reads","I01"),
 ("enmap.overlap should not","G03"),("postflat","U01"),
 ("medmean","U02"),("solve for vectors","U02"),("point_in_polygon","U02"),("regularize_beam","U02"),("eigpow","U02"),("FFTLog","U02"),
 ("dedup and range_sub","U01"),("find_any without","U01"),("contains with","U01"),("nearest_ind","U01"),("box_slice","U01"),("unwrap_range","U01"),("addaxes","U01"),("preflat","U01"),("split_esc","U01"),("bin_expand","U01"),("bins2edges","U01"),("label_multi","U01"),("ndigit","U01"),("widen_box","U01"),("same_array","U01"),("complement_inds","U01"),("expbin","U01"),
 ("calc_beam_area","K01"),("NmatWavelet","K01"),("MeasurerMulti","K01"),("simulating from noise","K01"),("cache_get","K01"),("solve_mapsys","K01"),("lowcorr matched filter","K01"),("finders for several","K01"),("partial_flatten","K01"),
 ("resample_fft shifted","W01"),
 ("out-of-bounds slices","G01"),("latitude axis","G02"),("geometry2 boxes","G03"),("geometry2 full-sky","G03"),("pixel sizes of non-cyl","G04"),
 ("ndmap.at passes","M01"),("project honours","M01"),("nearest-neighbor project","M01"),("insert no longer","M01"),("border=wrap","M01"),("pad with wrap","G01"),
 ("delayed fits","I01"),("read_hdf_geometry","I01"),("read_map no longer","I01"),
 ("ndmap.fillbad","M03"),("Geometry can be built","M02"),("Geometry.downgrade","M02"),("fourier-resampling of","M02"),("resample_fft","M02"),("upsample_bin","M02"),("block_expand","M02"),("wcsutils.scale","M02"),("make_equispaced","M02"),
 ("autocrop","M03"),("inpaint fills","M03"),
 ("nu2u and iu2nu","F03"),("inufft_adjoint honours","F03"),("higher-order spline interpolation of integer","F03"),
 ("vec_angdist gave","C01"),("transform_raw truncated","C01"),("recenter and decenter modified","C01"),
 ("lens_map_flat","L01"),("offset_by_grad gave nan","L01"),("offset_by_grad rotated","L01"),("lens_map_curved crashed","L01"),("alm2map_pos gave wrong","S01"),("lens_map_curved returned","L01"),("lens_map_curved ignored","L01"),("lensing.rand_alm","L01"),("aberration mirrored","L01"),("lin2T modulation","L01"),("Modulator overwrote","L01"),("chebyshev","F01"),("fft.resample","F01"),("irfft works","F01"),("nearest_product","F01"),("enmap dct","F02"),("smooth_spectrum","F02"),
 ("strided boxes that wrap","M01"),
 ("alm2map with the general method and","S01"),("general harmonic transforms of 2d","S01"),("calc_locinfo","S01"),("healpix transforms limited","S01"),("healpix derivative","S01"),("2d method recognizes","S01"),
 ("map2alm with the general method no","S02"),("quadrature weights","S02"),("map2alm falls back","S02"),("healpix transforms honour","S02"),("derivative transforms:","S02"),
 ("lmul with a long","A01"),("lmul rejects","A01"),
 ("distances in pixels that","D01"),("healpix distances when","D01"),("healpix distance transform","D01"),("labeled distance transforms","D01"),
 ("interpolation with border=zero","N01"),("interpolation derivatives","N01"),("derivatives of the third","N01"),("derivatives of linear","N01"),("axes with a single sample","N01"),("spline_filter of arrays","N01"),("border=reflect","N01"),("map_coordinates","N01"),("interpol.build","N01"),
 ("profiles shared by many objects","P01"),("objects that wrap around maps","P01"),("bounding boxes of objects next","P01"),("transposed object simulation","X01"),("radial_sum no longer","P01"),("sim_objects and sim_srcs no","P01"),("radial_sum and radial_bin accept","P01"),("sim_srcs evaluates faint","P01"),("crossmatch returns","P01"),("sim_objects with an empty","P01"),("sim_srcs_python works","P01"),("objects closer to the pole","P01"),("equi-spaced profiles and bins","P01"),
 ("roll_rows with offsets","V01"),("array_ops.matmul","V01"),("direct_colorcap colors","V01"),("direct color mode","V01"),("enplot's -g","V01"),
 ("sym_expand","R01"),("sym_compress","R01"),("rand_alm_healpy","R01"),("curvedsky.rand_map","R01"),("rand_alm crashed for spectra","R01"),("spec2flat_corr","R01"),
 ("pixshapebounds","G04"),("needlet","W01"),("wavelet levels","W01"),("wavelets","W01"),("WaveletTransform","W01"),("map2wave","W01"),("UHT","W01"),("harm2profile_flat_2d","W01"),
 ("tilemap.redistribute","T02"),("TileMap","T01"),("multimap","T01"),("llgatherv","T02"),("sbox","T02"),("utils.redistribute","T02"),("one pixel wide","I01"),("one-pixel-wide","I01"),
 ("healpix2map","H01"),("map2healpix","H01"),("to_healpix","H01"),("deprecated reprojection","H01"),("get_pixsize_rect","H01"),
]
KNOWN = [
 {"property":"L01","status":"known","monitor":"offset_pole","match":"longitude mirrored after crossing the pole","what":"lensing.offset_by_grad(geodesic=True): a displacement whose great circle passes the pole ends up at the mirrored longitude (arcsin instead of arctan2); tests/test_pixell.py::test_offset compares with stored positions that contain this, so it cannot be repaired with the suite unedited"},
 {"property":"L01","status":"known","monitor":"offset_pol","match":"returned angle is twice the rotation","what":"lensing.offset_by_grad(pol=True) returns twice the angle the polarization basis turns by; tests test_offset and test_lensing compare with stored values that contain this"},
 {"property":"L01","status":"known","monitor":"lens_pol","match":"polarization rotated by twice the angle","what":"lensing.lens_map_curved rotates Q,U by twice the right angle (follows from offset_by_grad); test_lensing compares with stored maps that contain this"},
 {"property":"R01","status":"known","monitor":"alm_nested","match":"later components of multi-component draws depend on lmax","what":"curvedsky.rand_alm with several components: only the first component agrees between draws to different lmax with the same seed, although the documentation promises maps that agree on large scales (the components are drawn one after the other); changing the order would change every seeded realization, including those stored with the tests"},
]
