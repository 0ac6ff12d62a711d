"""Writes /verif/properties.jsonl (the single place where the properties are worded)."""
import json
Z, CZ, FP, FZ, PS = ("src/zernpy/zernikepol.py", "src/zernpy/calculations/calc_zernike_pol.py", "src/zernpy/calculations/find_pols_coeffs.py",
                     "src/zernpy/calculations/fit_zernike_pols.py", "src/zernpy/zernpsf.py")
CP, CN, CC, IM, PR = ("src/zernpy/calculations/calc_psfs.py", "src/zernpy/calculations/calc_psfs_numba.py",
                      "src/zernpy/calculations/calc_psfs_check.py", "src/zernpy/utils/intmproc.py", "src/zernpy/props/properties.py")
ps = []


def p(pid, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = None
    ps.append({"id": pid, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})


p("P01", "Polynomial indices follow the standard formulas and convert into each other",
  "For every valid pair of orders (m, n) the OSA/ANSI, Noll and Fringe indices are those of the published definitions, and each index identifies exactly one polynomial: "
  "converting an index to orders or to another index and back returns the original value. "
  "For polynomials up to radial order 54 every conversion (OSA to Noll, Noll to OSA, OSA to Fringe, Fringe to OSA, index to orders) gives the right answer; an index that is not an "
  "integer, is below the first one of its scheme, or is out of the supported range gives ValueError, never a wrong answer.",
  ["inputs"], "All (m, n) with |m| <= n and n - |m| even; all indices of the three schemes for n <= 54 (1540 polynomials); all other integers and wrong types for rejection.",
  "The tests look at a handful of polynomials with n <= 6; a slip in one parity class, one sign or one high order goes unseen.",
  [Z], [("get_osa_index/get_noll_index/get_fringe_index closed formulas", Z), ("index2orders search", Z), ("osa2noll, noll2osa, osa2fringe, fringe2osa guards", Z)])
p("P02", "A polynomial object is consistent however it is created, or is rejected",
  "Creating a polynomial by orders (n or radial_order with m, l, azimuthal_order or angular_frequency) or by an OSA/ANSI, Noll or Fringe index (under any of the documented names) gives an object "
  "whose orders and three indices all describe the same polynomial, identical for all ways to name it. "
  "Inconsistent orders (negative n, |m| > n, n - |m| odd), n > 54, indices beyond the supported range, non-integer values, unknown or missing or extra keywords raise ValueError.",
  ["inputs"], "All documented keyword spellings, all integers and all non-integer values of the orders and indices, all keyword sets.",
  "Tests construct a few polynomials and a few invalid ones; accepting one wrong combination or filling one index wrongly on one of the creation routes is not visible there.",
  [Z], [("ZernPol.__init__ keyword dispatch and sanity checks", Z), ("get_indices, get_mn_orders", Z)],
  [("orders and indices of the object", "the identified polynomial", Z)])
p("P03", "Radial polynomials equal the exact Zernike radial polynomial",
  "For every polynomial with n <= 54 and every radius in [0, 1] the radial value equals R_n^|m|(r) = sum_k (-1)^k (n-k)! / (k! ((n+|m|)/2-k)! ((n-|m|)/2-k)!) r^(n-2k), in default mode by whatever "
  "internal route the order selects, up to floating-point rounding. "
  "With use_exact_eq=True the same holds for n <= 40, while for n > 40 zeros of the shape of the input are returned together with a warning.",
  ["inputs"], "All 1540 polynomials with n <= 54, all radii (as polynomial identities in r), scalars and arrays, both calculation modes.",
  "Tests compare the routes with each other at a few orders and radii; a wrong table entry, coefficient or recurrence step for one (m, n) is not reached.",
  [CZ, FP, Z], [("radial_polynomial table and recurrences (n <= 12)", CZ), ("find_coeffs_orders tables and recurrences (13..40)", FP),
                ("radial_polynomial_coeffs recurrences (41..54)", CZ), ("radial_polynomial_eq", CZ), ("ZernPol.radial route selection", Z)])
p("P04", "Radial derivatives equal the derivative of the exact radial polynomial",
  "For every polynomial with n <= 54 and every radius in [0, 1] the radial derivative equals d/dr R_n^|m|(r) (including r = 0 and the polynomials with m = 0 and n = 0), in default mode by whatever internal route "
  "the order selects, up to floating-point rounding. With use_exact_eq=True the same holds for n <= 38, while for n > 38 zeros of the shape of the input are returned together with a warning.",
  ["inputs"], "All 1540 polynomials with n <= 54, all radii (as polynomial identities in r), scalars and arrays, both calculation modes.",
  "Tests compare the two routes at a few orders; a wrong derivative coefficient for one (m, n) or a broken product rule in a recurrence is not reached.",
  [CZ, FP, Z], [("radial_derivative", CZ), ("find_coeffs_orders_dr", FP), ("radial_polynomial_coeffs_dr", CZ), ("radial_derivative_eq", CZ), ("ZernPol.radial_dr", Z)])
p("P05", "Angular functions, normalization and the complete polynomial value",
  "The angular function of a polynomial is cos(m*theta) for m >= 0 and sin(|m|*theta) for m < 0, its angular derivative is the derivative of that function for every theta, and the normalization factor is sqrt(n+1) for m = 0 and "
  "sqrt(2(n+1)) otherwise. The value of a polynomial equals normalization * radial * angular value for every accepted radius, angle and n <= 54 (with use_exact_eq=True for n <= 40, above which zeros are returned with a warning). "
  "A scalar radius and angle give a scalar, and array inputs of one shape, or an array with a scalar, give the element-wise values in an array of that shape.",
  ["inputs"], "All (m, n), all angles (also outside [0, 2*pi]), all radii in [0, 1]; scalar/array combinations of any shape.",
  "Tests evaluate a few polynomials at a few points: sign conventions for negative m, zero m and shape combinations are sampled only.",
  [CZ, Z], [("triangular_function, triangular_derivative, normalization_factor", CZ), ("ZernPol.polynomial_value, triangular, triangular_dtheta, normf", Z)])
p("P06", "Radii outside the unit circle are rejected and inputs are never modified",
  "Every value calculation (value, radial part, radial derivative) accepts radii given as a number, list, tuple or array if and only if all of them lie in [0, 1] and raises ValueError otherwise; arrays of radii and angles with "
  "different shapes and texts that are not numbers raise ValueError. "
  "Angles outside of [0, 2*pi] are accepted with a warning and used unchanged. The arrays, lists and polynomials passed by the caller are never modified by any calculation.",
  ["inputs"], "All finite radii and angles as numbers, lists, tuples and arrays of any length, any position of an offending element.",
  "Tests use one list with one radius above 1; boundary values, negative values, arrays with the offending element at any place and aliasing are not covered.",
  [Z], [("_check_radii, _check_angles", Z), ("shape check in polynomial_value", Z)])
p("P07", "Sums of polynomials are the weighted sums of their values",
  "For any equally long sequences of coefficients and polynomials, the sum over given points equals the sum of coefficient_i * value_i at each point, and the surface for vectors of radii and angles is the matrix with "
  "element [j, k] equal to that sum at (r_j, theta_k), for any lengths of the vectors (also equal or with one more angle than radii), zero coefficients included. The generated surface returns that matrix together with the radii and angles it was "
  "computed on. Different lengths of the sequences, empty sequences and objects that are not polynomials raise ValueError.",
  ["inputs"], "All sequences of coefficients and polynomials of any length, all vector lengths for radii and angles, all radii in [0, 1] and angles.",
  "Tests compute few sums on few grids; the two loop orders (more angles than radii or not), zero coefficients at the first place and any length are not settled.",
  [Z], [("sum_zernikes loops", Z), ("_sum_zernikes_meshgrid", Z), ("gen_zernikes_surface", Z)])
p("P08", "Polynomial sets up to an order are complete and in OSA order",
  "Generating polynomials up to a maximal order N gives exactly the (N+1)(N+2)/2 polynomials with n <= N, each once, in ascending OSA index. A negative order raises ValueError, and an order that is not an integer is converted to an integer with a warning.",
  ["inputs"], "All N from 0 to 54, negative and non-integer N.",
  "The tests generate one or two sets and use them only as inputs for other calculations.",
  [Z], [("generate_polynomials", Z)])
p("P09", "Generated polar coordinates cover the unit circle",
  "Generated coordinate vectors start at 0, are strictly ascending, end at exactly 1 for radii and exactly 2*pi for angles, and stay within [0, 1] and [0, 2*pi]; consecutive values differ by the requested step, apart from a possibly shorter last step. "
  "Steps outside of (0, 0.5] for radii and (0, pi] for angles raise ValueError. The equal mesh has the requested number (at least 4) of equidistant radii in [0, 1] and angles in [0, 2*pi].",
  ["inputs"], "All steps in the allowed ranges (dividing the range or not), all numbers of points, all rejected steps.",
  "Tests use the default steps only.",
  [Z], [("gen_polar_coordinates", Z), ("gen_equal_polar_mesh", Z)])
p("P10", "Phase images carry the polynomial sum inside the circle and zeros outside",
  "In an image of phases of size height x width, each pixel [i, j] within the circle around (height//2, width//2) with radius 1 + min(height, width)//2 has the value of the polynomial sum at r = distance / radius and the "
  "counterclockwise angle (rows going down) in [0, 2*pi), and each pixel outside has 0. "
  "Randomly generated phases return an image, amplitudes and polynomials consistent with each other in this sense, the polynomials being the complete set up to the given order and the amplitudes being within [-1.5, 1.5], rounded to the requested digits (at least 1) unless "
  "a replacement for vanishing amplitudes was drawn.",
  ["inputs"], "All image sizes (odd, even, not square), all pixels, all sets of polynomials with amplitudes, all random draws.",
  "Tests generate a few images and check them only indirectly by fitting.",
  [Z], [("generate_phases_image", Z), ("generate_random_phases", Z)])
p("P11", "Cropping a phase image selects exactly the pixels of the circle",
  "For a 2D image with both sides at least 3 and a crop radius (rounded to 4 digits) in [0.5, 1], the returned mask is 1 on exactly the pixels whose normalized distance from the image centre, rounded to 4 digits, exceeds the crop radius by less than the tolerance of the border mode (0.001, or 0.055 for not "
  "strict border when both sides are even or differ by one pixel), and 0 elsewhere. The returned vectors list, in row order, the phases of these pixels, their normalized radii (rescaled into [0, 1] when border pixels exceed it) and their counterclockwise angles in [0, 2*pi]. "
  "Crop radii outside of [0.5, 1], images that are not 2D arrays or are smaller than 3 pixels raise ValueError, and the image is not modified.",
  ["inputs"], "All image sizes and shapes, contents, crop radii and border modes.",
  "Tests use a few square images and look at fitting results only.",
  [FZ], [("crop_phases_img", FZ)])
p("P12", "Fitting returns the least-squares amplitudes of the given polynomials",
  "Fitting gives, rounded to the requested digits, the least-squares solution of (values of the polynomials at the points) * amplitudes = phases, one amplitude per polynomial in the given order, for an image (on its cropped circle) as well as for vectors (point-wise radii and angles, or a "
  "radii-major grid of all combinations when their lengths differ). So a profile composed of linearly independent polynomials gives back its amplitudes. Repeated polynomials, an empty set and not one-dimensional vectors are rejected, and inputs are not modified.",
  ["inputs"], "All images, vectors, polynomial sets and amplitudes.",
  "Tests fit several sampled profiles with a tolerance; the order of unknowns, the grid layout for unequal lengths and all rejections are not settled.",
  [FZ, Z], [("fit_zernikes", FZ), ("fit_polynomials", Z), ("fit_polynomials_vectors", Z)])
p("P13", "Cached coefficients never change results: values do not depend on history",
  "The value of a radial polynomial or of its derivative depends on the order and the radius only: it is the same for any history of earlier calculations with other polynomials, in any order and any number of repetitions. "
  "Stored coefficients are always those of the exact polynomial they are stored for, and no calculation changes coefficients that were stored or returned before.",
  ["histories", "inputs"], "All sequences of calls for all orders with n <= 54 (cached coefficients for n <= 40, n <= 38 for derivatives).",
  "Tests run one fixed sequence of calls; a cache filled or modified wrongly shows up only after a specific earlier call.",
  [FP], [("find_coeffs_orders with lru_cache and the module-level dictionaries", FP), ("find_coeffs_orders_dr", FP), ("sum_orders_coeffs, increase_order_coeffs", FP)],
  [("module-level dictionaries of coefficients", "orders -> coefficients of the radial polynomial", FP)])
p("P14", "A PSF object is created from valid polynomials only",
  "A PSF object accepts a polynomial or a non-empty sequence of different polynomials; a sequence of one polynomial acts as that polynomial, and the object is marked as an Airy pattern exactly when the piston is among the given polynomials. "
  "Everything else - an empty sequence, other objects alone or within a sequence, repeated polynomials - raises ValueError.",
  ["inputs"], "All single objects and all sequences of any length of polynomials and other objects.",
  "Tests create a few objects and a few wrong ones.",
  [PS], [("ZernPSF.__init__", PS)])
p("P15", "Physical and calculation properties are validated and kept consistent",
  "Setting physical properties accepts exactly 0 < NA <= 1.7, wavelength > 0 and 0 < pixel size <= wavelength/(4*NA), with one amplitude per polynomial, and otherwise raises ValueError; afterwards the wave number is 2*pi/wavelength, each normalized amplitude is amplitude/wavelength, and the "
  "kernel size is an odd integer >= 1 that is the estimate for the polynomial or, for several polynomials, at least the largest of their estimates. "
  "Setting calculation properties accepts kernel sizes >= 3 (an even one is increased by one), at least 20 radial and 36 angular integration points, and otherwise raises ValueError. A smaller pixel never gives a smaller estimated kernel size.",
  ["inputs"], "All real parameters, all polynomials and sets of polynomials with amplitudes, all integers for sizes and numbers of points.",
  "Tests set a few sensible parameter sets and a few wrong ones; each boundary and each combination of checks is not covered.",
  [PS, CP], [("set_physical_props", PS), ("set_calculation_props", PS), ("get_kernel_size", CP)])
p("P16", "PSF points and kernels are the specified quadrature of the diffraction integral",
  "A PSF value for (r, theta) is |I|^2/pi^2, where I is the composite Simpson rule over the angle (an even number of points on [0, 2*pi]) of the trapezoidal rule over the radius on [0, 1] of exp(i*(sum of amplitude_q*Z_q(p, phi) - r*p*cos(phi - theta)))*p, "
  "each node being used exactly once with its weight. The kernel element [i, j] is the value at r = k*NA*pixel_size*(pixel distance to the centre) and theta = atan2(i - centre, j - centre) + pi with amplitudes divided by the wavelength; "
  "the size is the requested one made odd or the estimate, and a normalized kernel is the kernel divided by its maximum. The piston alone gives the Airy pattern (2*J1(r)/r)^2 when calculated without acceleration.",
  ["inputs"], "All polynomials and sets of polynomials, all amplitudes and physical parameters, all kernel sizes and elements, all (even) numbers of integration points (at least 2).",
  "Tests compare few kernels of different implementations with loose tolerances: a lost, doubled or misweighted node or a shifted centre stays below them.",
  [CP, PS], [("diffraction_integral_r, radial_integral, get_psf_point_r", CP), ("get_psf_point_r_parallel, radial_integral_s", CP), ("get_psf_kernel", CP),
             ("*_pols functions and get_psf_kernel_zerns", CP), ("get_psf_point_r_parallel, get_kernel_parallel", PS), ("calculate_psf_kernel", PS)])
p("P17", "Accelerated calculation gives the same kernels as the plain one",
  "For every polynomial or set of polynomials, the accelerated calculation evaluates the same polynomial values, the same quadrature and the same kernel layout, size and normalization as the plain calculation, so both kernels agree up to rounding whenever both are available (the piston alone excepted, for which the plain calculation uses the Airy equation). "
  "Polynomials which the accelerated mode does not support raise ValueError instead of giving a kernel.",
  ["inputs", "configurations"], "All supported polynomials and sets, amplitudes, physical parameters, kernel sizes and numbers of integration points, accelerated or not.",
  "Tests compare two kernels of small size for two polynomials.",
  [CN, PS, CC], [("zernpol_value and the compiled radial polynomials", CN), ("radial_integral_*, get_psf_point_* compiled", CN), ("get_psf_kernel_comp", CN)])
p("P18", "Saving a PSF as JSON and reading it back restores it",
  "A calculated PSF saved to a JSON file and read by any other PSF object restores the kernel, kernel size, numbers of integration points, NA, wavelength, pixel size, amplitude(s) and polynomial(s) exactly, and with them the derived quantities, for one polynomial as well as for several. "
  "An existing file is changed only when overwriting is requested; a missing file or one without some of the values gives a warning and does not raise.",
  ["inputs", "histories"], "All kernels, parameters, polynomials and sets, all folders and previous states of the reading object.",
  "Tests save and read one kernel and compare a part of the attributes.",
  [PS, CP], [("save_json, read_json", PS), ("save_psf, read_psf", CP)])
p("P19", "Cropping a kernel removes only symmetric dim borders",
  "Cropping with a threshold t in (0, 0.5) removes the same number of outermost rows and columns at each of the four sides, namely the largest number such that every removed frame has only values below t * maximum; the result is the central part of the kernel, with unchanged values including the maximum, and the kernel size is updated. "
  "Thresholds outside of (0, 0.5) raise ValueError and kernels of size up to 3 remain unchanged.",
  ["inputs"], "All kernels of any odd size and any content, all thresholds.",
  "Tests crop one kernel at most.",
  [PS], [("crop_kernel loop", PS)])
p("P20", "Convolution keeps type, shape and intensities, and does not modify the image",
  "The convolution of an image with a PSF kernel is the normalized convolution (reflecting borders, weights divided by their sum), rescaled to the original maximal intensity when requested, converted to the type of the image and of the same shape. So a constant image stays constant (up to one level when converted to integers), a blank image stays blank, and the given image and kernel are not modified.",
  ["inputs"], "All images of any size, type and content, all kernels with non-negative elements.",
  "Tests do not cover convolution results.",
  [CP, PS], [("convolute_img_psf", CP), ("ZernPSF.convolute_img", PS)])
p("P21", "Polynomials compare by identity and order, and carry the right names",
  "Two polynomial objects are equal exactly when they represent the same polynomial, and one is greater than another exactly when its OSA index is greater; comparing with other objects raises ValueError. "
  "Names, full and short, are given for exactly the documented polynomials and agree between both tables; the other ones have an empty name.",
  ["inputs"], "All pairs of polynomials with n <= 54.",
  "Tests compare a few pairs.",
  [Z, PR], [("__eq__, __gt__", Z), ("polynomial_names, short_polynomial_names", PR), ("get_polynomial_name, __str__", Z)])
p("P22", "Parallel workers return the results of all jobs in the order of parameters",
  "Distributing a function over worker processes returns one result per parameter set, in the order of the parameter sets, equal to the function value, whatever the number of workers, the scheduling of the processes and the earlier computations of the same object; closing ends all workers.",
  ["schedules", "histories"], "All interleavings of the workers, all lists of parameters, all numbers of workers, repeated use.",
  "Tests run one small computation under one schedule.",
  [IM], [("DispenserManager shared state and events", IM)])
p("P23", "Plots show the surfaces they are given",
  "Plotting functions draw the surface values at the polar coordinates they are given, with a colour bar range equal to the range of the values.",
  ["inputs"], "All surfaces, coordinates and projections.",
  "Tests do not open plots.",
  ["src/zernpy/plotting/plot_zerns.py"], [("plot_sum_fig, subplot_sum_on_fig and their 3D versions", "src/zernpy/plotting/plot_zerns.py")])
with open("/verif/properties.jsonl", "w") as f:
    for x in ps:
        f.write(json.dumps(x) + "\n")
print(len(ps))
