#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe, "hook_needed": None}})

prop("P01", "HDF5 and MAT files give back exactly what was written",
 "For every sequence of writes (real and 32/64-bit signed/unsigned integer scalars, lists, matrices, images and higher-dimensional arrays, strings, attributes, structs) to a file in the HDF5 or MAT format, reading the file back after closing it returns every value bit-for-bit (strings including any null characters) with the shape and type it was written with, and nothing else exists in the file. Repeated reads and reads in any order give the same answer, data returned by a read belongs to the caller, re-opening for update keeps what was there, and an object that is deleted or moves on to another file completes the first one and lets go of it. A MAT file additionally starts with the 512-byte MATLAB header carrying the current date, and its matrices, higher-dimensional arrays, strings (stored as the codes of their characters) and structs are tagged so that MATLAB recognises their class.",
 ["inputs", "histories"], "all write/read histories over all supported types, shapes (including 1xN, Nx1, 1x1 and empty ones), names nested in structs, and values (including NaN, infinities, denormals, extreme integers), in both formats",
 "The sfile tests write one fixed file with a handful of values and read each variable once; MAT multi-dimensional integer writes, update mode, nested structs, attributes and re-reads are never run.",
 ["src/SFile/SFile.cpp", "src/SFile/SFile_HDF5.cpp", "src/SFile/SFile_MAT.HDF5.cpp", "include/softlib/SFile.h"],
 [("typed write/read templates over HDF5", "SFile_HDF5.cpp"), ("MATLAB_class tagging and header", "SFile_MAT.HDF5.cpp"), ("scalar/list/multi-dim helpers of the base class", "SFile.cpp")],
 ["values returned by the SFile read methods", "bytes 0..511 and attributes of the MAT file"])

prop("P02", "SDT text files give back exactly what was written",
 "For every sequence of writes of scalars, lists, matrices, strings and attributes to a file in the self-descriptive text format, reading the file back returns every real number bit-for-bit (infinities and NaN included, but not the sign and payload of a NaN), every integer exactly (up to the precision of a double), every string byte-for-byte and every shape, and reports every other name as absent. The same variable can be read any number of times through any of the typed readers with the same result, data returned by a read belongs to the caller, re-opening a file for update (also one made by other means, with or without a final line break) keeps what was there, and opening another file on the same object shows that file's contents.",
 ["inputs", "histories"], "all write/read histories over all types the format supports, any double, any byte string, any shape (including empty ones), any order and number of reads",
 "The SDT test writes one fixed file of small round values and reads each variable once, so precision, repeated reads, column vectors and re-opening are not exercised.",
 ["src/SFile/SFile_SDT.cpp", "src/SFile/SFile_SDT.load.cpp", "include/softlib/SFile_SDT.h", "src/SFile/SFile.cpp"],
 [("text encoding of numbers and strings", "SFile_SDT.cpp WriteNumArray/WriteString"), ("parser", "SFile_SDT.load.cpp"), ("ownership of returned arrays", "SFile_SDT.cpp GetDoubles")],
 ["values returned by the SFile read methods"])

prop("P03", "Typed data-file access converts values exactly or refuses cleanly",
 "Whatever format a file is in and whichever program wrote it (any number width, sign and byte order, fixed or variable length strings), the generic integer readers return every stored number (of any real or integer type) converted to the requested type, list readers accept row and column vectors alike, and scalar readers accept exactly the variables with one element. Asking for a missing variable or attribute, for a list or scalar where a matrix is stored, for a string where numbers are stored (or vice versa), for a variable that has no value, opening a missing file for reading, using an object that has no open file, or using an unknown file extension raises the library's own exception and leaves the file object usable; it never returns made-up data, crashes or lets a foreign exception escape.",
 ["inputs", "histories"], "all (format, stored type, shape, requested type, requested shape) combinations and histories mixing failing and succeeding reads, all file names",
 "The tests only read variables with the type and shape they were written with and never provoke an error.",
 ["src/SFile/SFile.cpp", "src/SFile/SFile_HDF5.cpp", "src/SFile/SFile_MAT.HDF5.cpp", "src/SFile/SFile_SDT.cpp"],
 [("conversion templates", "SFile.cpp __Get1DAs/__Get2DAs"), ("existence and shape checks", "SFile_HDF5.cpp, SFile_SDT.cpp"), ("extension table", "SFile.cpp TypeOfFile/GetFileType")],
 ["values and exceptions of the SFile read methods"])

prop("P04", "SDT parsing of arbitrary text loads the stated data or refuses",
 "Every text given to the SDT reader is either loaded with exactly the variables, shapes and values that the documented format assigns to it (blocks in any order, blank lines between them, any white space between values) or refused with the library's file exception. It never crashes, hangs, reads outside its buffers or silently invents or drops variables, also when the text is a damaged or truncated valid file (repeated names and surplus values in a block are left unspecified).",
 ["inputs", "fault_sequences"], "all texts: grammar-generated files and all truncations and small corruptions of them",
 "The test suite contains no hand-written or malformed SDT text at all; it only reads back its own output.",
 ["src/SFile/SFile_SDT.load.cpp", "src/SFile/SFile_SDT.cpp"],
 [("line-oriented parser", "SFile_SDT.load.cpp")],
 ["outcome of opening an SDT file and of reading its variables"])

prop("P05", "Configuration scripts parse to exactly the tree they describe",
 "For every syntactically valid script (name=value settings with one or several comma- or space-separated values, quoted strings, named/typed/nested blocks, comments, file inclusion, arbitrary layout) the parsed tree contains exactly the written blocks, names, types, settings and values in order, no matter how the script is laid out and whether it is read from a string, a stream or a file. A later assignment to the same setting replaces the earlier one, a block opened again with the same type and name continues the first one, comments and layout never change the result, and no error is flagged.",
 ["inputs", "programs"], "all scripts of the configuration language and all layouts of each",
 "The configuration test parses two fixed example files, with one layout, and no include, last-line comment or unusual quoting.",
 ["src/Configuration/Script/Lexer.cpp", "src/Configuration/Script/Interpreter.cpp", "src/Configuration/Script/ConfigurationScript.cpp", "src/Configuration/ConfigBlock.cpp"],
 [("character-level lexer", "Lexer.cpp"), ("recursive-descent interpreter", "Interpreter.cpp")],
 ["root configuration block: sub-blocks, types, settings, values", "error flag"])

prop("P06", "Malformed configuration scripts are reported, never mis-executed",
 "Every byte sequence given to the configuration reader terminates and either yields a tree or is reported through the error flag or a library exception; it never crashes, reads outside its buffers or hangs. A script with a missing value, an unterminated block, a stray closing brace, a misplaced symbol, an unknown block type, a null character with more text after it, or a missing include file (or a directory in place of a file) is always reported as an error.",
 ["inputs", "fault_sequences"], "all byte strings: random text, token soup, and all single-token deletions/insertions/truncations of valid scripts",
 "The tests contain no malformed script.",
 ["src/Configuration/Script/Lexer.cpp", "src/Configuration/Script/Interpreter.cpp"],
 [("bounds handling of the lexer", "Lexer.cpp nextc"), ("error recovery", "Interpreter.cpp advanceTo")],
 ["termination, error flag, exceptions"])

prop("P07", "Copying and merging configuration trees is faithful and independent",
 "For every configuration tree, a copy compares equal to the original in every name, type, setting and value and later changes to either one (or its destruction) never affect the other. Merging another tree adds or overrides exactly the settings it contains and keeps all the rest, reports settings that are not allowed to be new, and leaves the merged-in tree untouched; look-ups by name or by type return exactly the matching blocks, and the list of untouched settings is exactly the set never read.",
 ["histories"], "all histories of add, set, overwrite, copy, merge, look up, read, destroy over arbitrary nested trees",
 "The tests only parse and read one tree; copy, merge, overwrite and untouched-setting reporting are never called.",
 ["src/Configuration/ConfigBlock.cpp", "include/softlib/Configuration.h"],
 [("deep copy", "ConfigBlock.cpp copy constructor / assignment"), ("merge", "ConfigBlock.cpp Merge"), ("touch tracking", "Setting.cpp")],
 ["public accessors of configuration blocks and settings"])

prop("P08", "Setting type tests and typed reads agree and are exact",
 "For every setting text, a value is reported to be a number, integer, unsigned integer, boolean or vector exactly when the typed read returns the value that text denotes, and a value that does not fit the requested type (trailing garbage, fraction, sign, out of range, several values) is reported as not of that type and refused with the library's exception rather than truncated or crashed on. Settings that hold native values instead of text obey the same contract, return exactly the stored numbers, and can be overwritten and copied without change.",
 ["inputs"], "all setting texts and native values, all typed predicates and readers",
 "The tests read a few well-formed numbers and booleans.",
 ["src/Configuration/Script/SettingScript.cpp", "src/Configuration/SFile/SettingSFile.cpp", "src/Configuration/Setting.cpp"],
 [("predicates and converters", "SettingScript.cpp"), ("native-valued settings", "SettingSFile.cpp")],
 ["results of the Is.../Get... methods"])

prop("P09", "Vector and matrix algebra obeys the laws of linear algebra",
 "For all vectors and matrices, sums, differences, scalings, dot, cross and matrix products, norms, negation, compound assignments and element access give the mathematically defined result within rounding, also when an operand is also the destination. No operation changes an operand it is not assigning to.",
 ["inputs", "programs"], "all vectors/matrices of the supported sizes, all operators, all aliasing patterns and expression sequences",
 "There is no test of vectors or matrices.",
 ["include/softlib/Vector.h", "include/softlib/Matrix.h"],
 [("operator templates", "Vector.h, Matrix.h")],
 ["results of the operators, values of the operands afterwards"])

prop("P10", "The adaptive ODE integrator solves every smooth problem to tolerance",
 "For every smooth initial-value problem the integrator's stored solution stays within a modest multiple of the requested tolerance of the exact solution at every stored time, stored times strictly advance from the initial to at least the final requested time, and dense output at any requested time inside the integrated interval equals the solution to comparable accuracy and reproduces the stored values at stored times. Dense output is never made up for steps taken while it was switched off. Starting a new problem on the same solver gives exactly the result a fresh solver gives, a single step is fifth-order accurate with an error estimate that shrinks accordingly, and tightening the tolerance does not lose accuracy (isolated steps at which the error estimate vanishes by coincidence excepted).",
 ["inputs", "histories"], "all smooth right-hand sides with known solutions, tolerances, step settings, interval lengths, output grids, and sequences of solves on one solver object",
 "One test integrates one predator-prey problem with one setting and compares with a stored table.",
 ["include/softlib/Integrator.h", "include/softlib/IntegratorEquation.h", "include/softlib/RungeKutta.h", "include/softlib/RKDP45.h", "include/softlib/Integrator/"],
 [("embedded Runge-Kutta step and error control", "RKDP45"), ("dense output", "RKDP45 / Integrator")],
 ["stored times and solutions, dense output arrays"])

prop("P11", "Momentum-space distributions interpolate the tabulated data faithfully",
 "For every tabulated distribution on a momentum/pitch grid, evaluation at a grid point returns the tabulated value, evaluation between grid points returns the bilinear interpolant or the natural bicubic spline (of the logarithm, if requested, with cells touching non-positive values giving zero), and evaluation outside the momentum grid returns zero and is never negative or undefined. A clone evaluates identically to the original at every point and in every mode, as does the distribution itself regardless of what was evaluated before; reversing the pitch sign convention mirrors the distribution; grids that are too short for the interpolation or not strictly increasing, and logarithmic tables with negative values, are refused.",
 ["inputs", "histories"], "all grids (ascending in both coordinates, uniform or not), all tables, linear/cubic/logarithmic modes, all evaluation points and evaluation orders, originals and clones",
 "One test checks one smooth function on one uniform grid; logarithmic clones, out-of-grid points and pitch reversal are not covered.",
 ["src/DistributionFunction/NumericMomentumSpaceDistributionFunction.cpp", "include/softlib/DistributionFunction/NumericMomentumSpaceDistributionFunction.h"],
 [("GSL 2-D interpolation", "NumericMomentumSpaceDistributionFunction.cpp Eval"), ("clone", "MinClone")],
 ["evaluated values"])

prop("P12", "Radial numeric distributions place and interpolate every radius correctly",
 "For every set of momentum-space distributions given at a set of radii, whether all at once, in groups or one by one, in any order and with plain and logarithmic tables mixed, evaluating at a given radius returns that radius' distribution, evaluating between two radii returns the linear interpolation of the two neighbours, and evaluating outside follows the straight line through the two outermost radii or is refused when extrapolation is disabled. The drift shift is subtracted from the radius, a clone evaluates identically, a single radius gives a radially constant distribution, and non-monotonic radial grids are refused. A refused insertion leaves the distribution unchanged; two distributions at the same radius are left unspecified.",
 ["inputs", "histories"], "all radial grids, all insertion orders, linear and logarithmic data, all evaluation radii incl. grid points, ends and outside, originals and clones",
 "The radial class is only reached by tests through one loaded file; insertion order, extrapolation and cloning are untested.",
 ["src/DistributionFunction/NumericDistributionFunction.cpp", "include/softlib/DistributionFunction/NumericDistributionFunction.h"],
 [("radial look-up and interpolation", "NumericDistributionFunction.cpp Eval/__FindNearestR"), ("insertion", "InsertMomentumSpaceDistribution")],
 ["evaluated values and exceptions"])

prop("P13", "Analytical distributions and radial profiles match their formulas",
 "For all admissible parameters and arguments, the avalanche, Connor-Hastie and exponential-pitch momentum distributions, the linear, power, Gaussian, Bessel and uniform radial profiles, and their products evaluate to their documented closed forms, profiles vanish outside their radial interval, and a drift shift translates the profile. Values are finite and non-negative for non-negative profiles, re-initialising replaces all earlier parameters, a clone evaluates identically, and parameters that define no distribution (such as an empty radial interval) are refused.",
 ["inputs", "histories"], "all parameter sets and evaluation points in the physical range",
 "Only the avalanche distribution has a test, and it fails on the base tree; profiles, Connor-Hastie, exponential pitch and products are untested.",
 ["src/DistributionFunction/AnalyticalAvalanche.cpp", "src/DistributionFunction/ConnorHastieDistribution.cpp", "src/DistributionFunction/ExponentialPitch.cpp", "src/DistributionFunction/LinearRadialProfile.cpp", "src/DistributionFunction/PowerRadialProfile.cpp", "src/DistributionFunction/GaussianRadialProfile.cpp", "src/DistributionFunction/BesselRadialProfile.cpp", "src/DistributionFunction/RadialDistributionFunction.cpp", "src/DistributionFunction/UnitDistributionFunction.cpp"],
 [("closed forms", "one Eval per class")],
 ["evaluated values"])

prop("P14", "Legendre-mode (CODE, GO+CODE) distributions are summed faithfully",
 "For every file with Legendre-mode data, evaluation at any momentum and pitch equals the alternating-sign Legendre sum of the interpolated modes for the requested time slice (negative indices counting from the end), with the documented normalisation, clipped at zero and zero outside the momentum grid. The result does not depend on what was evaluated or converted before, conversion to a gridded distribution reproduces the same sum at its grid points, clones evaluate identically, invalid time indices and unusable grids are refused, and the radial version interpolates linearly between (and extrapolates beyond) its radii. A file in which any one variable is missing, empty, or of another shape, type or value is refused or loaded, and whatever was loaded can be evaluated and cloned (or says that it cannot) without undefined behaviour.",
 ["inputs", "histories"], "all mode counts, grids, time indices, file formats, paths, evaluation orders and interleavings with conversion and cloning",
 "The CODE test fails on the base tree and GO+CODE has none.",
 ["src/DistributionFunction/CODEDistributionFunction.cpp", "src/DistributionFunction/GOCODEDistributionFunction.cpp"],
 [("Legendre recursion, cache and sum", "CODEDistributionFunction.cpp Eval"), ("radial interpolation", "GOCODEDistributionFunction.cpp Eval")],
 ["evaluated values and exceptions"])

prop("P15", "Distribution files load to the data they contain or are refused",
 "For every SOFT, old-format SOFT, DREAM and LUKE distribution file, in any supported container format, the loaded distribution evaluates to the tabulated values at the (axis-shifted, unit-converted) grid points for the requested time slice, and interpolates linearly between them. Files with inconsistent dimensions, wrong type tags, failing verification vectors, unknown units or out-of-range time indices are refused with the library's exception, and loading, evaluating, cloning (clones share the data of the original, which has to outlive them) and destroying never corrupts memory. A file in which any one variable is missing, empty, or of another shape, type or value is refused or loaded, and whatever was loaded can be evaluated and cloned (or says that it cannot) without undefined behaviour.",
 ["inputs", "fault_sequences"], "all well-formed files (all grid sizes, orientations, units, time slices) and all single-field corruptions of them",
 "One LUKE and one SOFT file are loaded, and both tests fail or are flaky at base.",
 ["src/DistributionFunction/SOFTDistributionFunction.cpp", "src/DistributionFunction/deprSOFTDistributionFunction.cpp", "src/DistributionFunction/DREAMDistributionFunction.cpp", "src/DistributionFunction/LUKEDistributionFunction.cpp"],
 [("loaders", "one Load per class")],
 ["evaluated values and exceptions"])

prop("P16", "The analytical magnetic field is internally consistent everywhere",
 "For all positive field strengths, geometries, directions and safety-factor profiles without zeros and all points off the symmetry axis, the field equals its closed form; its Jacobian, the gradient of its magnitude and its curl equal the derivatives of that field; the field is divergence-free and axisymmetric; the flux derivatives equal the derivatives of the flux; and the field is tangential to flux surfaces. The safety factor and its derivative follow the documented profile, field and derivative evaluations agree with each other, a clone agrees with the original, and conversion to a numeric field reproduces field and flux on the grid (at least four points per direction, else it is refused).",
 ["inputs"], "all parameters (five safety-factor profiles, both signs), all points incl. the magnetic axis",
 "The analytical-field test is unstable and covers stored points of one field; the Jacobian, flux and most q-profiles are unchecked.",
 ["src/MagneticField/MagneticFieldAnalytical2D.cpp", "src/MagneticField/MagneticFieldAnalytical2D.q.cpp"],
 [("closed forms", "Eval, EvalDerivatives, EvalFlux, EvalFluxDerivatives"), ("q-profiles", "__GetSafetyFactor/__GetrDqDr")],
 ["returned field, derivatives, flux"])

prop("P17", "Numeric magnetic fields reproduce, save and clone their data",
 "For every gridded field the evaluated field is the natural bicubic spline through the data, and so equals the data at grid points and stays within interpolation error of the smooth field it was sampled from; the field strength is the length of the field vector (zero where it vanishes); inside the grid its derivatives are the derivatives of the interpolated field; it is axisymmetric; and outside the grid it continues with the value at the grid edge. Saving a field and loading it back (in any format that supports it), cloning it, and evaluating in any order all give the same field, axis, wall, separatrix and flux; files with inconsistent dimensions, failing verification vectors, fewer than four grid points in a direction or grids that do not strictly increase are refused. A file in which any one variable is missing, empty, or of another shape, type or value is refused or loaded, and whatever was loaded can be evaluated and cloned (or says that it cannot) without undefined behaviour.",
 ["inputs", "histories"], "all grids, fields (with or without flux, wall, separatrix), evaluation points inside and outside, save/load/clone/destroy histories, corrupted files",
 "One stored field is evaluated at stored points; save, clone, missing flux, out-of-grid points and malformed files are untested.",
 ["src/MagneticField/MagneticFieldNumeric2D.cpp", "include/softlib/MagneticField/MagneticFieldNumeric2D.h"],
 [("bicubic splines", "MagneticFieldNumeric2D.cpp Eval/__EvalJacobian"), ("load/save/clone", "Load, Save, Clone")],
 ["returned field, derivatives, flux, geometry and exceptions"])

prop("P18", "LUKE equilibrium files load to the field they describe",
 "For every LUKE equilibrium file, the loaded field at each R-Z grid point equals the bilinear interpolation (linearly continued outside the table) of the tabulated (flux, angle) components at that point's normalised flux and poloidal angle, the flux equals the normalised flux scaled by its boundary value, and axis, separatrix and optional wall are placed in global coordinates. Files with inconsistent dimensions or flux and angle grids that have fewer than two points or do not strictly increase are refused with the library's exception. A file in which any one variable is missing, empty, or of another shape, type or value is refused or loaded, and whatever was loaded can be evaluated and cloned (or says that it cannot) without undefined behaviour.",
 ["inputs"], "all well-formed equilibrium files (grid sizes, axis positions, flux signs) with and without wall files in either orientation, and corrupted ones",
 "One stored file is loaded and compared at a few points.",
 ["src/MagneticField/MagneticFieldLUKE.cpp"],
 [("flux-coordinate to R-Z mapping", "MagneticFieldLUKE.cpp Load"), ("wall loading", "LoadWall")],
 ["returned field, flux, geometry and exceptions"])

prop("P19", "Wall and domain geometry queries match the geometry",
 "For every closed wall polygon around the magnetic axis and all pairs of points, the query whether a straight poloidal path crosses the wall is true exactly when the path meets (touching included) a wall segment, the one from the last vertex back to the first included, and the three-dimensional line-of-sight query is true exactly when the segment meets the surface of revolution of the wall, optionally ignoring the outer wall (lines that only graze it, or run inside the plane of a horizontal tile, excepted). Domain bounds, the extreme radii at the axis height and the extreme heights at a radius equal those of the polygon, however the polygon is ordered or started, and always refer to the domain set last; a height or radius that the polygon does not reach is refused.",
 ["inputs", "histories"], "all wall polygons (star-shaped and general, any starting vertex and orientation, with horizontal and vertical segments), all point pairs, sequences of domain changes",
 "The domain test uses one polygon and 42 points for one of the queries; the 3-D query, bounds and extreme-height queries are untested.",
 ["src/MagneticField/MagneticField2D.cpp"],
 [("segment intersection", "CrossesDomain"), ("cone/segment intersection", "__IntersectsDomain3D"), ("extrema", "FindMaxRadius, FindMaxMin, GetDomainBounds")],
 ["returned booleans and extrema"])

prop("P20", "Images are written with exactly the colours of their data",
 "For every image, colour map, value range and output format, each pixel of the written picture file is the colour the map assigns to the linearly normalised, clamped value of the corresponding image element within one level per channel (the grey map is a straight ramp, the default map interpolates linearly between its listed colours), the picture is as wide as the image has rows and as high as it has columns, with element (row j, column i) at x=j, y=i, and the file is a valid picture of that format. An image that cannot be written, or a format the library was built without, is reported, never silently dropped.",
 ["inputs"], "all image sizes (non-square included), values incl. outside the range, ranges with non-zero minimum, maps and formats",
 "There is no test of image generation.",
 ["src/ImageGenerator/ImageGenerator.cpp", "src/ImageGenerator/ImageGeneratorPPM.cpp", "src/ImageGenerator/ImageGeneratorPNG.cpp", "include/softlib/ImageGenerator/*.h"],
 [("normalisation and colour maps", "ImageColormap"), ("writers", "ImageGeneratorPPM/PNG")],
 ["decoded picture files"])

prop("P21", "Timing and progress output is accurate and complete",
 "For every elapsed time, its decomposition and its formatted representations denote exactly that time, and the plain and coloured representations agree (colour never extends beyond the text); stopped and continued timers accumulate exactly the time they ran, also when stopped or continued repeatedly. For every number of iterations, requested number of reports and order of completed iterations (also from several threads), progress is reported at most once for each of the requested evenly spaced fractions k/N of the work (exactly once and at that point when iterations complete in order, never when no reports are requested), in increasing order, with the right label, total elapsed time and time since the previous report and, at a steady pace, the right remaining and total time.",
 ["inputs", "histories", "schedules"], "all durations from 0 ms to thousands of days, all iteration counts, report counts and completion sequences",
 "There is no test of timers or progress reporting.",
 ["src/General/Timer.cpp", "src/General/ProgressTracker.cpp"],
 [("time decomposition and formatting", "Timer.cpp"), ("report scheduling", "ProgressTracker.cpp")],
 ["returned strings, structs and printed lines"])

prop("P22", "Peaked integrals are found and integrated within their interval",
 "For every integrand with one peak in the interval, the located maximum is the true maximum within the tolerance, and, when the sampling step resolves the peak, the integral agrees with the true integral over exactly the requested interval up to the error of the quadrature at that step and the neglected tail below the cut-off. The integrand is never evaluated outside the interval.",
 ["inputs"], "all smooth single-peaked integrands (position, width, height), intervals and tolerances",
 "There is no test of the peaked integration.",
 ["src/Integration/PeakedIntegration.cpp", "include/softlib/Integration/PeakedIntegration.h"],
 [("golden-section search", "FindMaximum"), ("outward integration", "Evaluate")],
 ["returned value, arguments passed to the integrand"])

prop("P23", "Library exceptions carry the complete formatted message",
 "For every format string and arguments of any length, the text of a library exception (and of its file and configuration variants) is exactly the formatted message, complete and unchanged by copying or re-throwing, and catching by any base class works. Creating and destroying exceptions never touches memory it does not own.",
 ["inputs"], "all message lengths (including around internal buffer sizes) and argument types",
 "No test inspects exception messages.",
 ["include/softlib/SOFTLibException.h", "src/General/SOFTLibException.cpp", "include/softlib/SFileException.h", "include/softlib/ConfigurationException.h"],
 [("message formatting", "SOFTLibException.h ConstructErrorMessage")],
 ["what() and whats()"])

prop("P24", "Clones and separate objects can be used from different threads",
 "For every magnetic field, distribution function and radial profile, the object, its clones and clones of clones may be queried at the same time from different threads: no memory is written by one thread while another uses it, and every thread obtains exactly the values it would obtain alone. The same holds for objects created independently of each other (integrators, peaked integrals, configurations, SDT files, images, fields and distributions), which share no hidden mutable state.",
 ["schedules", "inputs", "histories"], "all interleavings of evaluation sequences on an object and its clones, of every kind and interpolation mode",
 "Every test is single-threaded, and a race shows only under particular interleavings.",
 ["src/DistributionFunction/", "src/MagneticField/MagneticFieldNumeric2D.cpp", "src/MagneticField/MagneticFieldAnalytical2D.cpp", "src/MagneticField/MagneticField2D.cpp"],
 [("per-object interpolation state", "MinClone / Clone of every class")],
 ["values returned to each thread, memory accesses of the threads"])

prop("P25", "Configuration errors name the file and line at fault",
 "For every configuration text with a syntax error, given as a string, stream, standard input or file and in the text itself or in a file it includes, the first error reported names the file that contains the error and the line on which the first token that cannot be accepted begins (the end of the text when it ends too early), whatever blank lines, comments, quoted strings containing line breaks and included files precede it. The reported column is not specified, nor is the place of an unterminated quoted string.",
 ["inputs"], "all scripts with one planted error of each kind, all layouts, all ways of supplying the text, errors inside of included files",
 "No test looks at the place an error is reported at.",
 ["src/Configuration/Script/Lexer.cpp", "src/Configuration/Script/Interpreter.cpp", "src/Configuration/Script/ConfigurationScript.cpp", "include/softlib/ConfigurationException.h"],
 [("line counting, include stack", "Lexer.cpp"), ("error reporting", "Interpreter.cpp, ConfigurationException.h")],
 ["printed error messages, ConfigurationException::GetLine and message"])

prop("P26", "Data is stored in the file, or the failure is reported",
 "For every sequence of writes to a data file in any of the three formats, a write that cannot be carried out (a name that already exists or a struct that does not exist in an HDF5 or MAT file, a name that is empty or contains white space in an SDT file, an attribute of a missing variable or one too long for an HDF5 file, a file opened for reading only or not at all, a target that cannot be created, a disk that fills up after any number of bytes) raises the library's own exception, at the latest when the file is closed; nothing is dropped silently and no foreign exception escapes. Except on a full disk, a refused write leaves nothing behind and everything written before and after it is stored as if it had not been attempted.",
 ["inputs", "histories", "fault_sequences"], "all histories mixing possible and impossible writes in all formats; a full disk at every file offset",
 "No test provokes a failing write.",
 ["src/SFile/SFile_HDF5.cpp", "src/SFile/SFile_MAT.HDF5.cpp", "src/SFile/SFile_SDT.cpp"],
 [("write functions", "SFile_HDF5.cpp, SFile_MAT.HDF5.cpp, SFile_SDT.cpp Write*"), ("closing", "Close")],
 ["exceptions, file contents after the history"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
