#!/usr/bin/env python3
"""Regenerates tools/notes.json (technique and level note per property, used by
mkmanifest.py) and DESIGN.md from the texts below, properties.jsonl,
known_findings.txt, tools/catch.json and the FACET lines of the harnesses."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = {}
def d(i, technique, gen, oracle, bounds, beyond):
    D[i] = dict(technique=technique, gen=gen, oracle=oracle, bounds=bounds, beyond=beyond)

d("P01", "stateful property-based testing: random write/update histories, round-trip oracle",
  "A random history of 1-21 operations (scalars, lists, matrices, images, arrays up to rank 6, strings up to several kB, attributes, nested structs, close and re-open for update, reads in between) on an HDF5 or MAT file. Names are nested below structs; values include NaN, infinities, denormals, -0.0 and the extreme integers; shapes include 1xN, Nx1, 1x1 and occasionally large matrices, given as one block or as rows scattered in memory. Then every variable is read, in random order, repeatedly and through the typed readers, and absent names are probed. For MAT the clock is replaced by a generated one, so that every month, day and weekday occurs in the header.",
  "A model map name -> (type, shape, bytes). Comparison is bitwise. Header bytes 0-511 are compared to the MATLAB 7.3 layout and `MATLAB_class` attributes to the class of the written data. Returned arrays are scribbled over and re-read to show that they belong to the caller.",
  "Up to 21 operations, rank 6, about 10^4 elements; names of printable characters without '/'.",
  "The tests write one fixed file; update mode, rank > 2, nested structs, re-reads and header dates are never exercised.")
d("P02", "stateful property-based testing: random write histories, round-trip oracle",
  "Histories of 1-10 writes (scalars, lists, matrices, strings with any bytes, attributes), files re-opened for update or another file opened on the same object, then reads in random order, repeatedly and through each typed reader. `sdt_append`: text from the grammar of P04, with or without a final line break, is opened for update and written to.",
  "Model map; reals bit-for-bit (any NaN for a NaN), integers exactly up to 2^53, strings byte-for-byte; absence of every other name.",
  "10 writes per file.",
  "The tests read each variable once with values exactly representable in six digits.")
d("P03", "model-based testing of typed access over generated files, with refusals as part of the oracle",
  "`access`: a file in one of the three formats with random contents (including data HDF5 stores in types the library does not write itself), then 3-30 typed accesses, right and wrong, through every public reader. `foreign`: HDF5 and MAT files written with HDF5 itself (other number types, byte orders, ranks, string layouts, empty variables). `file_names`: generated names and extensions, missing files, directories, files of the wrong format.",
  "The stored model decides for each access between the exact converted value and `SFileException`; any other exception, sanitizer report or made-up value is a violation. After each refusal the same object has to answer correctly.",
  "Conversions whose result is not representable in the target type are not claimed.",
  "The tests contain no failing access at all.")
d("P04", "grammar-based generation and mutation fuzzing against a reference parser",
  "`wellformed`: texts from the grammar with any white space, blank lines and number spellings. `damaged`: such a text after 1-3 mutations (truncation, deletion, duplication, byte and token changes, size changes up to 10^18). `soup`: random sequences of format tokens.",
  "An independent reference parser with three verdicts: must load with exactly these variables, must be refused with the library's exception, no claim (repeated names, surplus values, odd number spellings such as `1+4`). Under all verdicts memory safety (ASan, 3 GB limit) and termination (CPU limit per case).",
  "Texts up to a few kB.",
  "Damaged text is outside of what the tests contain.")
d("P05", "grammar-based generation of configuration scripts against the generating tree; metamorphic re-layout",
  "`parse_tree`: a random tree (settings with 1-n values, quoted strings, typed and named blocks, nesting, re-opened blocks, overrides, comments, included files) is printed with random layout and read from string, stream or file. `layouts`: the same token list printed with two layouts.",
  "The tree the text was printed from (with later assignments applied); equality of the two trees for the metamorphic facet; no error flag.",
  "Depth 3, about 40 statements; chains of up to 30 nested included files and up to 140 inclusions of one file.", "The tests parse a single script.")
d("P06", "fuzzing with planted syntax errors and token soup; expected-error oracle",
  "`malformed`: one syntax error of a listed class (a stray quotation mark among them) planted into a generated script. `soup`: arbitrary bytes and token sequences, including self-including files.",
  "Planted errors must be flagged (or raise the library's exception); every input must end within the CPU limit without crash, sanitizer report or foreign exception.",
  "Inputs up to a few hundred tokens.", "The tests contain no malformed script.")
d("P07", "stateful model-based testing of copy/merge/modify/destroy histories",
  "`histories`: up to 20 operations on up to 6 configurations (add, override, copy-construct, assign, merge with and without permission for new settings, read, look up, destroy). `merge_scripts`: parse two scripts and merge. `block_types`: type registration.",
  "A value-semantics model of the tree with touch marks, compared completely after every operation; sanitizers find shared or freed nodes.",
  "About 20 operations, depth 3.", "Independence can only be seen by changing one tree after the copy; no test does.")
d("P08", "differential testing of setting predicates and converters against an exact reference",
  "Texts that are numbers, near misses (signs, fractions, exponents, hex, blanks, trailing garbage, out-of-range by one), booleans in every spelling, vectors; native settings with values at type boundaries, with copy and overwrite histories.",
  "A reference reader of decimal numbers (sign, digits, exponent; strtod for the value) and integer ranges; predicate true if and only if the read returns that value, otherwise the library's exception.",
  "Spellings where C and C++ readers disagree (hex floats, inf/nan words) only have to be consistent between predicate and read.", "Tests use a handful of valid values.")
d("P09", "property-based testing against long-double reference arithmetic, with aliasing",
  "Vectors and matrices of sizes 1-6 and several scalar types, values over many magnitudes, every operator, operands aliased with destinations.",
  "Component-wise long double reference with a rounding bound; operands compared bitwise afterwards.",
  "Magnitudes where products overflow are not claimed.", "Aliasing and operand preservation are not tested.")
d("P10", "property-based testing against closed-form solutions, convergence order and solver-reuse metamorphic relations",
  "`solve`: linear systems, oscillators, decays, non-autonomous problems with known solutions, random tolerances. `scales`: components of very different size. `domain`: trial steps leaving the domain of the equation. `after_failure`, `reuse`: earlier problems, also failed ones, on the same solver. `order`: the error and error estimate of single steps at h and h/2. `smooth`: dense output at random times. `dense_toggle`: dense output switched on and off between steps.",
  "Exact solutions with a bound that is a multiple of the tolerance times steps times the growth of the problem; monotone times; reuse bitwise equal to a fresh solver; dense output after switching equal to that of a solver which always had it, or refused; fifth order and estimate order as a ratio over all components.",
  "Isolated steps at which the estimate vanishes by coincidence are excepted (one component and one step).", "The test solves one problem with one tolerance.")
d("P11", "stateful property-based testing against independent bilinear and bicubic-spline references",
  "Tables of 2-12 by 2-12 points (non-uniform grids, zeros, logarithmic, values over many decades, reversed pitch), then evaluation at grid points, in cells, at edges and outside, clones and clones of clones, changes of the sign convention, initialisation with another table. `large_table`: more than 65536 values, checked at grid points. `bad_grids`: short, non-monotonic grids, negative values with logarithm.",
  "Own bilinear interpolant and natural spline (tridiagonal solve); clone bitwise equal; order independence.",
  "Bicubic values clipped at zero; full histories on grids up to 36x36 (bounded cost).", "The tests evaluate a single table at grid points.")
d("P12", "stateful model-based testing of radial insertion histories",
  "Random sequences of initialise (also with radii present), insert (in any order, linear/cubic, logarithmic, refused ones), extrapolation switches, drift shift, clone, evaluate.",
  "Sorted list of radii with reference momentum distributions, linear interpolation and extrapolation.",
  "Up to 8 radii; equal radii are left unspecified.", "Order of insertion and extrapolation are histories, which the tests do not contain.")
d("P13", "differential testing against independently written closed forms",
  "Random physical parameters, arguments inside, at the ends of and outside the intervals, drift shifts, re-initialisation, clones, products of profile and momentum distribution, invalid intervals.",
  "Closed forms in long double (Bessel function by its own series).", "Parameters for which the formula over- or underflows are compared up to that.", "Tests compare a few values with one parameter set.")
d("P14", "stateful property-based testing: generated Legendre-mode files, reference sum",
  "CODE files with up to several dozen modes, 1-6 time slices, random grids, all interpolation methods, then evaluate/convert/clone/reload histories; defective files and requests; GO+CODE files with 1-6 radii, more time groups than listed, decreasing radii. `mangle.h` replaces one (sometimes two) variables of a valid file by something missing, empty, of another rank, shape, type or value (or a group); the loader must refuse it or the object must survive evaluation and cloning under the sanitizers.",
  "Legendre sum with std::legendre-style reference polynomials over the modes, each interpolated by its own one-dimensional GSL object (never shared, no cache); clip at zero; linear in radius.",
  "Tolerance grows with the modulus of the terms (cancellation); the one-dimensional interpolation methods themselves are GSL's.", "The cache and scratch buffers only show in histories.")
d("P15", "property-based testing of file loaders: generated files with planted defects, tabulated-value oracle",
  "Files in HDF5, MAT and SDT written by the harness for the four formats: 1-14 radii, several time slices, all units, with and without magnetic field (analytical, or on a grid with separatrix, wall or both of different size; axis shift and launch radius), and one planted defect in a third of the cases. `mangle.h` replaces one (sometimes two) variables of a valid file by something missing, empty, of another rank, shape, type or value (or a group); the loader must refuse it or the object must survive evaluation and cloning under the sanitizers.",
  "Tabulated values at the unit-converted, shifted grid points, linear between; defects must be refused with the library's exception.",
  "A clone of a loaded distribution shares the data of the original, so clones are used while the original lives.", "The tests load one file each.")
d("P16", "property-based testing against closed form, exact derivatives and field identities",
  "Random geometry, directions and safety-factor profiles (constant, linear, quadratic, exponential, current profile with exponents up to 100), points everywhere incl. near the axis and axis plane; clones; conversions.",
  "Own closed form; derivatives by dual numbers of that closed form; div B = 0, curl and grad|B| from the Jacobian; B.grad(psi) = 0; rotations; grid values after conversion.",
  "Away from the symmetry axis and zeros of q.", "Derivative formulas fail only in some parameter regimes.")
d("P17", "stateful property-based testing: generated gridded fields, spline reference, save/load/clone histories",
  "Grids of 4-14 points (non-uniform), random or smooth components (some exactly zero), with and without flux, wall, separatrix (also with 2 points), long names; evaluate, derive, clone, save and load in three formats, destroy, in random order; defective files; `large_grid`: more than 65536 grid points, checked at grid points of field, clone and saved copy. `mangle.h` replaces one (sometimes two) variables of a valid file by something missing, empty, of another rank, shape, type or value (or a group); the loader must refuse it or the object must survive evaluation and cloning under the sanitizers.",
  "Own natural bicubic spline for values and derivatives; edge continuation; equality across save/load and clone; planted defects refused.",
  "SDT is compared with its text precision.", "Only a single analytic field is tabulated in the tests.")
d("P18", "property-based testing of generated LUKE equilibria against a reference mapping",
  "Random flux surfaces (shaped, any number of flux/angle points), signs of the flux, optional wall, defective and transposed tables. `mangle.h` replaces one (sometimes two) variables of a valid file by something missing, empty, of another rank, shape, type or value (or a group); the loader must refuse it or the object must survive evaluation and cloning under the sanitizers.",
  "Independent flux/angle location and bilinear interpolation at every R-Z grid point.", "Points on which the nearest-surface search is ambiguous are skipped.", "No LUKE test exists.")
d("P19", "property-based testing of geometry queries with exact rational and margin-based oracles",
  "`poloidal_exact`: polygons and paths on small integer grids incl. touching, collinear and parallel cases. `poloidal_real`: real polygons, paths of any length (also short steps next to the wall). `sight_line`: 3-D segments of any length against surfaces of revolution incl. horizontal, vertical tiles, tiles touching the symmetry axis, end points on the wall. `extents`: histories of domains and extreme queries. Geometries are also scaled by powers of two (2^-30 to 2^30). `field_domains`: the same queries through loaded fields and clones.",
  "Exact integer arithmetic for 2-D; for 3-D the cone equation in long double with a margin (cases within the margin make no claim).",
  "Grazing sight lines and those inside the plane of a horizontal tile are not claimed.", "Degenerate configurations are an infinite family.")
d("P20", "property-based testing: generated images, decoded with an independent reader",
  "Images with 1-40 rows and columns, values incl. extremes and constant images, ranges, built-in and generated colour maps, PPM and PNG; unwritable targets (missing directory, /dev/full).",
  "Own PPM decoder and libpng reader; colour formula with one level tolerance; failures must be reported.",
  "Values are finite.", "There is no image test.")
d("P21", "property-based testing with a virtual clock; concurrent histories",
  "Timer histories on a fake clock, elapsed times over all scales; iteration counts, numbers of reports, in-order and out-of-order completion and several threads.",
  "Exact decomposition in integers; parsed report lines compared with the schedule k/N and the virtual times.",
  "The clock functions (`clock_gettime`, `gettimeofday`, chrono) are replaced in the harness process.", "Times of hours and days cannot be awaited in a test.")
d("P22", "property-based testing against exact integrals and instrumented integrands",
  "Gaussian, Lorentzian, asymmetric and one-sided peaks at any place in any interval, step, cut-off, given or located maximum.",
  "Exact primitive plus quadrature and cut-off bounds; every argument passed to the integrand is recorded.",
  "Only resolved peaks are claimed.", "Tests integrate one function.")
d("P23", "property-based testing against snprintf over all lengths and conversions",
  "Formats with 0-4 conversions, arguments of lengths concentrated around 900-1100 and up to 20000, names with percent signs, copies, re-throw and catch by every base class, exceptions of the library itself raised with such names.",
  "snprintf with a large buffer; catch type table.", "Arguments match their conversions.", "Length boundaries are not tested.")
d("P24", "generated multi-threaded programs under helgrind; sequential-result oracle",
  "2-4 threads, each with its own clone (or clone of a clone, or the original) of a generated field, distribution or profile, or with independently created objects; random operation lists.",
  "Values of the same operations executed alone before, bitwise; every data race helgrind reports during the case (happens-before analysis, so the schedule need not hit it).",
  "HDF5 and exceptions inside of threads are excluded; each operation runs once before the threads start, so one-time initialisation of statics is allowed.", "Races do not show in single-threaded tests.")
d("P25", "error-planting fuzzing of generated scripts; position oracle from the renderer",
  "A generated script (as in P05, with blank lines, comments, quoted strings with line breaks and included files) into which one error of nine kinds is planted (missing value, '=', ';' or '{', stray '}', misplaced symbol, unknown block type, missing include file, unterminated block), read from a string, named string, standard input or file, directly or through an including file.",
  "The renderer remembers on which line of which file each token begins; the first reported error (printed or thrown) has to name that file and line.",
  "One error per text; columns and unterminated strings are not claimed.", "No test looks at error positions, which depend on everything that precedes the error.")
d("P26", "stateful model-based testing of write histories with impossible operations; fault injection (file-size limit)",
  "`refused_writes`: histories of 2-16 operations over one or two sessions mixing ordinary writes with writes to existing names, into missing structs, attributes of missing variables, names SDT cannot store, repeated and over-long attributes, writes to files opened for reading, openings of impossible targets. `no_space`: 1-6 variables written under a limit on the file size (RLIMIT_FSIZE) at any offset.",
  "The model of the possible writes; every impossible one has to raise the library's exception; afterwards the file is compared object by object with the model. Under the limit: exception, or a complete file.",
  "Each limited write runs in a forked child, because the HDF5 library cannot be used after a failed flush. Repeated names in SDT files are not claimed.", "No test contains a failing write.")

json.dump({k: {"technique": v["technique"], "note": "Random search, no proof. Bounds: " + v["bounds"]} for k, v in D.items()}, open(V + "/tools/notes.json", "w"), indent=1)

ps = [json.loads(l) for l in open(V + "/properties.jsonl")]
facets = {}
for f in sorted(os.listdir(V + "/harness")):
    if f.endswith(".cpp"):
        for m in re.finditer(r'^FACET\("(P\d+)", (\w+), (\d+), "([^"]*)"', open(V + "/harness/" + f).read(), re.M):
            facets.setdefault(m[1], []).append((m[2], int(m[3]), m[4]))
src = open(V + "/check.py").read()
SCALE = eval(re.search(r"^SCALE = (\{.*?\})", src, re.M | re.S)[1])
catch = json.load(open(V + "/tools/catch.json")) if os.path.exists(V + "/tools/catch.json") else {}
o = []
w = o.append
w(open(V + "/tools/design_head.md").read().rstrip() + "\n")
w("## 3. The properties, one by one\n")
w("Case counts are those of the quick tier; the thorough tier runs 40 times as many.\n")
for p in ps:
    i = p["id"]
    if i not in D:
        w("### %s %s\n\nNot claimed, see MANIFEST.json.\n" % (i, p["title"])); continue
    x = D[i]
    w("### %s %s\n" % (i, p["title"]))
    w("*Method:* %s.\n" % x["technique"])
    w("*Generated:* %s\n" % x["gen"])
    w("*Oracle:* %s\n" % x["oracle"])
    w("*Bounds and exceptions:* %s\n" % x["bounds"])
    w("*Beyond the tests:* %s\n" % x["beyond"])
    w("*Facets (cases in the quick tier; rule for a non-trivial case):*\n")
    for n, c, r in facets.get(i, []):
        w("- `%s` (%d): %s" % (n, c * SCALE.get(i, 1), r))
    w("")
w("## 4. Planted bugs (`seeded/`) and the checks that catch them\n")
w("Each was verified in a clone: builds, the nine stable tests pass, the demonstration exits 0 without and non-zero with the patch. \"Caught by\" is the result of the quick tier with seed 1.\n")
w("| bug | property | needs | breaks | caught by |\n|---|---|---|---|---|")
for s in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(V + "/seeded/%s/meta.json" % s))
    w("| %s | %s | %s | %s | %s |" % (s, m["property"], m["needs"].replace("|", "/"), m["what_it_breaks"].replace("|", "/"), catch.get(s, "not run")))
w("")
w(open(V + "/tools/design_tail.md").read().rstrip() + "\n")
w("## 8. Defects found and repaired\n")
w("Every entry was first reported by a check as a violation on the tree of that time, reproduced against the real code from the shrunk case, repaired by a `fix:` commit in /repo and is listed in `known_findings.txt`.\n")
for l in open(V + "/known_findings.txt"):
    m = re.match(r"fixed: property=(P\d+) (\w+) (.*)", l)
    if m: w("- %s `%s` %s" % (m[1], m[2], m[3]))
    elif l.startswith("KNOWN-FINDING"): w("- " + l.strip())
open(V + "/DESIGN.md", "w").write("\n".join(o) + "\n")
