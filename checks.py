"""Registry of every property: what run.py explores, and what gen.py writes to properties.jsonl and MANIFEST.json."""
import os

CHECKS = {}


def P(pid, title, statement, over, qtext, why, files, mechanism, parts, quick, thorough, how, technique, note, **kw):
    CHECKS[pid] = dict(title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mechanism=mechanism,
                       parts=parts, bounds=dict(quick=quick, thorough=thorough), how=how, technique=technique, note=note, **kw)


def cpp(src, flavor="fast", shards=8, **kw):
    return dict(src=src, flavor=flavor, shards=shards, **kw)


IMPL = "every explored state calls the real library code built from /repo's working tree; 'validated' counts states where the real result was compared with the reference model and agreed"
TRUST = "Trusts the compiler, libc and the reference model written in the harness; says nothing outside the stated alphabet and bounds."

P("C01", "Calendars number the days consecutively and invertibly",
  "In every supported calendar (Gregorian, Julian, mixed Julian/Gregorian, Hebrew, Islamic, French revolutionary, both Persian calendars, Chinese), converting a day number to day/month/year and back gives the same day number. Consecutive day numbers are consecutive days of one month, or the last day of a month and the first day of the next month, with no day skipped, repeated or out of the month's length, and month lengths reported agree with that. Nothing in this depends on which dates or calendars were asked for before.",
  ["inputs", "histories"], "every day in the supported range of each calendar, and every order of earlier conversions (the tables are cached)",
  "Existing tests convert a few dozen dates and step one fixed range; a one-day slip in a single year of a single calendar is invisible to them.",
  ["date.cpp", "chinese.h"], [dict(name="dmy_to_day / day_to_dmy and per-calendar year tables", where="date.cpp")],
  [cpp("c01_cal.cpp")],
  "every day of -10000..+10000 (or the calendar's whole table) for nine calendars, all ordered pairs of calendars/dates from a history alphabet",
  "the same over the widest range the calendars accept, longer histories", IMPL,
  "exhaustive walk of the day-number state space of the real code",
  "Complete over the listed day ranges; each step is one transition day -> next day checked for continuity. " + TRUST)

P("C02", "Calendar dates agree with the calendars' published rules",
  "The dates given for the Gregorian, Julian, Hebrew, Islamic, French revolutionary, Persian and Chinese calendars are those of the calendar's own rules: leap-year rules, molad and postponement rules, the 30-year cycle, the 2820-year and astronomical Persian leap years, and month lengths of 29 or 30 days with at most one intercalary month. The month and year boundaries fall on the days those rules give, and well-known dated anchors are reproduced.",
  ["inputs"], "every year (and month of it) within the supported range of each calendar",
  "The tests check isolated dates; the rules differ from plausible wrong ones only in rare years (a postponement, a century, an intercalary twelfth month).",
  ["date.cpp", "chinese.h"], [dict(name="calendar rules", where="date.cpp: get_jul_greg_year_data, get_hebrew_year_data, get_islamic_year_data, get_revolutionary_year_data, get_persian_*, get_chinese_year_data")],
  [cpp("c02_calref.cpp")],
  "every year of each calendar's range against an independent implementation of its rules", "the same with wider ranges", IMPL,
  "exhaustive comparison of the real calendars with independent rule models, year by year",
  "Reference rules are written from published descriptions, not from the code. " + TRUST)

P("C03", "Packed designations and names convert into each other faithfully",
  "Every asteroid, comet, natural-satellite and artificial-satellite designation that the MPC packed scheme can express packs to exactly the twelve characters the scheme prescribes, and unpacking those gives back the same designation and the right kind of object, whether or not an output buffer is supplied and for misaligned text too. A name the scheme cannot express is reported as such and kept literally; it never silently packs into something that unpacks to a different object. Unpacking always terminates with a terminated string.",
  ["inputs"], "every designation in the scheme: all 15396335 numbers, all provisional, extended, survey, comet, fragment and satellite designations; plus every short literal over a colliding alphabet",
  "The unit test has a few dozen lines; the scheme has tens of millions of designations with many special cases.",
  ["unpack.cpp", "mpc_fmt.cpp"], [dict(name="create_mpc_packed_desig", where="mpc_fmt.cpp"), dict(name="unpack_mpc_desig, unpack_unaligned_mpc_desig", where="unpack.cpp")],
  [cpp("c03_desig.cpp")],
  "all 15396335 numbers, all 62^4 extended designations of one half-month, every year/half-month/letter/number class below, all literals of up to 7 characters over 8 letters",
  "all numbers 0..619 for every year, half-month and letter; all extended designations of three half-months; literals up to 9 characters", IMPL,
  "exhaustive enumeration of the designation space against a reference packer",
  "Reference packer written from the MPC's description. " + TRUST)

P("C04", "Base-62 digits and catalogue codes are exact one-to-one mappings",
  "Base-62 digits and numbers convert to text and back without loss for every value that fits the field, values that do not fit and characters that are not digits are reported. Every one-byte astrometric catalogue code names the catalogue the MPC assigns to it, and that name, in any of the accepted spellings (case, separators, a trailing '.0'), gives back the same code, while an unknown name gives '?'.",
  ["inputs"], "all characters, all numbers of one to five digits, all 256 codes and every spelling variant",
  "Tests touch these only through a few designations; one swapped entry or boundary is not noticed.",
  ["unpack.cpp", "mpc_fmt.cpp"], [dict(name="mutant hex functions", where="unpack.cpp"), dict(name="net_codes, reduce_net_name", where="mpc_fmt.cpp")],
  [cpp("c04_codes.cpp")],
  "all chars, all values of 1-4 digits, every 97th of 5 digits, all 256 codes with all separator/case variants", "all 916132832 five-digit values", IMPL,
  "exhaustive enumeration of the code spaces", TRUST)

P("C05", "Displayed times are exact and read back as the same time",
  "A time shown in any format (calendar date and time to days, hours, minutes or seconds with any number of decimals, Julian Day, modified Julian Day, decimal year) shows the correctly truncated or, on request, rounded value, carrying into the next minute, day, month or year where needed and never showing 60 seconds or 24 hours. A text that carries a full date reads back, under the same format settings, as the displayed instant in every calendar. Splitting a time into its parts gives parts within range that add up to it.",
  ["inputs", "configurations"], "all instants (in particular just before and after every kind of boundary), all format flags, precisions and calendars",
  "Tests format a handful of instants in a handful of the 2^24 format words; carries and parsing ambiguities appear only at boundaries and in rare flag combinations.",
  ["miscell.cpp", "get_time.cpp", "date.cpp"], [dict(name="full_ctimel, show_remainder", where="miscell.cpp"), dict(name="get_time_from_stringl, split_timel", where="get_time.cpp")],
  [cpp("c05_ctime.cpp")],
  "9 calendars x boundary years x up to 400 days x 4 unit formats x 4-10 precisions x 32 layouts x boundary ticks x offsets; all 2048 layout flag subsets at 5 days; JD/MJD/year at 200 days x 40 instants x 11 precisions",
  "all precisions and every fifth day; 8000 consecutive days; every year -200..2200", IMPL,
  "exhaustive enumeration of (instant, format) against an integer-tick reference formatter, plus inverse reading",
  "Instants are chosen between display ticks so the expected text is unambiguous despite floating point. " + TRUST)

P("C06", "Every documented time notation means the instant it denotes",
  "Text giving a date and/or time in any documented notation (fields in any order with any separator and month spelling, BC/AD, decimal days, day of year, compact and FITS forms, JD, MJD, UNIX, GPS and decimal-year forms, weekday names, AM/PM and partial times, lunar phases), followed by any sequence of time offsets, evaluates to the instant it denotes; what is not given is taken from the current time or the format settings as documented. Text that cannot be understood leaves the time unchanged and is flagged.",
  ["inputs", "configurations", "histories"], "every notation x date x time of day x sequence of offsets x starting time x field order setting",
  "The test file has about sixty lines; the parser's behaviour depends on combinations of field values, order, settings and starting time.",
  ["get_time.cpp"], [dict(name="get_time_from_stringl, collect_time_offset, find_nearest_lunar_phase_time", where="get_time.cpp")],
  [cpp("c06_notation.cpp")],
  "16 years x every day x all orders/separators/spellings, 16 time-of-day forms, offset sequences of length up to 3 from 10 offsets, 4 starting times, 4 settings; 'now' and two-digit years under a controlled clock in every year from 1970 to 2104",
  "offset sequences with every date form, every JD", IMPL,
  "exhaustive generation from a bounded grammar; expected instant computed from the parts", TRUST)

P("C08", "Time scales follow the published leap seconds and Delta-T",
  "For every instant, TD minus UTC equals the published value: equal to TD minus UT before 1961, the published linear pieces from 1961 to 1971, 32.184 s plus the announced number of leap seconds from 1972, and beyond them the whole number of seconds nearest the predicted Delta-T at the middle of the half-year, unless prediction has been ended. Delta-T follows the published polynomials, table and extrapolation, or whatever definition the user last set, over exactly its range of years. TDB minus UTC exceeds TD minus UTC by the periodic TDB minus TT in seconds.",
  ["inputs", "configurations", "histories"], "every day and boundary second, every setting of the prediction limit and of the user's Delta-T definition, in any order",
  "Tests look at no more than a few dates; a leap second off by a day or a wrong joint shows only near that date.",
  ["delta_t.cpp", "mjd_defs.h"], [dict(name="td_minus_utc, td_minus_ut, tdb_minus_tdt, evaluate_delta_t_string", where="delta_t.cpp")],
  [cpp("c08_scales.cpp")],
  "every day 1955..2700 at 6 instants, 7 seconds around each month start, 81 pairs of prediction limits, Delta-T every 7.3 days over 12000 years and at all joints, all 512 sequences of three user definitions",
  "every day to year 9999, Delta-T every 0.73 day", IMPL, "exhaustive walk over days and setting histories against the published tables",
  "The reference tables are the published ones typed into the harness. " + TRUST)

P("C09", "Observation dates are read exactly in every supported form",
  "The date and time in an 80-column observation, in any supported form (year month day with zero to six decimals, with or without leading zeroes; century-packed days with decimals or hours, minutes and seconds; Julian or modified Julian Day), is read as exactly the instant written, together with the code of its form and precision. Radar times are taken to the nearest whole second. A line of the wrong length, with a wrong note column, with no such month, with something other than a digit in the date's numbers or without a valid observatory code is not an observation.",
  ["inputs"], "every day, form, number of decimals and time of day; all lengths and all bytes in the structural columns",
  "Tests use a few observation lines in one or two forms.",
  ["mpc_fmt.cpp"], [dict(name="extract_date_from_mpc_report, is_valid_mpc_code", where="mpc_fmt.cpp")],
  [cpp("c09_date.cpp")],
  "every day of 1560..2110 and years to 9999 in strides, 7+8+4+1+7+8 forms, 10 decimal patterns; all byte pairs in the observatory code; every byte at every place of the date, and pairs; every month 0 and 13..99",
  "every third year to 9999, every JD", IMPL, "exhaustive generation of date fields from their parts", TRUST)

P("C10", "Sky positions are read and written exactly in every format",
  "A right ascension or declination written in any of the supported field formats (sexagesimal with seconds or minutes and any number of decimals, decimal hours or degrees, packed digits, degrees for right ascension) reads as exactly the angle written, with its format and precision reported, and writing that angle in that format gives the same text. An angle is written as the nearest value the format can show, carrying into minutes, hours and degrees. Free-form angles are read exactly to any number of decimals, the text used is measured correctly, and out-of-range or unreadable text is refused.",
  ["inputs"], "every value every format can show, on both sides of every rounding boundary",
  "Tests read a few positions; carries, rare formats and refused values are not reached.",
  ["mpc_fmt.cpp", "mpc_fmt2.cpp", "mpc_code.cpp"], [dict(name="get_ra_dec_from_mpc_report", where="mpc_fmt.cpp"), dict(name="output_angle_to_buff", where="mpc_fmt2.cpp"), dict(name="get_ra_from_string, get_dec_from_string, quick_strtod", where="mpc_code.cpp")],
  [cpp("c10_radec.cpp")],
  "39 RA and 33 dec formats: all values where there are fewer than 900000, an odd stride of about that many otherwise, plus every unit, minute and second carry; 12 decimal patterns x 361 units x 9 spacings of free text",
  "up to 90 million values per format", IMPL, "exhaustive enumeration of displayable values, read and written back", TRUST)

P("C11", "ADES and 80-column data translate to the same records in any layout",
  "An ADES observation, whether given as a PSV table with its columns in any order or as XML in any white-space layout, becomes the same 80-column record and comment lines, which carry every one of its values: designation, time, position, uncertainties, magnitude, band, catalogue, reference, satellite or roving observer's position and velocity. What comes out for an observation doesn't depend on what was read before it, on line endings or on which of the three entry points is used. Other lines pass through unchanged, and headers become COD/OBS/MEA/CON/COM lines.",
  ["inputs", "histories", "configurations"], "every combination of fields and values, column order, layout, and sequence of tables, XML blocks and plain lines in one file",
  "There is no test of the translator; its context carries some forty state fields from line to line.",
  ["ades2mpc.cpp", "mpc_func.h"], [dict(name="xlate_ades2mpc, fgets_with_ades_xlation", where="ades2mpc.cpp")],
  [cpp("c11_ades.cpp")],
  "all single and paired values and all triples of 18 field groups, all small and nearly full subsets; every rotation, reversal and swap of columns; four XML layouts, three line endings, three entry points; all ordered pairs of observations in one table; all sequences of up to 3 pieces from 18",
  "all subsets of the groups; sequences of up to 4 pieces; every MPC/MPS number", IMPL,
  "exhaustive exploration of documents and translator histories against a functional model of one observation",
  "Fields that set the same column (mode/sys/deprecated, prog/notes, artSat/trkSub) keep the order of the ADES schema. " + TRUST)

P("C12", "Bounded text operations never overrun and report truncation",
  "Copying, appending and formatting text into a buffer of given size never writes outside that buffer or reads past the source's terminator, always leaves a terminated string (unless the size is zero) holding the longest prefix that fits, and returns the length the result would have had. The variants meant for text that must fit do the same but end the program when it doesn't.",
  ["inputs", "histories"], "every buffer size, length of the text already there and of the text added, and every sequence of such operations",
  "Off-by-one errors here show only when a string exactly fills its buffer, which ordinary output almost never does.",
  ["snprintf.cpp", "stringex.h"], [dict(name="strlcpy, strlcat, strlcpy_err, strlcat_err, snprintf_err, snprintf_append", where="snprintf.cpp")],
  [cpp("c12_text.cpp")],
  "every sequence of four operations of six kinds with texts of 0..8 bytes on buffers of 0..12 bytes ending at an inaccessible page; sizes up to 1024 with lengths around the size",
  "sequences of five operations", IMPL,
  "explicit-state exploration of operation sequences on a guarded buffer against a std::string model; overflow endings observed in a child process", TRUST)

P("C13", "Precession, nutation and obliquity follow the IAU theories",
  "Precession matrices between any two epochs are rotations that follow the IAU 1976 theory, compose (a to b, then b to c, is a to c) and invert exactly, and applying them to vectors or RA/dec, in place or not, and undoing it gives back the same point. Nutation follows the IAU 1980 series, obliquity Laskar's formula, and the true equator and equinox combine them. No result depends on which epochs were asked for earlier.",
  ["inputs", "histories"], "every epoch within 10000 years, every point, and every order of earlier calls (results are cached)",
  "Tests use a handful of epochs in one order; a stale cache or a wrong term shows only for another epoch or another order.",
  ["precess.cpp", "nutation.cpp", "obliquit.cpp", "miscell.cpp"], [dict(name="setup_ecliptic_precession, setup_precession, setup_precession_with_nutation_delta, precess_ra_dec", where="precess.cpp"), dict(name="nutation", where="nutation.cpp"), dict(name="mean_obliquity", where="obliquit.cpp"), dict(name="spin_matrix, invert_orthonormal_matrix", where="miscell.cpp")],
  [cpp("c13_precess.cpp")],
  "epochs every 0.137 years over 20200 years (ten times as dense within 300 years of J2000), a third of the histories of three calls from 91 operations, all chains of three epochs from 8 at 338 points; every angle and axis of the rotation helpers",
  "ten times as many epochs, all histories", IMPL,
  "exhaustive exploration of call histories and an epoch grid against the published theories evaluated in extended precision",
  "The twelve obliquity terms of nutation below 0.3 mas that Meeus omits are taken as omitted. The published tables are typed into the harness. " + TRUST)

P("C14", "Sky coordinate systems agree with each other and convert back",
  "Converting a J2000 right ascension and declination to altitude, azimuth and hour angle, to galactic, supergalactic or ecliptic coordinates, or to another epoch gives the direction that spherical geometry and each system's definition require, everywhere including the poles, the zenith and the meridian. Converting back gives the original point (the altitude/azimuth pair differs by half a turn in the zero of azimuth). Optional arguments and working in place make no difference, and sidereal time follows the IAU formula.",
  ["inputs", "configurations"], "every direction, observer, instant and pair of epochs",
  "No test converts to alt/az, galactic or supergalactic coordinates; wrong branches at poles and quadrant boundaries stay hidden at ordinary points.",
  ["alt_az.cpp", "miscell.cpp", "precess.cpp"], [dict(name="full_ra_dec_to_alt_az, full_alt_az_to_ra_dec, ra_dec_to_galactic and the other systems, precess_pt", where="alt_az.cpp"), dict(name="green_sidereal_time, rotate_vector, products", where="miscell.cpp"), dict(name="equatorial_to_ecliptic, ecliptic_to_equatorial", where="precess.cpp")],
  [cpp("c14_coords.cpp")],
  "a 1-degree-class grid of the sphere and its near misses for the two galactic systems; 27 latitudes x 8 longitudes x 7 instants x 440 directions for alt/az in every optional-argument form and over the zenith; 64 epoch pairs x 1998 points; 600000 sidereal times",
  "grids 4 to 16 times as dense", IMPL, "exhaustive grid enumeration against vector geometry in extended precision, and round trips",
  "Directions are compared as angles on the sphere with 0.02 arcsecond tolerance (more within 1e-4 radian of the observer's pole, where the code's arccosine loses digits). Precession itself is C13's. " + TRUST)

P("C27", "Distances, position angles and refraction are exact and invertible",
  "The angle between two points on a sphere and the direction from one to the other are accurate to rounding at every separation from coincident to antipodal and anywhere on the sphere. Going that far in that direction arrives at the second point, and the distance is the same both ways. Refraction follows Bennett's and Saastamoinen's formulae and the Explanatory Supplement's integral, and each reverse function gives the same refraction starting from the true altitude.",
  ["inputs"], "every pair of points, and every altitude and state of the atmosphere",
  "Tests compute a few separations; formulae of this kind fail only for nearly coincident, antipodal or polar points.",
  ["dist_pa.cpp", "refract.cpp", "refract4.cpp"], [dict(name="calc_dist_and_posn_ang, reverse_dist_and_posn_ang", where="dist_pa.cpp"), dict(name="refraction functions and their inverses", where="refract.cpp, refract4.cpp")],
  [cpp("c27_dist.cpp", extra_src=["refract.cpp", "refract4.cpp"])],
  "8 longitudes x 45 latitudes x 102 longitude differences x up to 75 latitudes including offsets of 1e-15 to 1e-2 from coincident, antipodal and polar positions; 13 x 91 x 90 journeys; 9001 altitudes; 64 atmospheres x 9 x 31 altitudes of the integral",
  "37 longitudes, 16 times the journeys, ten times the altitudes", IMPL, "exhaustive grid enumeration against the same geometry in extended precision, and round trips",
  "Saastamoinen's inverse is only checked above 20 degrees, the integral's inverse above the horizon, where those formulae are meant to hold. " + TRUST)

P("C15", "Orbits give the right places, and places give the orbit back",
  "For an orbit of any eccentricity from circular to strongly hyperbolic, in any orientation, the position and velocity at any time before or after perihelion are those of two-body motion. Kepler's equation is solved to rounding for every eccentricity and mean anomaly. The elements computed from a position and velocity describe the same orbit, from which the same position and velocity follow, also when near-parabolic, circular, in the reference plane or perpendicular to it.",
  ["inputs"], "every eccentricity, perihelion distance, orientation and time",
  "Tests solve a few orbits; the trouble is at the seams between formulae (e near 0, .9, 1; inclination 0, 90, 180 degrees) and before rather than after perihelion.",
  ["astfuncs.cpp", "classel.cpp", "comets.h"], [dict(name="kepler, comet_posn_and_vel, derive_quantities, setup_elems_from_ast_file", where="astfuncs.cpp"), dict(name="calc_classical_elements", where="classel.cpp")],
  [cpp("c15_orbit.cpp", ldflags=["-lquadmath"])],
  "60 eccentricities (down to one unit of rounding from 0, .9 and 1) x 6 perihelion distances x 8 inclinations x 4 nodes x 7 perihelion arguments x 8 times, 23 times and 73 phases of each; Kepler's equation at 459 eccentricities x 2200 mean anomalies",
  "458 eccentricities, all 23 times, ten times the mean anomalies", IMPL, "exhaustive grid enumeration against universal variables in extended precision, and round trips through the elements",
  "Tolerances are a few tens of units of rounding of the position, plus rounding of the time. " + TRUST)

P("C16", "Earth orientation values are the loaded file's, or are reported missing",
  "After an IERS file is loaded, polar motion, Delta-T and nutation offsets at any time within it are the smooth interpolation of its daily values, leap seconds removed; outside it, or with no file, the value is reported as missing and the default is used. The file ends at its first damaged, incomplete or out-of-sequence line, so a partly written or damaged file never gives wrong values, and the load reports its last day. A load replaces the previous table, a failed one leaves none; the Earth's orientation matrix applies these values.",
  ["histories", "crash points", "inputs"], "every sequence of loads, every point at which a download may stop, every damaged column, and every instant",
  "No test loads such a file (none is in the repository).",
  ["eop_prec.cpp", "spline.cpp"], [dict(name="load_earth_orientation_params, get_earth_orientation_params, setup_precession_with_nutation_eops", where="eop_prec.cpp"), dict(name="cubic_spline_interpolate_within_table", where="spline.cpp")],
  [cpp("c16_eop.cpp")],
  "all 1728 sequences of three loads from nine synthetic files (two starts, either sign of leap seconds, damaged, short, gapped), a missing one, an empty one and a release; four instants of every day of each file, all 32 selections; 2000 torn versions byte by byte; damage in each of 188 columns of three lines",
  "sequences of four loads, 8000 torn versions, eight damaged lines", IMPL,
  "explicit-state exploration of load histories and exhaustive torn-write and corruption fault injection against a model table",
  "The range query's second and third dates are the day after the last, as the code has them. Gaps in the nutation columns alone aren't explored. " + TRUST)

P("C21", "Interpolation honours its table and minimization keeps its bracket",
  "Cubic interpolation in a table passes through its entries with a continuous slope and reports whether it had to extrapolate; Lagrange interpolation of n points reproduces any polynomial of lower degree, and its derivative, everywhere in and beyond the table. Minimization from three points that bracket a minimum always asks for a new point strictly inside the current bracket, keeps the least point seen between the two nearest, and shrinks the bracket below the tolerance within a bounded number of steps, whatever the function answers.",
  ["inputs", "histories"], "every table, every point in or out of it, and every sequence of function values",
  "Tests minimize no function; a degenerate step (symmetric, collinear or equal values) needs a particular sequence of values.",
  ["spline.cpp", "brentmin.cpp"], [dict(name="cubic_spline_interpolate_within_table, lagrange_interpolate_within_table", where="spline.cpp"), dict(name="brent_min_init, brent_min_next, brent_min_add, fit_parabola", where="brentmin.cpp")],
  [cpp("c21_numeric.cpp")],
  "eight kinds of answer to each of the first five questions (six, from a fifth of the starts) after 640 starting brackets in three orders; 20 functions x 101 minima x 19 starts x 6 orders x 5 tolerances to convergence; all tables of 4..8 entries from 3 to 5 values; polynomials of every degree below 2..12 points at 17 offsets from each entry, down to 1e-15",
  "seven (eight) questions; 401 minima; tables of 9 entries", IMPL,
  "explicit-state exploration of the minimizer against an adversary giving every answer, and exhaustive grids of tables and functions",
  TRUST)

P("C17", "Latitude and height match the parallax constants, both ways",
  "The parallax constants of a point at a given geodetic latitude and height are exact for every planet's ellipsoid, and give back that latitude and height everywhere: at the poles, on the equator, far above and well below the surface. For any ellipse, from circular to very flat, and any point in its plane, the distance to it is the smallest there is, positive outside and negative inside, and the angle is that of the nearest point's normal.",
  ["inputs"], "every latitude, height and body, and every ellipse and point",
  "Tests convert ordinary observatories; a closed-form quartic has singular cases on its axes, for circles, at the centre and on the evolute.",
  ["mpc_code.cpp"], [dict(name="lat_alt_to_parallax, point_to_ellipse, planet_radius_in_meters, planet_axis_ratio", where="mpc_code.cpp")],
  [cpp("c17_geodesy.cpp")],
  "16000 latitudes over two turns x 14 heights for the Earth, 500 for 14 other bodies, nearer the poles and the equator down to 1e-9; 12 ellipse shapes x 14641 points x 3 sizes, on and about both axes, the ellipse and its evolute down to 1e-15",
  "80000 latitudes; 160801 points for each ellipse", IMPL, "exhaustive grid enumeration against bisection in extended precision, and round trips", TRUST)

P("C18", "Observatory records give the place they state, or are rejected whole",
  "A line of the observatory list, a rover line (decimal or base 60, on any body), an XXX comment or a place typed in any of the documented forms gives exactly the stated longitude, latitude, height, code, name and precision, with the parallax constants of that place on that body. A record that is cut short, damaged or out of range is rejected with the documented defaults, and no text is read past its end. A place's region is the first rectangle in the file that contains it, across the date line too.",
  ["inputs"], "every record, place, body, form of writing and point of damage",
  "Tests read a few lines of one format; signs, precisions, hemispheres, bodies and cut lines combine freely.",
  ["mpc_code.cpp"], [dict(name="get_mpc_code_info, get_lat_lon_info, get_xxx_location_info, extract_region_data_for_lat_lon", where="mpc_code.cpp")],
  [cpp("c18_obs.cpp", flavor="asan")],
  "29 longitudes x 49 pairs of parallax constants x 42 precisions; every byte in every column of a record; 8 latitudes x 10 longitudes in both hemispheres x 6 heights x 15 bodies x 4 forms of rover lines; 38 x 54 angles x 4 quadrants x 48 styles x heights of typed places; all sequences of 5 of 14 tokens; all files of 3 of 13 lines x 20 latitudes x 1600 longitudes",
  "72 longitudes, every height with every pair of angles, sequences of 6 tokens, nine times the places for regions", IMPL,
  "exhaustive enumeration of generated records, damage and token sequences against a reference reader, under the address sanitizer",
  "Text in which one angle runs into the next without a comma is ambiguous and isn't generated. A rover at exactly 0, 0 and height 0 counts as the body's centre, as the code has it. " + TRUST)

P("C19", "Orbit catalogue lines give exactly the orbit they state, or are rejected",
  "An SOF line is read by its header: whatever the order and choice of columns, each stated value arrives in its element, absent optional columns leave the documented defaults, and a line without every needed column is rejected. MPCORB and astorb lines give the stated elements, epoch and nearest perihelion, and damaged or short lines are rejected. Converting catalogues of any length to SOF and reading that back gives the same orbits to the digits printed, and no line is read past its end.",
  ["inputs", "crash points"], "every choice and order of columns, every orbit, epoch, catalogue length and point where a line is cut",
  "No test reads an SOF, MPCORB or astorb line.",
  ["sof.cpp", "mpcorb.cpp", "mpc2sof.cpp"], [dict(name="extract_sof_data_ex, extract_yyyymmdd_to_jd", where="sof.cpp"), dict(name="extract_mpcorb_dat, extract_astorb_dat", where="mpcorb.cpp"), dict(name="main, output_sof, extract_name, parse_elements_dot_comet", where="mpc2sof.cpp")],
  [cpp("c19_elems.cpp", flavor="asan", extra_src=["mpcorb.cpp"])],
  "all orders of 1 to 6 of ten columns and of 8 columns; all subsets of 16 columns both ways round; four layouts cut at every byte; every day of 1100 years; 4320 orbits in both catalogues; every day of 300 years of epochs; every length and damaged fixed column; 96 pairs of catalogue sizes x 12",
  "all orders of 9 columns; every day of 9000 years; 60 catalogues of each size", IMPL,
  "exhaustive enumeration of headers, lines and cuts against a reference reader under the address sanitizer, and round trips through the converter",
  "A column cut in the middle of its number may give any value. The converter stops on orbits SOF has no room for (q of 100 AU, years of five digits), which aren't generated. Columns whose names merely begin like one of SOF's aren't generated. " + TRUST)

P("C24", "Web form data are decoded exactly, and never overrun the caller's buffers",
  "Every field of a web request, whether in the URL, url-encoded on standard input or multipart, arrives in order with exactly the name, value and file name sent. A malformed escape, a name or value too long for its buffer, or a request cut short is reported or ends the list; whatever the bytes received, no buffer is overrun and results are terminated. One process can read any sequence of requests.",
  ["inputs", "histories", "crash points"], "every request, buffer size, point where a request is cut, and sequence of requests",
  "No test reads form data; these bytes come from strangers.",
  ["cgi_func.cpp"], [dict(name="get_urlencoded_form_data, get_multipart_form_data, initialize_cgi_reading, get_cgi_data, free_cgi_data", where="cgi_func.cpp")],
  [cpp("c24_cgi.cpp", flavor="asan", extra_src=["cgi_func.cpp"])],
  "all sequences of up to 5 of 15 tokens of url-encoded text, several buffer sizes; every pair of bytes encoded; all sequences of up to 3 of 8 parts x 2 line ends x 3 boundaries, 2 of them cut at every byte; every buffer size to 300; all 27000 histories of three requests of 10 kinds with 0, 1 or 2 releases after each",
  "6 tokens; 3 parts cut at every byte; four requests", IMPL,
  "exhaustive token sequences, cut points and request histories against a reference decoder under the address sanitizer",
  "Names longer than 29 characters count as too long, since callers have no way to give the size. A file's trailing line ends are dropped, as the code has it. A multipart request that ends early may give what was received of its last value. " + TRUST)

P("C22", "Every place in the sky is in its one IAU constellation",
  "The constellation given for any right ascension and declination of 1875, by any number of turns, is the one whose IAU boundaries contain it. Over the whole sky the 88 constellations have exactly their published areas, each is one connected region (Serpens two), and the well-known stars lie in their own.",
  ["inputs"], "every second of right ascension and minute of declination",
  "No test looks up a constellation; a wrong entry among 324 boundaries misplaces only one strip of sky.",
  ["conbound.c"], [dict(name="constell_from_ra_dec", where="conbound.c")],
  [cpp("c22_constell.cpp")],
  "every row of one arcminute at 5760 right ascensions, and every second of every row that differs from the one before; 66 stars x 19 turns; 1351 x 257 places by turns both ways; both sides of 0h in each row",
  "every second of right ascension in every arcminute (933 million cells)", IMPL,
  "exhaustive enumeration of the sky in cells finer than any boundary, against published areas, connectedness and stars",
  "Which side owns the boundary line itself isn't checked. " + TRUST)

P("C20", "Variable-star designations and numbers correspond one to one",
  "The n-th variable of a constellation gets the designation the naming scheme gives it (R to Z, RR to ZZ, AA to QZ without J, then V335 and on), and deciphering that designation, in either case and with or without the constellation after it, gives n back. Anything else is reported as not being one, without reading past the text.",
  ["inputs"], "every number to 9999, and every text of up to three bytes",
  "No test names a variable star; the skipped J and the triangular counts go wrong only at particular letters.",
  ["miscell.cpp"], [dict(name="make_var_desig, decipher_var_desig", where="miscell.cpp")],
  [cpp("c20_var.cpp", flavor="asan")],
  "all 9999 designations with five endings in both cases; every text of 0, 1 or 2 bytes and every printable text of 3", "the same (complete)", IMPL,
  "exhaustive enumeration against the list written out", "The letters a to q, u and A to Q have the code's own ranges from 9101 and 9201. " + TRUST)

P("C23", "Every planet and moon points as its published rotation model says",
  "For any planet, moon or asteroid in the coefficient file, any longitude system and any date, the orientation, rotation rate and radii are those of the file's formulae: orthonormal axes, with longitude increasing against the spin. An object not in the file is reported as such, and no answer depends on what was loaded, unloaded or asked before.",
  ["inputs", "histories"], "objects x systems x dates; load/unload/ask histories",
  "No test reads the coefficient file; stale caches and half-read lines show only for some objects or some orders of calls.",
  ["cospar.cpp", "cospar.txt"], [dict(name="get_cospar_data_from_text_file", where="cospar.cpp"), dict(name="calc_planet_orientation", where="cospar.cpp"), dict(name="load_cospar_file", where="cospar.cpp")],
  [cpp("c23_cospar.cpp")],
  "all objects, aliases and 1000+ unlisted numbers x 5 systems x 28 dates against an independent reader of the file; ten bodies against published models; each question after each other about the same object or system; all 83521 histories of four operations out of 17, with and without a default file; each operation as the first of a process",
  "270 more dates for each object, histories of five operations (1.4 million)", IMPL,
  "exhaustive enumeration of objects and dates against an independent evaluator, and of all operation histories to a depth against a model of what is loaded",
  "The file's numbers themselves are checked only for the Sun, the planets, Pluto and Charon. " + TRUST)

P("C26", "The least distance between two orbits is the least, either way round",
  "For any ellipse and any second orbit, in whatever relative position, the MOID found is the smallest distance between the two curves; it doesn't depend on which is named first, and the reported place, date and encounter speed belong to that point. Mean elements of the planets give the planets' positions.",
  ["inputs"], "pairs of orbits: shapes, sizes, inclinations, nodes and perihelia",
  "Missing one of up to four minima happens only for some relative positions.",
  ["moid.cpp", "mpc_code.cpp"], [dict(name="find_moid_full", where="moid.cpp"), dict(name="setup_planet_elem", where="moid.cpp"), dict(name="point_to_ellipse", where="mpc_code.cpp")],
  [cpp("c26_moid.cpp")],
  "103680 pairs: six shapes of ellipse with nine sizes and ten shapes of the second orbit (to hyperbolas), nine inclinations, eight nodes and perihelia, five frames, both ways round, against a dense search; 100000 pairs built to cross; every pair of 15 planets and asteroids at three dates; planets at 51 dates",
  "all 1.1 million pairs of fifteen nodes and perihelia; three million crossing pairs", IMPL,
  "exhaustive enumeration of a grid of orbit pairs against a dense search with an independent closest-point method",
  "Distances are held to 2e-6 AU; a minimum narrower than ten degrees of true anomaly on a side may be stepped over, as the source says. " + TRUST)

P("C25", "No text makes a reader crash, hang, overrun or answer differently again",
  "Every function and stream reader which takes text a user, web page or data file supplies returns for any such text: it doesn't crash, stop the program (but an ADES field no schema allows may be refused by an assertion), loop, or read or write outside its buffers. The same text gives the same answer again, whatever was read in between.",
  ["inputs", "histories"], "all short texts; all single and many double changes to valid ones",
  "Tests give readers a few well-formed texts; overruns come from the one odd length or character nobody tried.",
  ["mpc_fmt.cpp", "mpc_code.cpp", "ades2mpc.cpp", "get_time.cpp", "unpack.cpp", "sof.cpp", "mpcorb.cpp", "delta_t.cpp", "eop_prec.cpp"], [dict(name="fgets_with_ades_xlation", where="ades2mpc.cpp"), dict(name="net_name_to_byte_code", where="mpc_fmt.cpp"), dict(name="get_time_from_string", where="get_time.cpp")],
  [cpp("c25_text.cpp", flavor="asan", extra_src=["mpcorb.cpp"], ldflags=["-Wl,--wrap=exit"])],
  "2.2 million texts for 25 readers: all strings of 3 to 7 characters of each one's own alphabet, every cut, deletion, replacement and insertion at each place of valid texts, two-place changes, splices of two texts, long runs up to 5000; 46 ADES fields with up to 37 lengths of 120 values in three forms; each seventh text asked again after others",
  "17 million texts: strings one or two characters longer, all bytes at each place, all lengths and observation kinds of the ADES fields", IMPL,
  "exhaustive enumeration of short texts and of all one-place changes to valid texts, run on the real code under address checking",
  "Records of a fixed length are changed in place only; writing past one member of a structure into the next is not seen by the address checker. " + TRUST)

P("C28", "The planets' moons move as gravity and their published theories say",
  "The place given for any moon of Mars, Jupiter, Saturn, Uranus and Neptune at any date is that of its published theory, and moves as the pull of the flattened planet, the Sun and the other moons makes it: in acceleration, period and distance, and in the slow turning of its ellipse and plane, to the theory's precision. Moons with a rotation model keep the middle of their face to the planet; velocities, where given, are the rate of change of the place. Only the moons asked for are given, unknown ones are refused, and a place does not depend on what was asked before.",
  ["inputs", "histories"], "every moon, date, choice of moons and order of asking",
  "No test computes a moon's place; a wrong coefficient, angle or index in series of hundreds of terms still gives plausible places.",
  ["jsats.cpp", "ssats.cpp", "triton.cpp", "rocks.cpp", "gust86.cpp"],
  [dict(name="calc_jsat_loc", where="jsats.cpp"), dict(name="calc_ssat_loc", where="ssats.cpp"), dict(name="calc_triton_loc", where="triton.cpp"), dict(name="evaluate_rock", where="rocks.cpp"), dict(name="gust86_posn", where="gust86.cpp")],
  [cpp("c28_sats.cpp", extra_src=["rocks.cpp", "harness/c28_gust.cpp"])],
  "55 moons: acceleration every 6 days (31 for small and Uranian moons) of 1900-2100; 30 years of turning, 24 steps an orbit; period and distance over 400 orbits; facing every 73 days; all 32 choices of Jupiter's moons, all numbers below 1000, all ordered pairs of moons; 32 dates of each against recorded places",
  "ten times the dates; six 30-year stretches of turning", IMPL, "exhaustive grid enumeration against Newton's law of gravitation with published masses, and exhaustive call histories",
  "The limits are those of the theories (1e-6 to 1e-2 of the planet's pull, listed in harness/c28_sats.cpp); the published sets for Perdita and Phoebe are the worst. The recorded places were taken once the physical checks held, and bind every smaller coefficient. " + TRUST)

P("C29", "A planet's or the Moon's place is the sum of all the terms in its data file",
  "The places given for the planets, Pluto, the Earth and the Moon by the VSOP87, ELP-82, PS-1996 and Meeus series are the sums of the terms in the data file, for any data in the right form: every term counts, those left out at a stated precision come to no more than that precision allows, and velocities are the rate of change of the place. All coordinate systems given for one object at one time describe one place. A file missing or cut short anywhere is reported and leaves nothing open, leaked or remembered.",
  ["inputs", "histories", "faults"], "every data file, object, date, precision, order of asking and length a file is cut to",
  "The data files are not in the repository, so no test runs these functions; a skipped term or stale table shifts a place slightly.",
  ["vsopson.cpp", "big_vsop.cpp", "elp82dat.cpp", "de_plan.cpp", "lunar2.cpp", "pluto.cpp", "getplane.cpp", "eart2000.cpp"],
  [dict(name="calc_vsop_loc", where="vsopson.cpp"), dict(name="calc_big_vsop_loc", where="big_vsop.cpp"), dict(name="compute_elp_xyz", where="elp82dat.cpp"), dict(name="load_ps1996_series, get_ps1996_position", where="de_plan.cpp"), dict(name="lunar_lon_and_dist, lunar_lat", where="lunar2.cpp"), dict(name="calc_pluto_loc", where="pluto.cpp"), dict(name="compute_planet", where="getplane.cpp"), dict(name="get_earth_loc", where="eart2000.cpp")],
  [cpp("c29_series.cpp")],
  "synthetic data files of every form; all objects x dates x precisions; all orders of asking over two files and a missing one; each file cut at every byte",
  "more files, dates and longer histories", IMPL, "exhaustive enumeration of call histories and of every cut of each data file, against long-double sums of the terms",
  "Data files are synthetic, as the real ones are not in the repository; the Earth series, compiled in, is checked by Newton's law for the motion and against places recorded once it passed. " + TRUST)

P("C32", "Calendars, Easter tables and date listings show the right days",
  "The date of Easter, Gregorian or Julian, is that of the Church's rules in every year of their cycles, and the tables, lists and frequencies printed by the Easter program agree. Every page of the calendar program, in each of its styles, shows every day of the month once, in its weekday's column and week's row, with the lunar phases and feasts on their days, the neighbouring months and Julian Days right; a year alone gives all twelve months. The date program gives one day in every calendar, with the day of the week, day of the year and time differences, and refuses text that's too long.",
  ["inputs", "configurations"], "every year and month, style and way to give them; every day in a wide range",
  "No test runs these programs; the layout differs with weekday and month length, and Easter with a 5.7 million year cycle.",
  ["easter.cpp", "calendar.cpp", "jd.cpp"],
  [dict(name="easter_date, easter_date_julian", where="easter.cpp"), dict(name="calendar, show_small_month, grab_dates, get_phase_data", where="calendar.cpp"), dict(name="greg_day_to_dmy, main", where="jd.cpp")],
  [cpp("c32_cal.cpp", extra_src=["easter.cpp"])],
  "all 5.7 million years; every month of 1500..2159 in two to five styles; every 173rd day for the date program",
  "months of the years 14..3999, every 13th day", IMPL, "exhaustive enumeration of years, months, styles and days, programs run as black boxes against independent rules",
  "The lunar phases come from a table the check writes, as the real one is not in the repository. Feasts are placed by the library's Hebrew calendar, which C01 and C02 decide. " + TRUST,
  programs=[dict(name="easter", sources=["easter"], cflags=["-DTEST_CODE"]), dict(name="calendar", sources=["calendar"]), dict(name="jd", sources=["jd"]), dict(name="jdasan", sources=["jd"], flavor="asan")])

P("C31", "Sky brightness and the faintest star visible follow the published model",
  "For any site, season, weather, place of the Sun and Moon and point in the sky, the extinction and the sky's brightness in each of five bands, and the faintest magnitude visible, are those of Schaefer's published model (with the documented changes), by day, in twilight, with the Moon up or down, at any phase. Only the bands asked for are changed. What a point's answer is does not depend on which points, bands or sites were computed before it.",
  ["inputs", "histories"], "every combination of site, season, weather, Sun, Moon, direction and band, and every sequence of calls",
  "No test calls these functions.",
  ["vislimit.cpp", "vislimit.h"],
  [dict(name="set_brightness_params, compute_sky_brightness, compute_extinction, compute_limiting_mag", where="vislimit.cpp")],
  [cpp("c31_sky.cpp")],
  "a twelve-dimensional grid of 1.6 million cases with all masks; all sequences of six calls",
  "a grid three to four times as fine; all sequences of eight calls", IMPL, "exhaustive enumeration of a grid of circumstances and of every sequence of calls on one structure",
  "The model is written from the article's quantities; the two changes the source documents (aerosol season term, Moon fading below the horizon) are taken over. " + TRUST)

P("C30", "Displayed orbital elements are the orbit's, to every digit shown",
  "Whatever the orbit (elliptic, parabolic or hyperbolic, about the Sun or a planet, any size or orientation), each number in its displayed elements is the orbit's value to the digits shown, in the unit and under the name shown, with as many digits as the precision asked for calls for: perihelion and epoch dates, mean anomaly and motion, distances, eccentricity, angles, P and Q vectors, period and magnitudes. The number of lines returned is the number present. Nothing is written outside the buffer given, whatever its size.",
  ["inputs", "configurations"], "every kind of orbit x precision x style x date, and every buffer size",
  "No test shows an orbit; layout and digits change with size, precision and kind of orbit.",
  ["showelem.cpp", "showelem.h"],
  [dict(name="elements_in_mpc_format, show_formatted_dist, add_pq_data", where="showelem.cpp")],
  [cpp("c30_show.cpp")],
  "14 distances x 11 eccentricities x 3 centres x 128 formats; all pairs of 14 angles x 8 inclinations x 16 precisions; all pairs of 15 dates; every 101st day; periods in steps of 0.3%; every buffer size to 700 in 12 configurations",
  "every third day over -300000..3000000, periods in steps of 0.03%, 48 buffer configurations", IMPL,
  "exhaustive enumeration of orbits and formats, each displayed number read back; every buffer size ending at an unmapped page",
  "Digits beyond double precision may be anything; numbers may be cut or rounded. " + TRUST)

P("C33", "Integrated orbits are right for any number of processes and failures",
  "The orbit integrator carries every object's elements to the epoch asked for, forward or back, under the Sun, planets, Moon, relativity and the large asteroids as an accurate integration would, to the precision printed, whatever the step; integrating in several legs or there and back agrees. All other columns, the header and the order of the lines stay, objects without perturbers are copied unless asked for, and at most the number of objects asked for is integrated. How many processes share the work, the order in which they run and what an earlier run left behind never show in the output; if a process dies or cannot be started, the output is complete or the failure is reported.",
  ["inputs", "schedules", "faults"], "every orbit and span, number of processes, order in which they take their steps, and point at which one of them dies",
  "No test runs the integrator at all, and its processes divide lines among themselves and merge files in ways only an unlucky order or failure would upset.",
  ["integrat.cpp", "getplane.cpp", "sof.cpp", "classel.cpp", "astfuncs.cpp"], [dict(name="integrate_orbit, full_rk_step, main", where="integrat.cpp")],
  [cpp("c33_integ.cpp")],
  "23 kinds of orbit (planet encounters included) x 12 spans x up to 4 step sizes x two kinds of ephemeris; every order of the steps of 1, 2 and 3 processes (files opened, lines written, waiting, ending) for up to 3 lines; each of up to 5 processes killed at each of its steps, each fork failing; 1..8 processes for 0..9 lines",
  "all spans and steps; three processes with up to 3 lines and two with up to 6; faults for all of 0..6 lines", IMPL,
  "stateless exploration of every schedule of the real program under a controlled scheduler, exhaustive fault injection, and enumeration of orbits against an independent integrator", "The jpl_eph library and its data are not available here: planets come from a made-up ephemeris linked in, or written as vsop.bin. " + TRUST,
  programs=[dict(name="integrat", sources=["integrat", "harness/jplstub/stub.cpp"], jpl=True), dict(name="integratasan", sources=["integrat", "harness/jplstub/stub.cpp"], flavor="asan", jpl=True)])

P("C34", "A field check lists every known object there, whatever else runs or ran",
  "For any place in the sky, date, observatory and radius, astcheck lists exactly the catalogued objects within the radius, brighter than the limit and moving as observed, nearest first, with their true offsets, magnitudes and motions. The answer is the same whatever cached day files earlier runs left (for another orbit file, cut short anywhere, empty), and with other instances running at the same time in any order, even if one of them is killed.",
  ["inputs", "schedules", "faults", "histories"], "every field, every state of the cached files, every order of several instances' file operations, and every point at which one dies",
  "No test runs the program; instances share cached files, and a miss is silent.",
  ["astcheck.cpp", "eart2000.cpp", "sof.cpp", "astfuncs.cpp", "mpc_fmt.cpp"], [dict(name="get_cached_day_data, is_between, compute_motion, main", where="astcheck.cpp")],
  [cpp("c34_field.cpp")],
  "four fields around each of 200 orbits (poles included) x 12 dates x 4 radii, and 576 listings of a place; every crossing of 0h and 12h and every turn within 300 days; all histories of 4 of 13 operations; cached files cut at every byte; every order of two instances' file operations with up to 3 preemptions and three with 1, from 9 states of the cached files; each killed at each step",
  "300 orbits x 30 dates; 2304 listings; 900 days; histories of 5; two instances with 4 preemptions, three with 2", IMPL,
  "stateless exploration of schedules and crash points of the real program under a controlled scheduler, with enumeration of fields and of histories, against an independent computation of places", "Objects within 0.2 AU of the Earth may be missed (the program's first pass is geocentric and daily). " + TRUST,
  programs=[dict(name="astcheck", sources=["astcheck", "harness/chkstub/stub.cpp"]), dict(name="astcheckasan", sources=["astcheck", "harness/chkstub/stub.cpp"], flavor="asan")])

P("C35", "Spacecraft observations get the spacecraft's own position, and keep the rest",
  "For any file of astrometry (80-column or ADES, many spacecraft, some unknown or without ephemerides, old positions present or not), add_off gives each spacecraft observation the position and velocity the ephemeris server states for that craft and instant, in the documented units and columns, and reports how many it set and could not. Every other line, and the old positions of observations it has nothing better for, come through unchanged; simultaneous runs do not disturb each other.",
  ["inputs", "faults", "schedules"], "every sequence of records, every server failure, any number of observations, and every order of simultaneous runs' steps",
  "No test runs it, and it cannot be tried without the server; a wrong position is silent and spoils every orbit computed from it.",
  ["add_off.c", "jpl_xref.h"], [dict(name="process_file, set_offsets, set_mpc_style_offsets", where="add_off.c")],
  [cpp("c35_addoff.cpp")],
  "all sequences of up to 4 of 10 kinds of 80-column and 7 of ADES records; 16 spacecraft with offsets from 400 m to 65 AU; 500..1100 observations; every order of the queries of two and three simultaneous runs",
  "sequences of up to 5; five times the dates; every 7th number of observations", IMPL,
  "exhaustive enumeration of record sequences and server failures, and of every schedule of simultaneous runs of the real program under a controlled scheduler, against a made-up ephemeris server", "The server is simulated from its documented output; observations of one craft within 0.9 s of each other are outside the bounds. " + TRUST,
  programs=[dict(name="addoff", sources=["add_off", "harness/hzstub/stub.cpp"], cflags=["-ftrivial-auto-var-init=pattern"]), dict(name="addoffasan", sources=["add_off", "harness/hzstub/stub.cpp"], flavor="asan")])

P("C36", "An asteroid's ephemeris is for the object asked for, and right",
  "For any astorb.dat, astephem finds exactly the object whose number or provisional designation it is given, and says so and fails when there is none, however the catalogue's records fall. Each line it then prints is for the date due from the start, step and number asked for, and its right ascension, declination (sign included), distances, magnitude and elongation are those of that orbit, seen from the Earth with light-time allowed for, to the printed digits.",
  ["inputs"], "every catalogue, object, date, step and number of lines",
  "No test runs the program; a neighbouring record, a lost sign or a wrong phase law gives a plausible ephemeris.",
  ["astephem.cpp", "mpcorb.cpp", "astfuncs.cpp"], [dict(name="find_astorb_rec, calc_obs_magnitude, extract_astorb_dat", where="astephem.cpp")],
  [cpp("c36_ephem.cpp")],
  "every object of every catalogue of up to 12 numbered and 24 unnumbered; 420 orbits x 7 sets of dates, steps and numbers; every crossing of a whole degree by 80 orbits in 2000 days; a record cut at every byte",
  "24 numbered objects, three arrangements; 2500 orbits; 400 orbits' crossings", IMPL,
  "exhaustive enumeration of catalogues and lookups, and of orbits, dates and steps within bounds, run through the real program and compared with an independent ephemeris", "The Earth's place comes from the library (C29 checks it); astephem's own names for numbered objects are not a lookup it offers. " + TRUST,
  programs=[dict(name="astephem", sources=["astephem", "mpcorb"]), dict(name="astephemasan", sources=["astephem", "mpcorb"], flavor="asan")])

P("C37", "Gaia's observations come out as ADES whole, unchanged and no others",
  "For any Gaia release files (DR3 or FPR columns) and any object or range of objects, csv2ades puts out, between the template's header and trailer, exactly one ADES record per observation of those objects, in the files' order, reading just the files that hold them. Each record's time, place, uncertainties and their correlation, Gaia's position and velocity, and magnitude where one is given, are the input's in ADES's units, to the digits written; and this library reads the result back as the same observations.",
  ["inputs"], "every file layout, range of objects, time and value",
  "No test runs it, and the real files are gigabytes; a wrong unit, time or sign would bias the best astrometry there is.",
  ["csv2ades.c", "ades2mpc.cpp"], [dict(name="get_csv, csv_to_ades, file_needed", where="csv2ades.c")],
  [cpp("c37_gaia.cpp")],
  "every range of 1..26 objects beginning at 1..45, in four layouts of twenty files; 300 days x 42 times around each day's and minute's end, values of every size; each file absent",
  "ranges beginning at 1..64; 3000 days", IMPL,
  "exhaustive enumeration of ranges, layouts and times within bounds, run through the real program, compared with the files, and read back by the library", "Lines over 799 characters, longer than either release's, are outside the bounds. " + TRUST,
  programs=[dict(name="csv2ades", sources=["csv2ades"]), dict(name="csv2adesasan", sources=["csv2ades"], flavor="asan")])

P("C38", "The place and identifier tools show the place and time that were given",
  "parallax and its web form, given longitude, latitude and height, x, y, z, parallax constants or a site's code (from rovers.txt or the MPC's list), show that same place in every one of those forms, and the distance and bearing between two sites; mpc_code lists every site in a file, once, so. xxx2rov gives each (XXX) observation the place last stated and leaves the rest of the file alone; mpc_time decodes an ADES identifier into its date and time, pointing out any that can't exist.",
  ["inputs"], "every place, record form and identifier",
  "The tests run only a few library calls beneath them; a lost sign or digit is a wrong place on Earth.",
  ["parallax.cpp", "mpc_code.cpp", "xxx2rov.c", "mpc_time.c"], [dict(name="show_location, main", where="parallax.cpp"), dict(name="main", where="xxx2rov.c, mpc_time.c, mpc_code.cpp")],
  [cpp("c38_places.cpp")],
  "15 longitudes x 12 latitudes x 7 heights, each in several notations; 360 sites alone, some 1,500 pairs, three listings; 81 pairs of places x four orders of observations; month ends of 90 years, every bad character",
  "all notations of each place, 5,000 pairs; every date from 1800 to 2440", IMPL,
  "exhaustive enumeration of places, records and identifiers within bounds, run through the real programs, compared with independently computed values", "Longitudes and latitudes both under 2 degrees, which parallax takes as x, y, z, are outside the bounds. " + TRUST,
  programs=[dict(name="parallax", sources=["parallax"], flavor="asan"), dict(name="cgi", sources=["parallax"], cflags=["-DCGI_VERSION"]), dict(name="mpccode", sources=["mpc_code"], cflags=["-DTEST_CODE"]), dict(name="xxx2rov", sources=["xxx2rov"], flavor="asan"), dict(name="mpctime", sources=["mpc_time"])])

P("C39", "Star colours and the time on Mars follow the published relations, both ways",
  "Each colour function gives the value of Caldwell's polynomial, of the Tycho catalogue's piecewise relation or of Bessell's table (through every entry, cubic between them) everywhere in its stated range, and says there is no answer (99, or -1) everywhere outside it; the inverse functions give back, to 2 millionths, the colour that was converted, for every colour in range. The mean and true solar times on Mars are those of the Mars24 algorithm, and turn back into the instant they came from; the programs print those values, with clock times that exist.",
  ["inputs"], "every colour in and around the range of every relation, and every instant over six centuries",
  "The tests do not touch these files; a wrong digit in one of a hundred constants, or a colour where the root search fails, shows only there.",
  ["colors.cpp", "colors2.cpp", "marstime.cpp"], [dict(name="compute_color_polynomial, compute_inverse_color_polynomial and callers", where="colors.cpp"), dict(name="tycho_to_johnson_colors", where="colors2.cpp"), dict(name="tt_to_mtc, mars_true_solar_minus_mean_solar_time, mtst_at_airy_to_tt", where="marstime.cpp")],
  [cpp("c39_colours.cpp", extra_src=["colors.cpp", "colors2.cpp", "marstime.cpp"])],
  "colours every 0.00001 mag over each range and one magnitude beyond; 1.27 million instants in 600 years; 4,400 runs of marstime (a third within milliseconds of a midnight), 1,200 of each colour program",
  "colours every 0.000001 mag; an instant every 20 minutes over 600 years", IMPL,
  "exhaustive enumeration of a fine grid of colours and instants, forward and back, compared with independently written relations", "The constants are those in the source, copied once; a constant mistyped before then would go unnoticed. " + TRUST,
  programs=[dict(name="marstime", sources=["marstime"], cflags=["-DTEST_PROGRAM"]), dict(name="colors", sources=["colors"], cflags=["-DSIMPLE_TEST_PROGRAM"]), dict(name="colors2", sources=["colors2"], cflags=["-DTEST_FUNC"])])

P("C40", "Rise, set and transit times are when the Sun or Moon is really there",
  "Given the series for the Sun and Moon, the place computed for any instant and observer is the one they give. Between any two instants the Sun or Moon is said to rise or set exactly if it stands on different sides of the horizon (lifted by refraction, semidiameter and, for the Moon, parallax) at the two, and then at a time when it is on it; the Moon's upper and lower transits, in local time with daylight time under the US rules, are when it crosses that half of the meridian, at any latitude. The printed tables show those times, phases and seasons on their days, or that there are none.",
  ["inputs"], "every hour of every day, observer's place, time zone and date",
  "No test runs any of it; wrong times near midnight, at high or low latitudes or on the days clocks change look plausible.",
  ["riseset3.cpp", "lun_tran.cpp", "tables.cpp", "lun_test.cpp"], [dict(name="fill_planet_data, look_for_rise_set", where="riseset3.cpp"), dict(name="get_lunar_transit_time, is_dst, format_hh_mm, get_zip_code_data", where="lun_tran.cpp"), dict(name="main, quadrant", where="tables.cpp")],
  [cpp("c40_rise.cpp", extra_src=["riseset3.cpp", "lun_tran.cpp"])],
  "every hour (and fifth of a day) of two years at 18 latitudes x 3 longitudes, both bodies; transits for every other day of 13 years at 7 latitudes x 4 zones; tables of six years, lun_test for 40 places x 6 months",
  "19 years at 63 latitudes; every day of 51 years at 24 latitudes; tables of a century, 48 months a place", IMPL,
  "exhaustive enumeration of hours, days and places within bounds, compared with altitudes and hour angles computed independently", "The positions come from leading terms of the published series, in a data file the harness makes (C29 checks their summation). Instants at which the body is within 0.2 arcsecond of the horizon at the end of an interval are not judged. " + TRUST,
  programs=[dict(name="tables", sources=["tables", "riseset3"]), dict(name="luntest", sources=["lun_test", "lun_tran", "riseset3"])])

P("C41", "Phase lists and calendar data follow from the Sun and the Moon",
  "Given the series for the Sun and Moon, each phase listed for any span of years is there once, in order, at the time when the Moon's elongation from the Sun is the phase's, and in the data file by the same offset from the mean phase; each principal term of the Chinese calendar is when the Sun reaches its longitude, on its day in Beijing, with its month and year. The calendar data made from such a list have every month's length, the new year and the one intercalary month as the rule of the Chinese calendar gives them. Solstices, equinoxes and Persian years are found from the Sun's apparent longitude, from any starting date near them.",
  ["inputs"], "every year, phase, and pattern of months",
  "No test runs any of it; wrong lengths in years with rare intercalary months look plausible.",
  ["phases.cpp", "chinese.cpp", "solseqn.cpp", "persian.cpp"], [dict(name="main", where="phases.cpp"), dict(name="main, dump_data", where="chinese.cpp"), dict(name="get_solstice_equinox_date, daily_variation", where="solseqn.cpp"), dict(name="main, jd_equinox", where="persian.cpp")],
  [cpp("c41_phases.cpp", extra_src=["solseqn.cpp"])],
  "two years of phases in every century from -1400 to 3500, calendars of 24 years in 44 epochs, 169 places of two intercalary months x 4 patterns of month lengths, seasons of 800 years from 5 starting dates, Persian years 1 to 2300",
  "all years from -1400 to 3500; calendars of every year from -2500 to 6000; 32 patterns; seasons of 5500 years", IMPL,
  "exhaustive enumeration of years, phases and month patterns within bounds, compared with roots found by bisection and the calendar's rule applied independently", "The positions come from leading terms of the published series, in data files the harness makes (C29 checks their summation). Phases are found by the program with one secant step: times within three seconds are accepted. " + TRUST,
  programs=[dict(name="phases", sources=["phases"]), dict(name="chinese", sources=["chinese"]), dict(name="persian", sources=["persian", "solseqn"])])

P("C42", "Distances and bearings on the Earth follow the shortest line between places",
  "Going a given distance from a place on a given bearing along the spheroid leads to the place computed, to a few millimetres. The distance and bearing computed between any two places, wherever they are (at the poles, on the equator, near or exactly opposite each other, or the same), lead from the one to the other, arriving on the bearing given, and are the shortest line there is, to a tenth of a millimetre, or some centimetres for places nearly opposite. The spherical distance is the angle between the places, and the approximate one agrees to the square of the flattening except near the antipodes.",
  ["inputs"], "every pair of places, and every bearing and distance",
  "No test runs any of it; wrong branches near the antipodes, the poles and the equator look plausible.",
  ["dist.cpp"], [dict(name="vincenty_earth_dist, vincenty_direct, spherical_earth_dist, earth_dist", where="dist.cpp")],
  [cpp("c42_dist.cpp")],
  "lines from 18 latitudes on 30 bearings over 43 arcs for four spheroids, both ways; 21 latitudes x 39 x 39 offsets from the antipode on both sides; nine pairs through the program",
  "42 latitudes x 78 bearings x 78 arcs; 63 latitudes x 77 x 77 offsets", IMPL,
  "exhaustive enumeration of places, bearings and distances within bounds, compared with geodesics integrated numerically", "Offsets within 1.9 mm of the line opposite a place are moved by the program by as much, as its comments say. " + TRUST,
  programs=[dict(name="dist", sources=["dist"])])

P("C43", "Converted ephemerides keep every state at its time, and joining loses nothing",
  "Converting a Magnetospheric Multiscale or THEMIS ephemeris gives, for the interval asked for, each state of the file unchanged, at its own time, with the satellite's own name, number and the span, and no other; the binary file made from a Horizons ephemeris has every position of it, in order, to one part in 1.5 billion of the largest, and the right date, interval, count and scale. Joining old and new element sets keeps each old set up to the first new one, and all of the new, once each and in order. If they do not adjoin, or there is no room on the disk, the old file stays as it was and the failure is reported; wherever the program is killed, the file is the old or the new, whole.",
  ["inputs", "crash_points", "fault_sequences"], "every number of states and interval, and every moment at which the disk is full or the program is killed",
  "No test runs any of it; a state off by one interval or a file lost in a rare failure is noticed too late.",
  ["mms.cpp", "themis.cpp", "jpl2b32.cpp", "them_cat.c"], [dict(name="main, mms_ephem_jd", where="mms.cpp"), dict(name="main", where="themis.cpp"), dict(name="main", where="jpl2b32.cpp"), dict(name="main", where="them_cat.c")],
  [cpp("c43_ephconv.cpp")],
  "every interval that the converters accept x numbers of states around its multiples x 8 forms of command and file at five dates; 6 identifiers x 4 steps x 6 counts x 4 shapes of orbit; pairs of 1-7 and 1-5 element sets with every offset, and a disk full after each 97 bytes; the program killed before each call that changes a file, with and without what is buffered",
  "24 more numbers of states per interval; pairs of 1-12 sets; a disk full after every byte", IMPL,
  "exhaustive enumeration of files, intervals and write failures within bounds, with every line and byte of the result compared with the file given", "The header of a converted ephemeris may announce one state (mms) or part of a day (themis) fewer than follow, as the programs do. " + TRUST,
  programs=[dict(name="mms", sources=["mms"]), dict(name="themis", sources=["themis"]), dict(name="jpl2b32", sources=["jpl2b32"]), dict(name="them_cat", sources=["them_cat"], cflags=["-include", os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness", "crashpt.h")])])

P("C44", "Events of Jupiter's moons are listed when they happen, and only if visible",
  "Given the series for the Earth and Jupiter, every entry into and exit from Jupiter's disc, as seen from the Earth and from the Sun, of each moon asked for, is listed once, in order of time, as the transit, occultation, eclipse or shadow it is, at its time as seen from the Earth to a few minutes. Events while the moon is behind the planet or in its shadow are not listed, and no others are left out. The data file has the same events as the list, after what it held.",
  ["inputs"], "every date and span, and choice of moons",
  "No test runs any of it; a rare event missed or misnamed in a list of hundreds looks plausible.",
  ["jevent.cpp"], [dict(name="find_events, _mark_hidden_events, _sort_events, show_event", where="jevent.cpp")],
  [cpp("c44_jevent.cpp")],
  "months in 20 years from 1600 to 2400, all 15 choices of moons over five spans in four years, and one of 800 days, in 8 forms of command",
  "each month of every sixth year from 1600 to 2400; a span of 3000 days", IMPL,
  "exhaustive enumeration of dates, spans and choices of moons within bounds, with every event found by bisection and compared with the list", "The program takes a moon's path across Jupiter for a straight line: times within 1.3 minutes for Io (longer for slower moons), and grazing passages, are accepted. The moons' places come from the library (C28). " + TRUST,
  programs=[dict(name="jevent", sources=["jevent"])])
