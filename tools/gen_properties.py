#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from one table, so the two stay in step."""
import json,os
ROOT=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C='crates/tofas/src/'
X='crates/tofas_extras/src/'
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None,note=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),
      why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],
                   observe_at=observe or [],hook_needed=None),note=note))

p('C01','A Gregorian date converts to its exact Julian day number',
 'Every valid Gregorian date from year -4799 onwards converts to the Julian date of its midnight, exactly: the two returned parts are the Modified Julian Date zero point 2400000.5 and a whole number of days, consecutive calendar days differ by exactly one, and century, leap-century and negative years count as the proleptic Gregorian calendar says. No accepted year, however far in the future, overflows or panics.',
 ['inputs'],'all valid (year, month, day) with year from -4799 to the largest accepted year',
 'The tests convert three fixed dates and random days between about 4800 BC and 1872 AD, comparing only the round trip to 1.5e-8 day; a bug outside that window, or one mirrored in both directions, passes.',
 [C+'calendar.rs'],[('day-count arithmetic',C+'calendar.rs GregorianDate::to_julian')],['returned pair of Julian date parts'])
p('C02','Date construction accepts exactly the real calendar dates',
 'Constructing a date succeeds if and only if the year is at least -4799, the month is 1 to 12 and the day exists in that month of that year under the proleptic Gregorian leap rule; the constructed date holds the given fields. Otherwise it fails, with an error that names a field (year, month or day) that is really wrong.',
 ['inputs'],'all triples of 32-bit integers',
 'The tests construct a handful of valid dates and never an invalid one; the accept/reject boundary is unchecked for every leap class and extreme integer.',
 [C+'calendar.rs'],[('validation',C+'calendar.rs GregorianDate::new'),('month length table',C+'calendar.rs MTAB')],['Ok/Err and its kind'])
p('C03','A two-part Julian date converts to the calendar date of the same instant',
 'For every Julian date from -32000 to 1e9 (both included), split in any way into two parts, the returned calendar day plus fraction of day denotes the same instant to within the resolution of the parts; month and day are real for that year and the fraction is at least 0 and less than 1. Sums outside the range, and NaN or infinite parts, are rejected with the bad-Julian-day error.',
 ['inputs'],'all pairs of doubles, including uneven, swapped and negative splits, instants within an ulp of midnight or noon, and far-future days',
 'The tests use one kind of split (half-integer plus positive fraction) in a window that ends in 1872 and compare to 1.5e-8 day (over 1 ms); other splits, midnight edges, rejection and later dates are never sampled.',
 [C+'calendar.rs'],[('day/fraction separation and inverse day count',C+'calendar.rs GregorianDate::from_julian')],['returned date, fraction, error'])
p('C04','Calendar and Julian date conversions are mutually inverse and keep order',
 'Converting any valid date to a Julian date and back, in any split of the same midnight, gives the same date with fraction zero. Along any increasing sequence of instants the returned (year, month, day, fraction) never goes backwards.',
 ['inputs','histories'],'all days in the supported range and all increasing sequences of instants, including steps of one ulp across midnights, month, year and century ends',
 'The tests check random isolated round trips up to 1872 with a 1.5e-8 day tolerance; they never check that dates come back identical for modern years nor ordering between neighbouring instants.',
 [C+'calendar.rs'],[('to and from Julian date',C+'calendar.rs GregorianDate::{to_julian,from_julian}')],['sequence of returned dates'])
p('C05','Time of day and fraction of day convert into each other faithfully',
 'Every fraction of day in [0,1) converts to an hour 0-23, minute 0-59 and seconds in [0,60) that denote the same time to within 0.1 ns, and 1 converts to a reading worth 86400 s; every hour, minute and seconds reading converts back to its fraction of day to within 1e-15. A fraction below 0, above 1 or NaN is rejected with the bad-fraction error.',
 ['inputs'],'all doubles as fraction of day; all hour 0-23, minute 0-59, seconds [0,61)',
 'The test samples 1000 uniform fractions; exact whole seconds, minutes and hours, their one-ulp neighbours, the ends of the range and rejected values are never hit.',
 [C+'calendar.rs'],[('decomposition',C+'calendar.rs HMS::from_fraction_of_day'),('recomposition',C+'calendar.rs HMS::to_fraction_of_day')],['fields, fraction, error'])
p('C06','Combined date-and-time values preserve the instant in both directions',
 'Converting a Julian date to a combined date and time and back, or a date and time to a Julian date and back, preserves the instant to within the resolution of the Julian date parts (better than 2 microseconds for dates within 100000 days of 1858). The date half and time half are the ones the separate conversions give for that instant, the time half is a valid clock reading, and out-of-range input is rejected.',
 ['inputs'],'all Julian dates in the supported range in any split, and all valid date and time readings',
 'No test uses the combined structure at all.',
 [C+'calendar.rs'],[('composition',C+'calendar.rs GregorianDateHMS::{from_julian,to_julian}')],['fields, Julian parts'])
p('C07','TAI minus UTC follows the published step history on every date',
 'For every date from 1960 on and any fraction of day in [0,1], TAI-UTC equals the IERS/SOFA history to within a nanosecond: the linear-drift formulas before 1972 evaluated at the date and fraction, whole leap seconds after, each value taking effect at 0h on the first day of its month and 37 s from 2017 on however far in the future. Dates before 1960 give no value, and a fraction outside [0,1] or NaN is rejected.',
 ['inputs'],'all valid dates in all years, all fractions of day',
 'The test checks a single date (2007-04-05); no step boundary, no drift era, no missing-value or error case is sampled.',
 [C+'delta_at.rs'],[('step table lookup',C+'delta_at.rs DeltaAt::delta_at'),('step table',C+'delta_at.rs DAT_DATA')],['value, absence, error'])
p('C08','Time-scale conversions shift the instant by exactly the stated offset',
 'UTC to TAI adds TAI-UTC, TAI to TT adds 32.184 s, TT to TDB adds TDB-TT, TT to UT1 subtracts Delta T and UT1 to TT adds it back, for offsets of either sign; the instant moves by exactly that offset to within the resolution of the smaller of the two date parts, whichever part comes first, so a precise split stays precise. TT to UT1 to TT with the same Delta T returns the same instant, and the total of a time value is the sum of its parts.',
 ['inputs'],'all two-part dates in either order and all finite offsets',
 'The tests call TT to TDB and TT to UT1 only with offset zero and one order of parts, and never UTC to TAI, TAI to TT or UT1 to TT; any sign, scale or part-selection error passes.',
 [C+'time.rs'],[('offset applied to the smaller part',C+'time.rs TT::from_ut1, TAI::from_utc_delta_at, From<TAI> for TT, TDB::from_tt, UT1::from_tt')],['returned parts and totals'])
p('C10','Only meaningful ellipsoids are accepted and they are kept unchanged',
 'A converter can be made for exactly the ellipsoids with positive equatorial radius and flattening at least 0 and below 1 (unless the flattening is so close to 1 that the polar radius vanishes), and it reports back the same ellipsoid. A non-positive or NaN radius or an out-of-range or NaN flattening is rejected with the error that names a wrong parameter. The predefined WGS84 ellipsoid has radius 6378137 m and inverse flattening 298.257223563.',
 ['inputs'],'all pairs of doubles (radius, flattening)',
 'The test only ever builds the WGS84 converter.',
 [C+'ellipsoid.rs'],[('parameter validation',C+'ellipsoid.rs EllipsoidConverter::new')],['Ok/Err and kind, reported ellipsoid'])
p('C11','Geodetic coordinates convert to the right point in space',
 'For any accepted ellipsoid, longitude, latitude and height, the geocentric point is the ellipsoid surface point of that latitude and longitude moved by the height along the outward surface normal, to within a few parts in 1e15 of the distance from the centre. The zenith direction of the coordinates is that unit normal.',
 ['inputs'],'all longitudes, latitudes in [-90,90] degrees, heights from deep below the surface to far space, WGS84 and other ellipsoids',
 'The test only checks the WGS84 round trip in the southern hemisphere below 10 km height; an error made in both directions, in the north, or for another ellipsoid passes, and the zenith is never tested.',
 [C+'ellipsoid.rs'],[('normal-plus-height formula',C+'ellipsoid.rs EllipsoidConverter::geodetic_to_geocentric'),('zenith',C+'ellipsoid.rs Geodetic::zenith')],['geocentric vector, zenith vector'])
p('C12','Geocentric points convert to geodetic coordinates that denote the same point',
 'For any point from 100 km below the surface of the Earth ellipsoid to far space, the returned longitude is in [-180,180] degrees and is the meridian of the point, the latitude is in [-90,90] degrees, and longitude, latitude and height denote the same point, including the poles, the rotation axis, the equator, both hemispheres and every quadrant: to within 0.1 micrometre up to heights of 100 km, and at greater heights to within 3 mm times (h/(h+a))^3, plus a few parts in 1e15 of the distance. The same holds for a body of any size flattened by f up to 0.1, to within 6 f^4 (h/(h+a))^3 plus a few parts in 1e14 of its radius, for points not deeper than a sixtieth of the radius. Converting geodetic coordinates to a point and back returns them to the same accuracy.',
 ['inputs'],'all geocentric points outside the deep interior; WGS84, the sphere, other Earth-like flattenings, and bodies of any size flattened up to 0.1',
 'The test samples 1000 points in the southern hemisphere below 10 km; the north, the poles, the axis, the equator, high altitude and other ellipsoids are not reached.',
 [C+'ellipsoid.rs'],[('non-iterative inverse',C+'ellipsoid.rs EllipsoidConverter::geocentric_to_geodetic')],['longitude, latitude, height'])
p('C13','Degree and radian geodetic coordinates denote the same place',
 'Converting coordinates in degrees to radians and back, or radians to degrees, keeps the place: height is unchanged, a valid latitude including both poles keeps its value, and longitude keeps its direction whatever number of turns it carries, to within rounding. The degree form always has longitude in [-180,180] and latitude in [-90,90].',
 ['inputs'],'all finite longitudes (any number of turns), latitudes in [-90,90] degrees and beyond for the range claim, all heights',
 'The only test formats one ordinary point; wrap-around, poles, the antimeridian and negative values are never converted.',
 [C+'ellipsoid.rs'],[('normalisation',C+'ellipsoid.rs From<Geodetic> for Geodetic360'),('scaling',C+'ellipsoid.rs From<Geodetic360> for Geodetic')],['converted fields'])
p('C14','Vector operations obey Euclidean geometry',
 'Sum, difference, negation, scaling, dot product, norm and normalisation of 3-vectors equal their mathematical definitions to within rounding, and normalising any non-zero vector whose squared length neither overflows nor underflows gives a unit vector of the same direction. The angle between two non-zero vectors is always a number in [0,pi], symmetric, unchanged by positive scaling, 0 for parallel and pi for opposite vectors, and equals the true angle to within 1e-7 rad (1e-12 rad away from 0 and pi).',
 ['inputs'],'all finite vectors whose squares neither overflow nor underflow, with parallel, opposite and orthogonal pairs',
 'No test calls the vector operations except negation.',
 [C+'common.rs'],[('vector operations',C+'common.rs trait Vector')],['returned vectors and numbers'])
p('C15','Matrix operations and elementary rotations obey rotation algebra',
 'Composition is the matrix product, transposition swaps indices, identity is neutral, and an elementary rotation about axis 0, 1 or 2 by an angle is the standard frame-rotation matrix of SOFA (Rx, Ry, Rz), orthonormal with determinant +1, additive in its angle and inverted by transposition. Applying a matrix to a vector uses the one fixed convention result[i] = sum over k of M[k][i]*v[k], so that applying a composition A*B equals applying A and then B, and rotations preserve length.',
 ['inputs'],'all finite 3x3 matrices and vectors, all axes and angles of either sign and any number of turns',
 'The tests check products of rotations about axis 0 only by their inverse (which any sign convention satisfies) and never apply a matrix to a vector with a checked result.',
 [C+'common.rs'],[('matrix operations',C+'common.rs trait Matrix')],['returned matrices and vectors'])
p('C16','Angle normalisation returns the same angle in [0, 2 pi)',
 'For every finite angle the normalised angle is at least 0 and strictly less than 2 pi and differs from the input by a whole number of turns to within rounding. Angles already in range are unchanged, and normalising twice changes nothing.',
 ['inputs'],'all finite doubles: negative, tiny negative, multiples of a turn and their neighbours, huge',
 'No test calls it directly; the rotation-angle test only reaches it with positive dates after 2000.',
 [C+'common.rs'],[('anp',C+'common.rs anp')],['returned angle'])
p('C17','Fundamental lunisolar and planetary arguments match IERS Conventions 2003',
 'For any time within 100 centuries of J2000, on either side, each of the eight fundamental arguments equals the IERS 2003 polynomial, reduced to within one turn of zero with the sign the remainder has in SOFA (general precession is not reduced), to within the rounding of the phase.',
 ['inputs'],'all times t in Julian centuries with |t| up to 100, both signs and zero',
 'They are only reached through the CIO locator for dates 2000-2100, where whole-turn errors and higher-order terms cancel or vanish; dates before 2000 are never evaluated.',
 [C+'fundargs.rs'],[('polynomials and reduction',C+'fundargs.rs l03..pa03')],['returned angles'])
p('C18','Nutation matches the IAU 2000B model at any date',
 'Nutation in longitude and obliquity equals the 77-term IAU 2000B lunisolar series plus the fixed planetary offsets, to within 1e-13 rad (plus what the split can resolve) for dates within 10 centuries of J2000 on either side, for any two-part split of the date. The values stay below 20 arcsec in longitude and 11 arcsec in obliquity in the years 1000 to 3000.',
 ['inputs'],'all two-part dates within 10 centuries of J2000, both sides',
 'Test vectors cover only 2000-2100 with the first part equal to J2000; dates before 2000 (negative arguments and remainders) and other splits are never evaluated.',
 [C+'frames.rs'],[('series summation',C+'frames.rs nutation'),('coefficient tables',C+'frames.rs NALS, CLS')],['dpsi, deps'])
p('C19','Precession, frame bias and obliquity match the IAU 1976/2000 models',
 'For dates within 10 centuries of J2000 on either side, in any split, the mean obliquity, the IAU 2000 precession-rate corrections, the frame-bias angles, and the bias, precession and bias-precession matrices equal the published models to within 1e-13; each matrix is orthonormal with determinant +1 and bias-precession is precession times bias.',
 ['inputs'],'all two-part dates within 10 centuries of J2000, both sides',
 'The bias-precession vectors only cover two days after J2000 where every polynomial term is invisible; obliquity has no test, and dates before 2000 are never evaluated.',
 [C+'frames.rs'],[('polynomials',C+'frames.rs mean_obliquity, precession_rate, frame_bias'),('rotation sequence',C+'frames.rs bias_and_precession')],['angles and matrices'])
p('C20','The precession-nutation matrix combines bias, precession and nutation correctly',
 'The nutation matrix for any obliquity and nutation angles is the standard sequence of three rotations, and the bias-precession-nutation matrix of a date is nutation (about the mean obliquity of date corrected for precession rate) times precession times bias, orthonormal with determinant +1, equal to the IAU 2000B reference to within 1e-12 within 10 centuries of J2000. Its third row is the celestial pole, returned unchanged by pole extraction, and the stated nutation in longitude is the one that was used.',
 ['inputs'],'all two-part dates within 10 centuries of J2000 on both sides; all angles for the nutation matrix; caller-supplied nutation angles',
 'Vectors cover 2000-2100 only and one split; caller-supplied nutation and dates before 2000 are not tested.',
 [C+'frames.rs'],[('matrix assembly',C+'frames.rs PrecessionNutation::from_tt_with_nutation, nutation_matrix, precession_nutation, xy_from_bpn')],['matrices, pole coordinates'])
p('C21','The CIO locator matches the IAU 2000 series',
 'For any pole coordinates and any date within 10 centuries of J2000 in any split, the locator s equals the IAU 2000 series for s+XY/2 minus half the product of the coordinates, to within rounding of the two terms plus what the split can resolve; it depends on the pole only through the product of the coordinates.',
 ['inputs'],'all two-part dates within 10 centuries of J2000, both sides; all pole coordinates in the unit disc of either sign',
 'Vectors cover 2000-2100 and positive pole coordinates; earlier dates, negative coordinates and the small t^3, t^4 terms (below the 2e-16 tolerance there) are not reached.',
 [C+'locator.rs'],[('series',C+'locator.rs cio')],['s'])
p('C22','The celestial-to-intermediate matrix carries the pole and locator it was given',
 'Built from pole coordinates (X,Y) and locator s, the matrix is orthonormal with determinant +1, its third row is (X, Y, sqrt(1-X^2-Y^2)), and its first two rows are turned about that pole by s as in SOFA, also for X=Y=0. Every way of obtaining it for a date (date alone, precession-nutation matrix, or X and Y) agrees, and for a date it equals the IAU 2000B reference to within 1e-12 within 10 centuries of J2000.',
 ['inputs'],'all pole coordinates with X^2+Y^2<1 in every quadrant and at the origin, all s, all dates in any split',
 'Vectors exist only for the date-alone entry point over 2000-2100; explicit X, Y, s, the zero pole, other quadrants and earlier dates are not tested.',
 [C+'frames.rs'],[('rotation by pole and locator',C+'frames.rs celestial_to_intermediate*')],['matrices'])
p('C23','Earth rotation angle follows UT1 linearly and stays in [0, 2 pi)',
 'For any UT1 within 100 centuries of J2000, the Earth rotation angle equals 2 pi (0.7790572732640 + 1.00273781191135448 (JD-2451545)) modulo a turn, to within 1e-11 rad within 10 centuries of J2000 and 1e-10 rad beyond (plus what the split can resolve), is at least 0 and strictly less than 2 pi, and does not depend on how the date is split into two parts or on their order.',
 ['inputs'],'all two-part UT1 dates within 100 centuries of J2000: before and after, any split, either order, negative parts',
 'Vectors cover 2000-2100 with the first part equal to J2000 only; swapped parts, earlier dates and precise day-plus-fraction splits are not tested.',
 [C+'earth.rs'],[('linear model and normalisation',C+'earth.rs rotation_angle; '+C+'common.rs anp')],['angle'])
p('C24','The polar motion matrix is the standard three-rotation matrix',
 'For all pole coordinates and locator values of either sign, the polar motion matrix is Rx(-yp) Ry(-xp) Rz(s\'), orthonormal with determinant +1, to within rounding; it is the identity for zero arguments.',
 ['inputs'],'all angles: realistic arc-second sizes and full circles, both signs, zero',
 'Vectors only have all three angles positive and between 0 and 1 rad.',
 [C+'earth.rs'],[('rotation sequence',C+'earth.rs polar_motion_matrix')],['matrix'])
p('C25','The celestial-to-terrestrial matrix combines pole, spin and polar motion',
 'For any TT, UT1 and polar motion, the celestial-to-terrestrial matrix is polar motion times the rotation by the Earth rotation angle of UT1 about the third axis times the celestial-to-intermediate matrix of TT, orthonormal with determinant +1, and equals the IAU 2000B reference to within 1e-10 within 10 centuries of J2000. TT affects only the intermediate frame and UT1 only the spin, and the component form accepts any matrices in that order.',
 ['inputs'],'all independent TT and UT1 dates in any split, all polar motion values of either sign',
 'The end-to-end vectors have zero polar motion and UT1 equal to TT over 2000-2100, so a dropped or mis-signed polar motion or swapped time scales pass.',
 [C+'frames.rs'],[('composition',C+'frames.rs celestial_to_terrestrial, celestial_to_terrestrial_from_cio_components')],['matrix'])
p('C26','Earth position matches the published ephemeris series',
 'For every TDB date within 100 centuries of J2000, in any split, the heliocentric and barycentric Earth positions equal the SOFA epv00 series rotated to the ICRF frame, to within 1e-12 AU for 1900-2100 (and proportionally to elapsed time outside), plus what the split can resolve.',
 ['inputs'],'all two-part TDB dates; accuracy stated for 1900-2100, consistency for any date within 100 centuries',
 'The only test that evaluates the ephemeris prints it; no value of any of the 2500 series terms is compared with anything.',
 [C+'earth.rs',C+'epv00_data.rs'],[('series summation and frame rotation',C+'earth.rs From<TDB> for EarthPosVel'),('coefficients',C+'epv00_data.rs')],['position vectors'])
p('C27','Earth velocity is the time derivative of Earth position',
 'At every TDB date within 10 centuries of J2000, the reported heliocentric and barycentric velocities (AU/day) are the time derivatives of the corresponding reported positions, to within 1e-9 AU/day as measured by finite differences, and equal the published series to within 1e-13 AU/day for 1900-2100.',
 ['inputs','histories'],'all TDB dates and all short sequences of neighbouring dates',
 'No test looks at velocities.',
 [C+'earth.rs'],[('derivative series',C+'earth.rs From<TDB> for EarthPosVel')],['velocity vectors; positions at neighbouring dates'])
p('C28','The ephemeris flags exactly the dates outside 1900-2100',
 'The Earth ephemeris carries the date-out-of-range warning for every date more than 100 Julian years from J2000 on either side, and never for a date nearer, however the date is split; positions and velocities are still returned, finite, with or without the warning.',
 ['inputs'],'all two-part dates, with emphasis on both edges of the interval; the exact edge itself is unspecified',
 'The test asserts the absence of the warning for 24 instants of one day.',
 [C+'earth.rs'],[('range check',C+'earth.rs From<TDB> for EarthPosVel')],['warning field'])
p('C29','Results do not depend on how a date is split into two parts',
 'For every astronomical quantity computed from a two-part date, two splits of the same instant (whole Julian date, J2000 offset, Modified Julian Date, date and fraction, uneven or negative parts) give the same result to within what the coarser of the two splits can resolve.',
 ['inputs'],'all pairs of splits of the same instant, all date-dependent functions',
 'Each test vector uses a single split (first part J2000 or a large first part).',
 [C+'frames.rs',C+'earth.rs',C+'locator.rs'],[('combination of the two parts','every function taking a two-part date')],['pairs of results for one instant'])
p('C30','The Sun zenith angle is right for any place and time',
 'For any time from 1960 to 2100 (including readings inside a leap second) and any place, the computed Sun zenith angle is in [0,180] degrees and agrees with an independent low-precision solar ephemeris to within 0.03 degree, and with the full documented pipeline (UTC to TAI to TT and TDB, UT1 by the fixed UT1-UTC, fixed polar motion, ephemeris, celestial-to-terrestrial rotation, geodetic zenith) to within 1e-9 rad away from 0 and 180 degrees. A time shift given to the computation acts as real elapsed seconds.',
 ['inputs'],'all dates 1960-2100, all times of day, all latitudes including poles, all longitudes, heights, and positive and negative time shifts',
 'The extras crate has no tests at all.',
 [X+'sun_angle.rs'],[('pipeline',X+'sun_angle.rs SunAngleCalculator::{new,compute}')],['sza and every intermediate result field'])
p('C31','A Sun angle result is self-consistent and independent of calculator history',
 'In every Sun angle result the reported UTC, TAI-UTC, TAI, TT, UT1, rotation angle, site position, Earth position, Sun position and zenith angle are the ones related by the documented formulas for the requested date, time, place and shift. Repeating a computation on the same calculator, after any other computations, gives the identical result, and shifting by some seconds equals building a calculator for the shifted time under the same TAI-UTC.',
 ['inputs','histories'],'all parameter sets and all sequences of shifts on one calculator',
 'The extras crate has no tests at all.',
 [X+'sun_angle.rs'],[('result assembly',X+'sun_angle.rs SunAngleCalculator::compute')],['result fields over call sequences'])
p('C32','Printed dates, times and coordinates read back as the values they show',
 'The text of a date, a time of day, a combined date-time and geodetic coordinates (in radians or degrees) has the documented layout (YYYY-MM-DD, HH:MM:SS.ffffff, signed latitude, longitude, height) and parses back to the value to within half a unit of the last printed digit; coordinates print latitude, then longitude, then height, with explicit sign. A valid time of day prints seconds below 60.',
 ['inputs'],'all valid dates including negative and five-digit years, all times of day, all coordinates of either sign',
 'One coordinate triple is formatted; dates, times and negative values are printed but never compared.',
 [C+'calendar.rs',C+'ellipsoid.rs'],[('formatting',C+'calendar.rs and '+C+'ellipsoid.rs Display impls')],['rendered text'])
p('C33','Every computation is a pure function, in any call order and on any thread',
 'Each public computation returns bit-identical results for identical inputs, whatever computations happened before in the process, in whatever order, and on however many threads concurrently, including shared converters and calculators. There are no data races.',
 ['schedules','histories'],'all interleavings of concurrent callers and all call histories',
 'Tests call each function in one fixed order; hidden caches, global state or races keyed on previous calls are not exercised.',
 ['crates/tofas/src','crates/tofas_extras/src'],[('absence of shared mutable state','whole workspace')],['result bits per call, race reports'])
p('C34','No input crashes the library, overflows or reads out of bounds',
 'No call of the date, time, delta-AT, ellipsoid, frame, locator, ephemeris and formatting functions panics, overflows an integer, hangs or performs undefined behaviour, for any numeric input including NaN, infinities, subnormals, extreme integers and hand-built invalid dates; bad input yields an error value or a meaningless number, never a crash. (Excluded: rotation axes above 2, degree normalisation of non-finite angles, and Sun-angle parameters with an invalid time.)',
 ['inputs'],'all argument values of the public functions, in overflow-checked, address-sanitized and interpreted builds',
 'Tests pass ordinary values only, so no rejection path, overflow or extreme value is executed.',
 ['crates/tofas/src'],[('range checks, wide intermediates','whole crate')],['panics, sanitizer and interpreter reports'])
p('C35','The command-line tools print what the library computes and refuse bad input',
 'julian_tool prints, for a Gregorian date and time, the Julian date and fraction of day, and for a Julian date, the calendar date, fraction and time, equal to the true values to the printed precision; sun_angle_tool prints the library\'s results for its arguments, one block per scan step from the first to the last offset. Invalid dates, out-of-range Julian dates, malformed, unknown or missing arguments, and scans that make no progress make them exit with a non-zero status and print no calendar date or Sun angle.',
 ['inputs','configurations'],'all command lines with valid values, and malformed ones',
 'The tools are compiled but never run by the tests.',
 ['crates/tofas_extras/examples/julian_tool.rs','crates/tofas_extras/examples/sun_angle_tool.rs',X+'sun_angle.rs'],[('argument parsing and printing','crates/tofas_extras/examples')],['stdout, exit status'])
p('C36','A Sun angle report shows the values of its result, each under its own label',
 'The printed Sun angle report contains, one per line under a fixed label, the date, time and shift, Julian date and its two parts, position, site vector, UTC, TAI-UTC, TAI, TT, UT1, rotation angle in degrees, Earth and Sun positions, and the zenith angle with elevation as its complement to 90 degrees; each number reads back as the corresponding result field to within half a unit of the last printed digit.',
 ['inputs'],'all parameter sets and results, including negative values, below-horizon Sun and large shifts',
 'The extras crate has no tests at all.',
 [X+'sun_angle.rs'],[('formatting',X+'sun_angle.rs Display for SunAngleResultBundle')],['rendered report'])

DEFAULT_LEVEL='exploration'
TECH={
 'C33':'runtime determinism monitor over recorded call histories (threads, fresh processes) plus ThreadSanitizer and Miri data-race detection',
 'C34':'hostile-input runs under overflow checks, debug assertions, AddressSanitizer and Miri; oracle: no panic, no report',
 'C35':'process-boundary monitor: recorded command lines and outputs checked against an independent model',
 'C04':'online trace monitor (round trip and order) over recorded conversion sequences, independent calendar model',
 'C31':'history monitor over call sequences on shared calculators, checked against formulas and fresh replays',
 'C27':'trace monitor: finite differences of recorded positions and an independent series evaluated in extended precision',
 'C29':'metamorphic runtime monitor over pairs of splits of one instant',
}
DEFAULT_TECH='runtime monitoring: boundary-biased workload on the overflow-checked build, each call judged online by an independent reference model in extended precision'
def main():
    with open(os.path.join(ROOT,'properties.jsonl'),'w') as f:
        for q in P:
            q=dict(q); q.pop('note')
            f.write(json.dumps(q,ensure_ascii=False)+'\n')
    built=open(os.path.join(ROOT,'tools','claimed.txt')).read().split() if os.path.exists(os.path.join(ROOT,'tools','claimed.txt')) else []
    man=dict(version=1,setup_cmd='bash ./run.sh setup',checks=[],not_applicable=[],
      notes='One driver, run.sh, builds the harness crate in /verif/harness against /repo and runs the monitor of one property. No hooks: every property is observable at the public API, so nothing in /repo is instrumented by source changes; sanitizers and overflow checks are compiler flags.')
    for q in P:
        if q['id'] in built:
            man['checks'].append(dict(property=q['id'],quick_cmd='bash ./run.sh check %s quick'%q['id'],
              thorough_cmd='bash ./run.sh check %s thorough'%q['id'],
              technique=TECH.get(q['id'],DEFAULT_TECH),level=DEFAULT_LEVEL,
              level_note=q['note'] or 'Held on the executions produced by this run (counts, input classes and worst error/tolerance ratios are in the evidence file); not a proof. Trusts the reference model in /verif/harness/src, which was cross-checked against published SOFA values.'))
        else:
            man['not_applicable'].append(dict(property=q['id'],reason='check not built yet'))
    json.dump(man,open(os.path.join(ROOT,'MANIFEST.json'),'w'),indent=1)
    open(os.path.join(ROOT,'MANIFEST.json'),'a').write('\n')
main()
