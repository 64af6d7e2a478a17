"""The properties, in the order of properties.jsonl."""
PROPS = []


def prop(pid, title, statement, over, text, why, files, mech, note=''):
    PROPS.append({
        'id': pid, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
        'anchors': {'files': files, 'mechanism': [
            {'name': nn, 'where': ww} for nn, ww in mech]}, 'note': note})


BND = 'ocbpy/_boundary.py'
CYC = 'ocbpy/cycle_boundary.py'

prop('P01', 'Loading keeps exactly the records of the time window',
     'Loading a boundary file makes one record, in file order, of every row '
     'whose time lies in the requested window (both ends included), with each '
     'named column, the polar boundary centre (radius, and angle in [0, 360)) '
     'and the correction function of that row. The record cursor starts unset, '
     'the reference latitude is given the sign of the hemisphere, and the '
     'instrument sets the quality limits and the default correction. The same '
     'holds for files of any named columns and for loading again.',
     ['inputs', 'configurations', 'histories'],
     'All IMAGE, AMPERE and DMSP-SSJ formatted files of any length (also one '
     'row), files with other column orders, header lines and date formats, '
     'times, values, windows, hemispheres and correction functions, and '
     'repeated loads.',
     'Tests load a few shipped files with one or two windows; the quantifier '
     'ranges over all files and windows.',
     [BND],
     [('OCBoundary.load, time selection', BND),
      ('OCBoundary._set_default_rfunc and inst_defaults', BND)],
     'Files have up to 12 rows.')

prop('P02', 'The record cursor visits exactly the good records, in order',
     'Stepping to the next good record from any cursor position moves to the '
     'first later record that satisfies the quality limits and every further '
     'criterion (minimum, maximum, inclusive or exclusive, or equal), or past '
     'the end when there is none. Listing all good records yields exactly '
     'those records in order and leaves the cursor and the records as they '
     'were.',
     ['inputs', 'histories'],
     'All files, figures of merit, criteria, and histories of cursor '
     'assignments, steps and listings.',
     'Tests step a few times through one shipped file with a handful of '
     'criteria.',
     [BND, CYC],
     [('OCBoundary.get_next_good_ocb_ind', BND),
      ('retrieve_all_good_indices', CYC)],
     'Model: files of up to 3 records; replayed histories have up to 13 '
     'operations on up to 9 records.')

prop('P03', 'Data are matched with the closest good record in tolerance',
     'Matching time-ordered data with time-ordered boundary records from a '
     'given datum and cursor returns the first datum at or after it that has '
     'an allowed record within the time tolerance (inclusive), and leaves the '
     'cursor on the allowed record closest in time (the earlier of two); '
     'allowed are the record at the cursor and every later good record. When '
     'there is none it reports no match, by None or by an exhausted data index '
     'or cursor, and it never moves either index backwards.',
     ['inputs', 'histories'],
     'All data and record times, tolerances, selection criteria, cursors, and '
     'sequences of calls.',
     'Tests match the times of one shipped file with a few data sets; '
     'off-by-one, tie and exhaustion cases are a matter of all time axes.',
     [CYC], [('match_data_ocb', CYC)],
     'Model: up to 3 records and 3 data on a grid of 6 times, 3 calls.')

prop('P04', 'Paired boundaries are good, close in time and used in order',
     'A dual boundary pairs good open-closed boundary (OCB) records, in order, '
     'with good equatorward boundary (EAB) records by repeatedly taking the '
     'first OCB record that has an unused later EAB record within the '
     'allowed time difference and the closest such EAB record, so that each '
     'EAB record is used at most once. At every cursor position of the dual '
     'boundary both component cursors point to the paired records, are both '
     'unset, or are both exhausted, also after re-selection and matching. '
     'Boundaries of different hemispheres, a negative time difference, and an '
     'EAB reference latitude that is not equatorward of the OCB one are '
     'refused with a ValueError.',
     ['inputs', 'histories'],
     'All record times, qualities, selection criteria, time differences, and '
     'histories of cursor moves, re-selections and data matching.',
     'Tests pair two shipped files with a few criteria.',
     [BND, CYC], [('DualBoundary.set_good_ind and rec_ind', BND),
                  ('match_data_ocb', CYC)],
     'Model: up to 3 records per boundary on a grid of 7 times.')

GEO = 'A location is judged where it is not at the magnetic or boundary pole.'
prop('P05', 'Normalised coordinates are the similarity of the plane',
     'For a location in the hemisphere of the boundary, the boundary-'
     'normalised latitude and local time are those of the point to which the '
     'scaling that takes the boundary circle (its centre, and its radius '
     'corrected at the local time of the location) to the circle of the '
     'reference latitude around the pole takes the location; the local time '
     'is in [0, 24), and the radius correction is returned. Locations of the '
     'other hemisphere, and all while the record cursor is unset or '
     'exhausted, come out undefined. Outputs have the shape of the input.',
     ['inputs', 'configurations'],
     'All latitudes, local times (any real), boundary records, correction '
     'functions, reference latitudes, hemispheres and array shapes.',
     'Tests compare a dozen locations with stored numbers for one or two '
     'records.', [BND, 'ocbpy/ocb_correction.py'],
     [('OCBoundary.normal_coord', BND)],
     GEO + ' One of the inputs may be a scalar.')

prop('P06', 'Reverting is the inverse of normalising',
     'Reverting a normalised location of the hemisphere with a radius '
     'correction gives the magnetic location of the inverse scaling, and '
     'reverting what normalising gave, with the radius correction that it '
     'returned, gives back the original location whenever the normalised '
     'latitude stays in the hemisphere. Undefined while the record cursor is '
     'unset or exhausted.',
     ['inputs', 'configurations'],
     'All locations, records, correction functions, reference latitudes, '
     'hemispheres and shapes.',
     'A round trip must hold for every location and record; tests sample a '
     'few.', [BND], [('OCBoundary.revert_coord', BND),
                     ('OCBoundary.normal_coord', BND)], GEO)

prop('P07', 'Stored boundary latitudes lie on the boundary',
     'Calculating the boundary latitude at given local times stores, for each '
     'requested record that has none yet (or for each requested record, with '
     'overwrite), the latitude at which the meridian of that local time '
     'leaves the corrected boundary circle, and undefined where it does not '
     'meet it; the local times; and, on request, the longitudes of those '
     'local times at the time of the record. All other stored values, '
     'conversions included, are left as they were; loading records anew '
     'leaves none stored.',
     ['inputs', 'histories'],
     'All local times (scalar or array), records, and histories of '
     'calculations with and without overwrite, conversions and reloads.',
     'Tests call it once or twice per object; the state kept between calls is '
     'a matter of histories.', [BND],
     [('OCBoundary.get_aacgm_boundary_lat', BND)],
     'Meridians that nearly touch the circle are not judged.')

prop('P08', 'Dual normalisation splits the hemisphere at both boundaries',
     'With both boundaries, a location poleward of the OCB has the latitude '
     'of the OCB normalisation, one between OCB and EAB is interpolated '
     'linearly between the two reference latitudes in proportion to its '
     'distance from the boundaries at its local time, and one equatorward of '
     'the EAB is scaled by the ratio of the EAB reference latitude to the EAB '
     'latitude; locations of the other hemisphere, and all while the cursor '
     'is unset or exhausted, are undefined. The OCB coordinates and correction '
     'are those of the OCB alone. Boundary latitudes are stored for the '
     'current pair only, and not overwritten unless asked.',
     ['inputs', 'histories'],
     'All pairs of boundaries, locations and histories of cursor moves, '
     'conversions and boundary calculations.',
     'Tests use one pair of records and few locations.', [BND],
     [('DualBoundary.normal_coord', BND),
      ('DualBoundary.get_aacgm_boundary_lats', BND)],
     'Judged where the OCB is poleward of the EAB at the local time, for '
     'scalars and one-dimensional arrays.')

prop('P09', 'Dual reversion is the inverse of dual normalisation',
     'Reverting a dual-normalised location, given its magnetic local time, '
     'inverts the scaling of its region (poleward of the OCB reference '
     'latitude, between both, or equatorward of the EAB reference latitude), '
     'so that a round trip gives back the location; with OCB coordinates it '
     'inverts the OCB normalisation. The scaled and unscaled widths of the '
     'region of a location are those of that region.',
     ['inputs', 'histories'],
     'All pairs of boundaries, locations, mixtures of regions in one array, '
     'and histories of conversions.',
     'Tests use one pair of records and few locations, rarely with a mixture '
     'of regions.', [BND],
     [('DualBoundary.revert_coord', BND), ('DualBoundary.calc_r', BND)],
     'As for P08.')

prop('P10', 'Geographic conversion composes AACGM and the magnetic path',
     'With geodetic or geocentric coordinates, normalising converts the '
     'latitude and solar local time at the given height and at the time of '
     'the current record with AACGM, by the given method, and then normalises '
     'the magnetic location; reverting reverts to magnetic coordinates, then '
     'converts these to latitude and solar local time in [0, 24). This holds '
     'for single and dual boundaries.',
     ['inputs', 'configurations'],
     'All locations, heights (scalar or array), coordinate systems, methods, '
     'record times and boundaries.',
     'Tests use one time, one height and few locations.', [BND],
     [('OCBoundary.normal_coord', BND), ('OCBoundary.revert_coord', BND),
      ('DualBoundary.normal_coord', BND), ('DualBoundary.revert_coord', BND)],
     'The AACGM conversion itself is taken from aacgmv2. Tracing to '
     'geographic coordinates, which may never return in aacgmv2, is judged '
     'for northern latitudes of 55 to 82 degrees.')

VEC = 'ocbpy/vectors.py'
SCA = 'ocbpy/ocb_scaling.py'

prop('P11', 'Vectors keep their size and turn with the boundary pole',
     'Rotating a vector into boundary coordinates keeps its vertical component '
     'and horizontal magnitude, and turns the horizontal part by the angle '
     'between the directions to the magnetic pole and to the boundary pole at '
     'the location, so that a vector towards the boundary pole has only a '
     'north component; the pole angle of each location is the spherical angle '
     'between these directions. Geographic vectors are rotated to magnetic '
     'ones in the same way, about the magnetic pole at the location of each '
     'datum. VectorData.set_ocb gives the boundary coordinates of the '
     'magnetic location and the rotated vector of every datum and boundary '
     'record, scalar or array, and changes no input.',
     ['inputs', 'configurations'],
     'All locations, poles (on or near the meridian too), vectors in every '
     'quadrant and on the axes, scalar and array shapes, records, single and '
     'dual boundaries, coordinate systems and heights.',
     'Tests rotate one vector per pair of quadrants and one array; the sign '
     'rules depend on quadrants, order of meridians and hemispheres jointly.',
     [VEC, SCA],
     [('adjust_vector, calc_dest_vec_sign, quadrants', VEC),
      ('VectorData.set_ocb and update_vect_coords_to_mag', SCA)],
     'Locations exactly at a pole are not judged.')

prop('P12', 'Scaling multiplies by powers of the size ratio',
     'normal_evar multiplies by the ratio of unscaled to scaled size and '
     'normal_curl_evar by its square. VectorData with a scaling function '
     'applies it to each rotated component (north, east, vertical), with the '
     'unscaled size the boundary radius plus its correction at the location '
     'and the scaled size 90 degrees less the reference latitude (those of the '
     'OCB for dual boundaries); without one the components '
     'are left unscaled. hav and archav are the haversine and its inverse.',
     ['inputs', 'configurations'],
     'All values, sizes, records, corrections, and scalar or array inputs.',
     'Tests use one boundary and one or two data.',
     [SCA, VEC],
     [('normal_evar, normal_curl_evar, hav, archav', SCA),
      ('VectorData.scale_vector', SCA)])

TIM = 'ocbpy/ocb_time.py'
FIL = 'ocbpy/boundaries/files.py'

prop('P13', 'A vector object always reflects its current inputs',
     'After any sequence of changes to the data index, the data, the vector '
     'components, the boundary index and the scaling function, and of setting '
     'or clearing the boundary, a VectorData object has outputs of the shape '
     'of its inputs (one value per datum, or per boundary for one datum); '
     'inputs of different lengths are refused with ValueError. Results of a '
     'boundary index or a data index that changed are unset (NaN), and once '
     'a boundary is set for the current inputs, the results equal those of a '
     'new object made with them: rotated vectors, angles, boundary pole and '
     'sizes are those of the boundary set last, while normalised locations '
     'that are known already for the current indices are kept. A scaling '
     'function given when setting the boundary is only used if the object '
     'has none. Quadrants and scaled vectors asked for on their own are those '
     'of the boundary set last with the current vectors and function, and are '
     'refused with ValueError, as is the pole angle, when none is set.',
     ['histories', 'inputs'],
     'All histories of assignments to dat_ind, ocb_ind, coordinates, '
     'components, scale_func, set_ocb with several boundaries and '
     'clear_data, with scalars and arrays.',
     'Tests set one attribute of one object; the quantifier ranges over '
     'sequences of assignments of scalars and arrays.',
     [SCA],
     [('VectorData.__setattr__ and _ocb_attr_setter', SCA),
      ('VectorData.set_ocb and clear_data', SCA)],
     'Vectors of up to 4 data, histories of up to 8 '
     'operations.')

prop('P15', 'Times are read as they were written',
     'Every supported spelling of an instant (year and second of year, two '
     'digit year with day of year, with time of day or second of day, and '
     'strptime formatted dates and times) is converted to exactly that '
     'instant (second of year: to the nearest second). Impossible times are '
     'refused with ValueError, and the length computed for a datetime format '
     'is enough for every text of that format.',
     ['inputs', 'configurations'],
     'All instants of years 1900-2100, formats composed of the supported '
     'directives, and orders of fields.',
     'Tests convert one instant per spelling; leap years, year ends, '
     'fractional seconds and uncommon directives are not sampled.',
     [TIM],
     [('convert_time', TIM), ('year_soy_to_datetime', TIM),
      ('yyddd_to_date', TIM), ('get_datetime_fmt_len', TIM)],
     'Seconds of year at exactly one half, day 366 of other years and %G are '
     'excluded.')

prop('P16', 'Cyclic values are brought into their range',
     'Angles, hours and longitudes brought into a cyclic range (and the '
     'conversions between degrees, hours, radians, and between solar local '
     'time and longitude) come out at or above its minimum and below its '
     'maximum, equal to the exact conversion modulo the period, unchanged '
     'when they already lie within, with the shape of the input, and without '
     'changing the input array. Conversions there and back return the same '
     'angle.',
     ['inputs'],
     'All finite binary64 values and NaN, scalars, lists and arrays of any '
     'shape, ranges and periods.',
     'Tests convert a few values; values at and one rounding away from the '
     'ends of the range are not sampled.',
     [TIM],
     [('fix_range', TIM), ('deg2hr, hr2deg, hr2rad, rad2hr', TIM),
      ('slt2glon, glon2slt', TIM), ('datetime2hr', TIM)],
     'Ranges narrower than the period are excluded.')

prop('P17', 'The default file is the best one that fits the request',
     'When no boundary file is named, the file chosen is one of the package '
     'boundary directory of the requested boundary, hemisphere and '
     'instrument (long and short names alike) whose coverage overlaps the '
     'requested period, of the most preferred instrument; there is none only '
     'when no file fits. Files with other names never matter, and unknown '
     'instruments are chosen only when they are asked for. Boundary objects '
     'load that file.',
     ['configurations', 'inputs'],
     'All contents of the boundary directory and all requests.',
     'Tests use the one directory that was shipped; the quantifier ranges '
     'over directories, listing orders and periods.',
     [FIL, BND],
     [('get_default_file', FIL), ('get_boundary_files', FIL),
      ('OCBoundary.__init__, default file', BND)],
     'Directories of up to 7 files, made in a scratch copy of the package.')

GEN = 'ocbpy/instruments/general.py'

prop('P18', 'Columns of text files are read as they were written',
     'Reading a file of columns returns the header lines (after those of the '
     'caller) and, under each name of the last one, the values of that column '
     'in row order: real numbers, integers, or texts of the kind asked for. '
     'Columns that tell the time are joined into one column of instants, '
     'each the instant its row says, under the first free name. Files that '
     'are missing or empty give the header and no columns.',
     ['inputs', 'configurations'],
     'All files with any number of header lines, rows (none and one too) and '
     'columns, in any order, and all formats of times split over columns.',
     'Tests read a few files of several rows; the quantifier ranges over all '
     'files, column orders and time formats.',
     [GEN],
     [('load_ascii_data', GEN), ('convert_time', 'ocbpy/ocb_time.py')],
     'Files have up to 8 rows and 12 columns.')

VOR = 'ocbpy/instruments/vort.py'
SMG = 'ocbpy/instruments/supermag.py'

prop('P19', 'Vorticity files are read and converted without loss',
     'Reading a vorticity file gives one row for each entry, in order, with '
     'the date and hour of its record and the values of its three lines; a '
     'file whose lines do not follow the format is rejected. Converting it '
     'writes a line for exactly those data of the chosen hemisphere that have '
     'an allowed boundary record in the time tolerance: their time, their '
     'values when all are saved, and the location and scaled vorticity '
     'relative to the closest such record. Data of both hemispheres are '
     'refused when none is chosen, and nothing is written without data.',
     ['inputs', 'configurations', 'histories'],
     'All files, boundaries (one, two, or a boundary file), hemispheres, '
     'tolerances, quality limits and scaling functions.',
     'Tests convert a shipped file of a few entries; the quantifier ranges '
     'over all files, malformed ones too, and boundaries.',
     [VOR, CYC],
     [('load_vorticity_ascii_data', VOR), ('vort2ascii_ocb', VOR),
      ('match_data_ocb', CYC)],
     'Model: files of up to 8 lines, 3 records and 3 data. Known finding: '
     'the radius used with a pair of boundaries.')

prop('P20', 'SuperMAG files are read and converted without loss',
     'Reading a SuperMAG file gives the header and one row for each station '
     'line, in order, with the date, number of stations and indices of its '
     'record and its values, where gaps are undefined. Converting it writes '
     'a line for every measured station of the chosen hemisphere at exactly '
     'the times that have an allowed boundary record in the time tolerance: '
     'what was measured, and the location and the rotated and scaled vector '
     'relative to the closest such record.',
     ['inputs', 'configurations', 'histories'],
     'All files, boundaries (one, two, or a boundary file), hemispheres, '
     'tolerances, quality limits and scaling functions.',
     'Tests convert a shipped file with two stations at two times; the '
     'quantifier ranges over all files and boundaries.',
     [SMG, CYC, SCA],
     [('load_supermag_ascii_data', SMG), ('supermag2ascii_ocb', SMG),
      ('VectorData.set_ocb', SCA)],
     'Model: files of up to 8 lines, 3 records and 3 times. Known finding: '
     'vectors in the southern hemisphere.')

PYS = 'ocbpy/instruments/pysat_instruments.py'
prop('P21', 'pysat Instruments gain boundary data at matched times only',
     'Adding boundary data to a pysat Instrument (pandas or xarray, with '
     'profiles and grids) gives, at every sample of the hemisphere with data '
     'at a time that has an allowed boundary record in the time tolerance, '
     'the location, radius correction, scaled variables and rotated vectors '
     'relative to the closest such record. Every other sample is undefined; '
     'new variables are described, and the existing data and the arguments '
     'stay as they were. Samples of both hemispheres need a choice.',
     ['inputs', 'configurations', 'histories'],
     'All Instruments with time as the first dimension, data gaps, heights, '
     'coordinates, boundaries (one, two or a file), tolerances, quality '
     'limits, and names of variables and vectors.',
     'Tests add data for one boundary file to test Instruments and check '
     'the presence of variables; the quantifier ranges over data and '
     'layouts.',
     [PYS, CYC, SCA],
     [('add_ocb_to_data', PYS), ('reshape_pad_mask_flatten', PYS),
      ('match_data_ocb', CYC), ('VectorData.set_ocb', SCA)],
     'Model: matching of up to 4 records and 4 times with both hemispheres. '
     'Known finding: vectors in the southern hemisphere.')

SSJ = 'ocbpy/boundaries/dmsp_ssj_files.py'
prop('P22', 'DMSP passes are formatted into boundary files without loss',
     'Formatting DMSP SSJ files writes four boundary files next to them, for '
     'both hemispheres and both boundaries, named after the first and last '
     'day, with exactly one line for every pass of that hemisphere, in '
     'order: the satellite, the middle time, the quality, the magnetic '
     'locations of both crossings, their midpoint and half their distance. '
     'Files that are missing or damaged are left out, and loading a '
     'boundary file gives the same values.',
     ['inputs', 'configurations'],
     'All lists of existing, missing and damaged files, passes, directories, '
     'altitudes and methods of magnetic conversion.',
     'Tests format one shipped file and compare with shipped results; the '
     'quantifier ranges over files, passes and directories.',
     [SSJ],
     [('format_ssj_boundary_files', SSJ), ('load_boundary_data', BND)],
     'Magnetic locations come from aacgmv2, independently of the code. '
     'Model: up to 3 files of up to 3 passes.')
prop('P23', 'A download of DMSP files is complete or leaves nothing behind',
     'Fetching DMSP files extracts exactly the files of the chosen '
     'satellites with days from the start until before the end, removes the '
     'temporary files when asked, and keeps all others. Unknown satellites '
     'or a missing directory are rejected before the download, and a failed '
     'or damaged download ends in an error with nothing extracted. The '
     'output streams of the caller are given back in every case.',
     ['inputs', 'faults', 'configurations'],
     'All archives, satellites, periods, directories, and failures: a '
     'download that breaks off, has a bad checksum, no usable link, or no '
     'archive.',
     'The tests need the network; the quantifier ranges over faults at '
     'every step.',
     [SSJ],
     [('fetch_ssj_boundary_files', SSJ), ('evaluate_dmsp_boundary_file', SSJ),
      ('fetch_format_ssj_boundary_files', SSJ)],
     'The download is replaced by a stand-in. Model: archives of up to 3 '
     'files, 7 outcomes, termination.')

prop('P24', 'Locations along a satellite track are recognised',
     'A location is on the track of a satellite exactly if, in the plane '
     'around the magnetic pole, it lies in the band that the allowed '
     'distances along both axes sweep along the straight line through both '
     'boundary crossings, and not further equatorward of the closer '
     'crossing than allowed, in either hemisphere and for inputs of any '
     'shape. Negative allowances and unknown hemispheres are rejected.',
     ['inputs', 'configurations'],
     'All locations, pairs of different crossings, allowances and '
     'hemispheres, away from the edge of the band.',
     'Tests compare one track with shipped results; the quantifier ranges '
     'over the plane and all directions of tracks.',
     [CYC],
     [('satellite_track', CYC)],
     'Model: points and tracks on a grid; symmetries and monotonicity of the '
     'definition. Known finding: tracks that rise with x.')

COR = 'ocbpy/ocb_correction.py'
prop('P25', 'Radius corrections depend on the local time alone',
     'Every correction function returns, for inputs of any shape, the '
     'published correction at each local time, which repeats every 24 hours '
     'and does not depend on the other elements or the case of the names. '
     'Unknown instruments and methods are rejected.',
     ['inputs', 'configurations'],
     'All corrections, local times, shapes, instruments and methods.',
     'Tests sample a few local times; the quantifier ranges over all of '
     'them.',
     [COR],
     [('circular', COR), ('elliptical', COR), ('harmonic', COR)],
     'Model: every correction at 48 (480) local times is periodic, bounded '
     'and continuous.')

prop('P26', 'Representations rebuild the object, summaries tell its contents',
     'Evaluating the representation of a boundary, pair of boundaries or '
     'vector data gives an object with the same records, reference, limits, '
     'functions, locations, vectors and later results, whatever the number '
     'of records or elements, the period asked for, the functions used per '
     'record, or whether boundary locations have been set; representing '
     'it again gives the same text. Summaries never fail and list '
     'the number of records, their period, the first and last two records '
     'and every function, or each location and vector once with its '
     'indices and values, to the printed digits.',
     ['inputs', 'histories', 'configurations'],
     'All boundary files, periods and functions; all pairs; vectors of all '
     'shapes, before and after set_ocb.',
     'Tests evaluate the representations of a few objects; the quantifier '
     'ranges over contents, shapes, and empty periods.',
     [BND, SCA],
     [('OCBoundary.__repr__', BND), ('OCBoundary.__str__', BND),
      ('DualBoundary.__repr__', BND), ('DualBoundary.__str__', BND),
      ('VectorData.__repr__', SCA), ('VectorData.__str__', SCA)],
     'Rows in time order; reference latitudes of up to 6 decimals. Model: '
     'files of up to 5 (6) rows, all periods, described and rebuilt three '
     'times.')

prop('P27', 'Locations keep their place when their coordinates are converted',
     'Converting the locations of vector data between magnetic, geodetic '
     'and geocentric coordinates gives, element by element, the place that '
     'AACGM gives for the longitude at the local time, the time and the '
     'height of that element, in any sequence of conversions, for one or '
     'several times. The named system is that of the numbers, arrays keep '
     'their shape, everything else is kept, and vectors are later expressed '
     'relative to a boundary as those of a new object at these locations. '
     'Mismatched times are refused and change nothing.',
     ['inputs', 'histories'],
     'All sequences of conversions, shapes, heights and times.',
     'Tests convert one location once; the quantifier ranges over '
     'sequences, where the systems of numbers and labels could part.',
     [SCA],
     [('VectorData.update_loc_coords', SCA), ('VectorData.set_ocb', SCA),
      ('VectorData.update_vect_coords_to_mag', SCA)],
     'AACGM is trusted, to 1e-3. Local times within 2 degrees of a pole are '
     'not judged. Model: all sequences of 2 (3) conversions.')

prop('P28', 'Quadrants and angles stand for directions',
     'The functions of the vectors module agree with the geometry, element by '
     'element, for any mixture of single values and arrays: the quadrants of '
     'vectors and poles are those of their directions (0 where undefined), '
     'the pole angle is the spherical angle at the location, and for given '
     'quadrants and angles from north of the vector and of the other pole, '
     'the destination angle and the signs asked for are those of the '
     'direction of the vector relative to the direction of the pole. '
     'Undefined elements stay undefined, input without any valid quadrant is '
     'refused with a ValueError, and no input is changed.',
     ['inputs'],
     'All directions in every pair of quadrants, on and between the axes, '
     'shapes, mixtures of single values and arrays, whole or real numbers.',
     'Tests use one value per pair of quadrants in one shape; the case tables '
     'of quadrants must agree with the rotation for all angles.',
     [VEC],
     [('define_pole_quadrants, define_vect_quadrants', VEC),
      ('calc_dest_polar_angle, calc_dest_vec_sign', VEC),
      ('calc_vec_pole_angle, get_pole_loc', VEC)],
     'Angles that lie outside their quadrants are not judged, nor signs of '
     'components that vanish. Model: directions every 5 (3) degrees.')

prop('P14', 'Objects and calls do not influence one another',
     'What a boundary, pair of boundaries or vector data shows, and what '
     'the readers, file choice, corrections and time conversions return, '
     'depends on their own arguments and past alone: in any schedule of '
     'several objects made from the same files, arrays, dicts, lists and '
     'boundaries, every object goes through the same states as when it is '
     'the only one. The arguments keep their values, also when the '
     'caller overwrites results.',
     ['histories', 'schedules', 'inputs'],
     'All schedules of two or three objects of all kinds with programs of '
     'up to 12 steps.',
     'Tests use one object at a time; the quantifier ranges over '
     'interleavings, where shared defaults, aliases and caches show.',
     [BND, SCA, GEN],
     [('OCBoundary', BND), ('EABoundary', BND), ('DualBoundary', BND),
      ('VectorData', SCA), ('load_ascii_data', GEN)],
     'Magnetic coordinates only, as AACGM itself depends on the order of '
     'calls. One thread. Values are compared to 10 digits. Model: all '
     'schedules of 2 objects with 4 (5) steps and of 3 with 2 (3) steps on '
     'a heap.')
