"""Source of properties.jsonl (run: python3 tools/mkmanifest.py)."""

IN = ['inputs']
CF = ['inputs', 'configurations']


def P(id, title, statement, over, qtext, why, files, mech, **anch):
    a = {'files': files,
         'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    a.update(anch)
    return {'id': id, 'title': title, 'statement': statement,
            'quantifier': {'over': over, 'text': qtext},
            'why_tests_cant': why, 'anchors': a}


T = 'ocbpy/ocb_time.py'
V = 'ocbpy/vectors.py'
CO = 'ocbpy/ocb_correction.py'
B = 'ocbpy/_boundary.py'
CY = 'ocbpy/cycle_boundary.py'
S = 'ocbpy/ocb_scaling.py'
BF = 'ocbpy/boundaries/files.py'
GE = 'ocbpy/instruments/general.py'
SM = 'ocbpy/instruments/supermag.py'
VO = 'ocbpy/instruments/vort.py'
PY = 'ocbpy/instruments/pysat_instruments.py'
DM = 'ocbpy/boundaries/dmsp_ssj_files.py'

PROPS = [
    P('T01', 'Cyclic conversions land in range and stay congruent',
      'Wrapping any number into a requested window, and converting between '
      'degrees, hours and radians, returns a value at or above the documented '
      'lower limit and strictly below the upper limit that differs from the '
      'exactly scaled input by a whole number of turns. Values already in the '
      'window are returned as they are. NaN stays NaN, the shape is kept, and '
      'the argument is never altered.',
      IN, 'every finite value or NaN, every legal window, scalars, integers, '
      'lists and arrays of any length',
      'tests sample a few values; wrapping loops are unbounded and round-off '
      'at the limits appears for isolated inputs only',
      [T], [('fix_range', T + ':fix_range'), ('deg2hr', T + ':deg2hr'),
            ('hr2deg', T + ':hr2deg'), ('hr2rad', T + ':hr2rad'),
            ('rad2hr', T + ':rad2hr')]),
    P('T02', 'Solar local time and geographic longitude are inverse at any UT',
      'At any universal time the solar local time of a longitude is UT hours '
      '(with minutes, seconds and microseconds) plus longitude/15, wrapped to '
      '[0, 24), and the longitude of a local time is 15 times local time minus '
      'UT, congruent modulo 360 and in [-180, 360). Converting either way and '
      'back returns the original value modulo one turn.',
      IN, 'every longitude or local time, every date and time of day, scalar '
      'or array, NaN included',
      'tests fix one time of day; the guarantee is about every time of day '
      'and every number of wraps',
      [T], [('slt2glon', T + ':slt2glon'), ('glon2slt', T + ':glon2slt'),
            ('datetime2hr', T + ':datetime2hr')]),
    P('T03', 'Time stamps parse to the exact instant they name',
      'Year with seconds of year, years-since-1900 with day of year and '
      'seconds of day, and date with time-of-day strings all convert to the '
      'instant they name, to whole seconds for seconds of year and to '
      'the microsecond for seconds of day. Leap years, year boundaries and '
      'fractional seconds included; a decimal fraction trailing a '
      'time of day is dropped.',
      IN, 'every year 1 to 9999, every second of the year, every day of year, '
      'every seconds-of-day value, every supported format string',
      'tests use a single date; leap-year and rounding boundaries are '
      'isolated inputs', [T],
      [('year_soy_to_datetime', T + ':year_soy_to_datetime'),
       ('yyddd_to_date', T + ':yyddd_to_date'),
       ('convert_time', T + ':convert_time')]),
    P('V01', 'Haversine functions are exact mutual inverses',
      'The haversine of an angle is half of one minus its cosine, and the '
      'inverse haversine returns the angle in [0, pi] with that haversine. '
      'Magnitudes below 1e-16 count as zero, inputs outside [0, 1] and NaN '
      'give NaN, and scalars and arrays agree element by element.',
      IN, 'every angle, every haversine value, scalar and array inputs',
      'tests check a handful of angles', [S],
      [('hav', S + ':hav'), ('archav', S + ':archav')]),
    P('V02', 'The angle at a vector between two poles obeys spherical trigonometry',
      'For any data and pole location in the same hemisphere, away from the '
      'geographic pole, the computed '
      'angle at the data point between the base pole and the destination pole '
      'is the interior angle of that spherical triangle, in [0, 180] degrees '
      '(0 or 180 on a common meridian). It is unchanged by swapping east and '
      'west, by adding whole days to either local time and by mirroring '
      'both hemispheres; NaN input gives NaN in that element only, any mix '
      'of scalars and arrays is accepted and the input is not altered.',
      IN, 'every local time and latitude pair away from the poles themselves, '
      'scalar or array', 'tests evaluate single triangles', [V],
      [('calc_vec_pole_angle', V + ':calc_vec_pole_angle')]),
    P('V03', 'Rotating a vector to the destination pole conserves it',
      'Rotating any vector (north, east, vertical) into the destination '
      'coordinate system turns its horizontal part by the pole angle, '
      'towards the destination pole in the quadrant where that pole lies: '
      'the horizontal magnitude is conserved and the new north component is '
      'the one along the direction to the destination pole, for every '
      'quadrant combination, element by element. The vertical component is '
      'returned as it was; a vector without horizontal part stays so; NaN '
      'in the direction, angle or local times gives NaN horizontal '
      'components in that element only; any mix of scalars, integers and '
      'arrays is accepted and the input is not altered.',
      IN, 'every vector, every pole angle strictly between 0 and 180 degrees, '
      'every quadrant pair, scalar and array inputs',
      'tests sample one vector per quadrant', [V],
      [('adjust_vector', V + ':adjust_vector'),
       ('calc_dest_polar_angle', V + ':calc_dest_polar_angle'),
       ('calc_dest_vec_sign', V + ':calc_dest_vec_sign')]),
    P('V04', 'Quadrants partition pole and vector directions',
      'For every local time pair and pole angle exactly one pole quadrant is '
      'assigned: 1 or 4 when the pole lies less than 12 h ahead of the data '
      '(modulo 24 h), 2 or 3 otherwise, and 1 or 2 exactly when the angle is '
      'below 90 degrees. For every north and east component exactly one '
      'vector quadrant is assigned from their signs. Undefined (NaN) '
      'elements get quadrant zero, and the destination pole location is the '
      'local time of its angle and the complement of its radius.',
      IN, 'every local time, pole angle and vector component, scalar or array',
      'wrapping and boundary cases need all values, not samples', [V],
      [('define_pole_quadrants', V + ':define_pole_quadrants'),
       ('define_vect_quadrants', V + ':define_vect_quadrants'),
       ('get_pole_loc', V + ':get_pole_loc')]),
    P('C01', 'Boundary corrections follow the published curves',
      'Each local-time dependent boundary correction equals the negative of '
      'its published curve at every local time, is periodic in 24 h, returns '
      'one value per local time element and rejects unknown instruments and '
      'methods. The circular correction is the requested offset everywhere.',
      CF, 'every local time (any number of wraps), every instrument and '
      'method, scalar or array', 'tests check a single local time', [CO],
      [('circular', CO + ':circular'), ('elliptical', CO + ':elliptical'),
       ('harmonic', CO + ':harmonic')]),
    P('B01', 'Boundary coordinates are the scaled position relative to the boundary',
      'Converting any location into boundary coordinates gives its polar '
      'position relative to the boundary centre of the selected record, in '
      'the planar projection about the magnetic pole: the distance from the '
      'centre is scaled by the reference colatitude over the boundary radius '
      'plus the radius correction of that record at the magnetic local time, '
      'the local time is its direction in [0, 24), and the correction is '
      'returned too. Geographic input is first converted with the record '
      'time, the given heights, trace method and geocentric or geodetic '
      'flag (any letter case). Locations of the other hemisphere, NaN and '
      'record indices without a boundary give NaN; neither the inputs nor '
      'the boundary object are altered and the shape is kept.',
      CF, 'every boundary (centre, radius, correction function and keywords '
      'per record, reference latitude, both hemispheres and classes), every '
      'location, scalar or array, magnetic, geodetic or geocentric',
      'tests use one file record and two locations; the geometry, the '
      'per-record correction and NaN handling are universally quantified',
      [B], [('OCBoundary.normal_coord', B + ':OCBoundary.normal_coord')]),
    P('B02', 'Leaving boundary coordinates undoes entering them',
      'Reverting boundary coordinates gives the location at the unscaled '
      'distance (with the given radius correction) and direction from the '
      'boundary centre of the selected record, with latitude and local time '
      'in [0, 24), converted to geographic coordinates with the record time, '
      'heights and flags when asked. Entering and then leaving boundary '
      'coordinates with the returned correction gives back every location '
      'whose boundary latitude is on its side of the equator: the same '
      'latitude and the same local time modulo 24 h. NaN locations and '
      'record indices without a boundary give NaN; inputs and the object '
      'are not altered and the shape is kept.',
      CF, 'every boundary of positive radius, every location and radius '
      'correction, scalar or array',
      'the inverse law is about all locations and boundaries',
      [B], [('OCBoundary.revert_coord', B + ':OCBoundary.revert_coord'),
            ('OCBoundary.normal_coord', B + ':OCBoundary.normal_coord')]),
    P('B05', 'Record selection visits exactly the good records, in order',
      'Cycling a boundary object moves the record index to the first later '
      'record whose figure of merit lies within the limits (given or default, '
      'both inclusive) and that meets every criterion (max, min, maxeq, '
      'mineq, equal) on a known attribute; unknown attributes do not matter. '
      'Without such a record the index ends at or beyond the number of '
      'records, and nothing but the index changes. Retrieving all good '
      'indices returns exactly these records, each once and ascending, and '
      'leaves the index, the object and the criteria as they were.',
      CF, 'every number of records, starting index, limits and criteria',
      'the selection loops run over data of any length and combine limits, '
      'criteria and starting index',
      [B, CY], [('next good record',
                 B + ':OCBoundary.get_next_good_ocb_ind'),
                ('all good records', CY + ':retrieve_all_good_indices')]),
    P('B06', 'Matching finds the first datum with a close boundary',
      'For boundary times that increase and data times that do not decrease, '
      'matching from a datum and a record on returns the first datum at or '
      'after the given one that has a good boundary (the current record, '
      'unless the search has not begun, or a later one meeting the given '
      'limits and criteria) within the tolerance, inclusive, and leaves the '
      'record index at such a boundary with no other good one closer in '
      'time. If there is none, the returned index is None or beyond the data '
      'or the record index is beyond the records; without data or records '
      'left both indices stay. It works alike for polar cap, auroral and '
      'paired boundaries (which are paired anew when limits or criteria are '
      'given) and alters nothing else.',
      CF, 'every number of data and records, all gaps, starting indices, '
      'tolerances, limits and criteria',
      'two interleaved loops over two time lines of any length; the first '
      'call differs from later ones',
      [CY, B], [('match_data_ocb', CY + ':match_data_ocb'),
                ('next good record', B + ':OCBoundary.get_next_good_ocb_ind'),
                ('next good pair', B + ':DualBoundary.get_next_good_ind')]),
    P('B03', 'The magnetic latitude of a boundary is where its circle crosses',
      'For every requested record and magnetic local time the calculated '
      'boundary latitude is where the meridian crosses the boundary circle '
      '(centre and radius with its correction at that local time) of that '
      'record, in the boundary hemisphere, and undefined where the meridian '
      'does not reach it. Already calculated records are kept unless '
      'overwriting is asked for, records that were not asked for are not '
      'touched, and without a selection every record is calculated. The '
      'local times are kept within [0, 24) along with their longitudes '
      'when asked, and neither the local times handed over nor anything '
      'else of the object are altered.',
      CF, 'every boundary and correction function, every local time, scalar '
      'or array, every selection of records and history of calls',
      'tests check one record and local time; the crossing is geometry over '
      'all boundaries', [B],
      [('OCBoundary.get_aacgm_boundary_lat',
        B + ':OCBoundary.get_aacgm_boundary_lat')]),
    P('D01', 'Pairs of boundaries are good, close in time and in order',
      'Pairing polar cap and auroral boundaries keeps, for each good polar '
      'cap record that has one, good auroral records within the allowed time '
      'difference, the closest of those not yet used, in the order of both '
      'time lines, and stores the polar cap time. No good polar cap record '
      'with such an auroral record left after the previous pair is skipped. '
      'The first pair is selected and both boundaries point at its records; '
      'the boundary data and the criteria handed over are not altered.',
      CF, 'every pair of boundary records in time order, limits, criteria and '
      'time differences',
      'two interleaved time lines of any length',
      [B, CY], [('DualBoundary.set_good_ind', B +
                 ':DualBoundary.set_good_ind')]),
    P('D02', 'Both boundaries of a pair always point at the same pair',
      'Selecting a pair by its index makes the polar cap and the auroral '
      'boundary select the records of that pair; an index past the last pair '
      'selects no record of either, whatever was selected before. Cycling '
      'moves to the next pair, whether or not there is one.',
      ['histories'], 'every history of selecting, cycling and pairing, any '
      'number of pairs, none included',
      'the guarantee is about all histories', [B],
      [('DualBoundary.rec_ind', B + ':DualBoundary.rec_ind'),
       ('DualBoundary.get_next_good_ind', B +
        ':DualBoundary.get_next_good_ind')]),
    P('D03', 'Dual-boundary coordinates scale each region between its limits',
      'Relative to a pair of boundaries, locations poleward of the polar cap '
      'boundary get their polar cap coordinates, those between the '
      'boundaries are placed in the same proportion between the two '
      'reference latitudes, and those equatorward of the auroral boundary in '
      'the same proportion between the auroral reference latitude and '
      'the equator; the local time and radius correction are those relative '
      'to the polar cap boundary. Where a boundary that the '
      'location would need is undefined, '
      'where the location is undefined or in the other hemisphere, '
      'or when no pair is selected, the result is undefined, for that '
      'location only. Geographic input is converted with the time of the '
      'pair; the input and the boundary data are not altered.',
      CF, 'every pair of boundaries and corrections, every location, scalar '
      'or array, magnetic or geographic, fresh or kept boundary latitudes',
      'tests use one pair; regions are decided location by location',
      [B], [('DualBoundary.normal_coord', B +
             ':DualBoundary.normal_coord')]),
    P('D04', 'Leaving dual-boundary coordinates undoes entering them',
      'Reverting dual-boundary coordinates places locations poleward of the '
      'polar cap reference latitude with the polar cap boundary, those '
      'between the references in the same proportion between the boundaries, '
      'and the others between the auroral boundary and the equator. '
      'Entering and leaving with the magnetic local time of the location '
      'and the returned correction gives back each location where the '
      'coordinates are defined. Geographic output is converted with the time of the pair and '
      'the height of each location, undefined input stays undefined and '
      'nothing handed over is altered.',
      CF, 'every pair of boundaries, every location and correction, scalar '
      'or array', 'the inverse law is about all locations and boundaries',
      [B], [('DualBoundary.revert_coord', B +
             ':DualBoundary.revert_coord'),
            ('DualBoundary.normal_coord', B +
             ':DualBoundary.normal_coord')]),
    P('D05', 'Scaling radii match the region of each location',
      'For locations in dual-boundary coordinates the scaled and unscaled '
      'radii are those of the region they lie in: the reference colatitude '
      'and the polar cap radius with its correction in the polar cap, the '
      'difference of the reference latitudes and of the boundary latitudes '
      'at that local time in the auroral region, and the distance of the '
      'reference and of the boundary from the equator below. '
      'An undefined boundary or correction gives an undefined unscaled radius '
      'for that location only, and without a selected pair all are '
      'undefined; nothing handed over is altered.',
      CF, 'every pair of boundaries and corrections, every location, scalar '
      'or array', 'regions are decided location by location', [B],
      [('DualBoundary.calc_r', B + ':DualBoundary.calc_r')]),
    P('S01', 'Scaling functions follow the ratio of the radii',
      'Scaling a quantity proportional to the electric field multiplies it '
      'by the unscaled over the scaled radius; one proportional to its curl '
      'by the square of that ratio. It holds element by element for any mix '
      'of scalars and arrays, NaN stays in its element, and the input is not '
      'altered.',
      IN, 'every value and radius, scalar or array',
      'tests check single values', [S],
      [('normal_evar', S + ':normal_evar'),
       ('normal_curl_evar', S + ':normal_curl_evar')]),
    P('S02', 'Vectors are rotated to the boundary pole and scaled there',
      'Expressing vectors relative to boundaries converts their location and '
      'components to magnetic coordinates at the time of the boundary record '
      'chosen for each, places them in boundary coordinates of that record, '
      'turns the horizontal part to the boundary pole of that record '
      'and scales all components with the given function and the radii of '
      'boundary and reference. It holds for one or many data with one or '
      'many boundary records, whichever record the boundary object had '
      'selected; locations without boundary coordinates give undefined '
      'components in that element only and the arrays handed over are not '
      'altered.',
      CF, 'every boundary and record selection, every location and vector, '
      'magnetic, geodetic or geocentric, scalar and array shapes',
      'tests use a single time, location and boundary file', [S, V],
      [('VectorData.set_ocb', S + ':VectorData.set_ocb'),
       ('VectorData.update_vect_coords_to_mag', S +
        ':VectorData.update_vect_coords_to_mag'),
       ('VectorData.scale_vector', S + ':VectorData.scale_vector')]),
    P('G01', 'Points along a satellite track are selected by its geometry',
      'A location counts as along a track exactly when, in the polar plane '
      'around the pole of the given hemisphere with dawn and noon as axes, '
      'it lies between the line through both boundary points displaced by '
      '(-del_x, +del_y) and the same line displaced by (+del_x, -del_y), and '
      'its colatitude is at most that of the closer boundary point plus the '
      'given distance. Locations are judged one by one, undefined ones never '
      'belong, and the arrays handed over are not altered.',
      IN, 'every track that is not vertical, every location and distance',
      'tests use one track', [CY],
      [('satellite_track', CY + ':satellite_track')]),
    P('L01', 'Boundary files load as the records they describe',
      'Loading a boundary file gives exactly one record per line of data '
      'within the time limits, in order, with the time, centre, radius and '
      'quality that line states for its format and every further column of '
      'the file. The reference latitude takes the sign of the hemisphere, '
      'the quality limits are those of the instrument, and one correction '
      'given applies to every record while several apply one each.',
      IN, 'every file of the supported formats, every time range, hemisphere '
      'and correction', 'tests read a few files', [B],
      [('load_boundary_data', B + ':OCBoundary.load'),
       ('OCBoundary', B + ':OCBoundary.__init__')]),
    P('L02', 'Default files cover the request in the documented order',
      'Choosing a default boundary file considers exactly the files present '
      'in the folder and takes one of the requested boundary type, '
      'hemisphere and instrument whose time span meets the requested times, '
      'preferring instruments in the documented order; without a match it '
      'gives none. Long and short names of an instrument mean the same, and '
      'the reported instrument is the one whose format loads the file.',
      CF, 'every set of files, time range, hemisphere, boundary type and '
      'instrument', 'tests know one installed set of files', [BF],
      [('get_default_file', BF + ':get_default_file'),
       ('get_boundary_files', BF + ':get_boundary_files')]),
    P('L03', 'ASCII columns keep their values, types and times',
      'Loading an ASCII file returns every row of every column under its '
      'name in file order, numbers as the float or integer asked for and '
      'text whole, together with the instant that the time columns name '
      'with the given formats. This holds for any number of rows and '
      'columns including one, any order and separator, and the lists handed '
      'over are not altered.',
      IN, 'every table, column types and time format',
      'tests read a few tables', [GE],
      [('load_ascii_data', GE + ':load_ascii_data')]),
    P('I01', 'Vorticity data are written in coordinates of the close record',
      'Processing a vorticity file writes one line for each datum of the '
      'hemisphere of the boundary that has a good record within the allowed '
      'time difference, in order, and no other: its time, its location in '
      'boundary coordinates of the closest such record and its scaled '
      'value, with all columns if asked for. Malformed files are refused, '
      'and mixed hemispheres are unless one is chosen.',
      CF, 'every file, boundary object or file, time difference and quality '
      'limit', 'tests convert one file with one boundary', [VO],
      [('vort2ascii_ocb', VO + ':vort2ascii_ocb'),
       ('load_vorticity_ascii_data', VO + ':load_vorticity_ascii_data')]),
    P('I02', 'SuperMAG data are written in coordinates of the close record',
      'Processing a SuperMAG file writes one line for each defined station '
      'datum of the hemisphere of the boundary that has a good record '
      'within the allowed time difference, in order, and no other: its '
      'indices and values, its location and its vector relative to the '
      'closest such record, scaled by the given function. Fill values and '
      'missing index lines of the file become undefined values of that '
      'entry only.',
      CF, 'every file, boundary object or file, time difference and quality '
      'limit', 'tests convert one file with one boundary', [SM],
      [('supermag2ascii_ocb', SM + ':supermag2ascii_ocb'),
       ('load_supermag_ascii_data', SM + ':load_supermag_ascii_data')]),
    P('I03', 'Instrument data gain boundary coordinates datum by datum',
      'Adding boundary coordinates to a pysat Instrument leaves its data '
      'unchanged and adds the documented variables with metadata: for each '
      'datum of the hemisphere with a good record within the allowed time '
      'difference its location relative to the closest such record, its '
      'scaled values and its rotated and scaled vectors; undefined values '
      'everywhere else. It holds for tables and for arrays of one or two '
      'dimensions, magnetic or geographic coordinates, any height, and the '
      'lists of names handed over are not altered.',
      CF, 'every data set, boundary object or file and choice of variables',
      'tests use the pysat test instruments', [PY],
      [('add_ocb_to_data', PY + ':add_ocb_to_data'),
       ('add_ocb_to_metadata', PY + ':add_ocb_to_metadata')]),
    P('I04', 'DMSP SSJ passes become boundary files by hemisphere',
      'Formatting DMSP SSJ files writes every pass of every readable file '
      'once into the file of its hemisphere and boundary, in order: '
      'spacecraft, time midway between both crossings, and the circle '
      'through both magnetic crossing points as its diameter, with dawn and '
      'noon as axes. Unreadable files are left out without affecting '
      'others, and the names of the four files written are returned.',
      IN, 'every set of daily files, height and method',
      'tests need a download', [DM],
      [('format_ssj_boundary_files', DM + ':format_ssj_boundary_files')]),
]

NOT_APPLICABLE = {}
NOTES = {}
TECH = {}
DEFAULT_TECH = ('contract-based deductive verification of the functions in '
                '/repo: path-wise weakest-precondition style execution of '
                'the real source with loop invariants and callee contracts, '
                'obligations discharged by z3 and cvc5')
BOUNDED_TECH = ('bounded evaluation of the written contracts on the real '
                'functions under CPython (not counted as proved)')
DEFAULT_NOTE = ('every obligation generated from the current source must be '
                'discharged; real arithmetic instead of floating point, '
                'numpy and datetime semantics are assumed contracts; a '
                'bounded run of the same contracts on the real code under '
                'CPython only searches for failing inputs')
BOUNDED_NOTE = ('contracts evaluated on generated inputs only: file access '
                'and third-party libraries are outside the verifier')
