prop('C04', 'Bit copy and message checksums',
     'Copying a bit field between message buffers moves exactly the requested bits to the requested position and leaves every other destination bit unchanged. A received RTCM frame is accepted only if its 24-bit CRC (CRC-24Q) is the checksum of its header and payload, for every single-bit corruption of a valid frame.',
     ['inputs', 'fault_sequences'], 'arbitrary buffer contents, offsets and lengths up to the stated sizes; every bit flip', 'tests never exercise partial-byte copies or corrupted frames',
     ['gnss.py', 'rtcm.py'], [('copy_buff', 'gnss.py'), ('checksum / sync', 'rtcm.py')])
prop('C05', 'RTCM and IGS SSR messages decode to the transmitted corrections',
     'Every RTCM 3 / IGS SSR orbit, clock, code-bias, phase-bias, URA and combined message decodes to exactly the satellites, issue numbers, epoch, update interval and correction values its bits encode, with the units and signs of the standard. The reserved "not available" pattern of a field gives a not-a-number, never a plausible correction, and no field of one satellite influences another.',
     ['inputs'], 'all field values (every bit pattern) for message templates with up to two satellites', 'tests decode no SSR message; a wrong width, scale, sign or offset in one field of one system needs that message to be seen',
     ['rtcm.py', 'cssrlib.py'], [('rtcm.decode_cssr_orb/clk/cbias/pbias/ura/comb', 'rtcm.py'), ('sval / isset', 'cssrlib.py')])
prop('C06', 'RTCM SSR encoder and decoder are mutually inverse',
     'Encoding SSR corrections (orbit, clock, code bias, phase bias, URA) into an RTCM or IGS SSR message and decoding the message gives back the same satellites, epoch, issue numbers and corrections, to within half a least significant bit of each field.',
     ['inputs'], 'all correction values in field range, one or two satellites per message', 'the existing tests contain no encode/decode round trip',
     ['rtcm.py'], [('rtcme.encode_*', 'rtcm.py'), ('rtcm.decode_cssr_*', 'rtcm.py')])
prop('C07', 'MSM observation messages decode to the transmitted observables',
     'An RTCM MSM message decodes to exactly the satellite/signal cells set in its masks, with pseudorange, carrier phase and C/N0 equal to the rough plus fine values in the units of the standard. Cells that are absent or flagged invalid never yield an observation, and loss of lock is reported when the lock-time indicator decreases.',
     ['inputs', 'histories'], 'all field values for MSM4-7 with one or two satellites and signals, all systems', 'tests decode no MSM message',
     ['rtcm.py'], [('decode_msm / decode_msm_time / msm tables', 'rtcm.py')])
prop('C08', 'RTCM broadcast ephemeris messages decode to the transmitted orbits',
     'Each RTCM ephemeris message (GPS, GLONASS, Galileo, BeiDou, QZSS, NavIC, SBAS) decodes to the transmitted satellite and to parameter values equal to the field times its scale factor, with week-number rollover resolved to the reference time.',
     ['inputs'], 'every bit pattern of every field', 'no test decodes these messages; each of ~30 fields x 7 systems has its own width, sign and scale',
     ['rtcm.py'], [('decode_gps_eph ... decode_sbs_eph', 'rtcm.py')])
prop('C10', 'Compact SSR subtypes decode to the transmitted corrections',
     'For Compact SSR (CLAS/QZS, Galileo HAS style) the mask message defines the satellites and signals, and the clock, orbit, code/phase bias and URA messages assign each decoded value, in its documented unit, to the satellite and signal the mask order defines. The reserved bit pattern yields a not-a-number and never a plausible correction.',
     ['inputs'], 'all masks with up to three satellites of up to two systems, all field values', 'tests decode no Compact SSR; the mapping from bits to satellite and signal depends on every mask combination',
     ['cssrlib.py'], [('decode_cssr_mask/clk/orb/bias/ura', 'cssrlib.py')])
prop('C11', 'Compact SSR atmospheric and network messages decode per network',
     'STEC, gridded troposphere/STEC, network bias and combined Compact SSR messages assign their polynomial coefficients, residuals, quality indicators and satellites to the network they name, in documented units and for exactly the satellites in the network mask; other networks are unaffected.',
     ['inputs'], 'all field values for networks with up to two satellites and two grid points', 'tests decode no such messages',
     ['cssrlib.py'], [('decode_cssr_stec/grid/comb/atmos', 'cssrlib.py')])
prop('C12', 'Corrections are used only when consistent in issue of data and age',
     'A Compact SSR message whose issue number (IOD SSR) differs from that of the current mask stores nothing. When computing satellite positions, orbit and clock corrections are applied only if both were received with the issue of the current or the directly preceding mask and contain the satellite; otherwise the satellite is reported without position. A correction set is reported usable only when mask, orbit, clock, code bias and the local STEC/troposphere (and, if local phase biases are used, phase bias) parts are present, and the validity check drops exactly the corrections older than their validity limit.',
     ['histories', 'inputs'], 'all sequences of up to three messages with arbitrary IODs and ages', 'tests feed no message sequences',
     ['cssrlib.py'], [('iodssr checks, chk_stat, check_validity', 'cssrlib.py')])
prop('C13', 'L6 frame assembly delivers each data part exactly once and in order',
     'The CLAS L6 decoder concatenates the data parts of consecutive frames of one subframe in order starting at a subframe head, delivers the payload bits unchanged, and delivers no frame containing parts from both sides of a break (lost frames, change of facility). Data without a valid preamble change nothing.',
     ['histories', 'inputs'], 'arbitrary payload bits and frame header sequences up to the stated length', 'tests feed no L6 frames',
     ['cssrlib.py'], [('decode_l6msg', 'cssrlib.py')])
prop('C14', 'Network grid interpolation is exact, convex and falls back safely',
     'The grid weights used for network atmospheric corrections are non-negative, sum to one, reproduce a grid point exactly, and involve only the selected network; interpolated STEC and troposphere are the documented polynomial plus the weighted residuals.',
     ['inputs'], 'all user positions, residuals and coefficients for networks of up to three points', 'tests do not interpolate',
     ['cssrlib.py'], [('find_grid_index, get_dpos, get_trop, get_stec', 'cssrlib.py')])
prop('C15', 'Galileo HAS messages decode to the transmitted corrections',
     'A decoded Galileo HAS message (mask, orbit, clock, code and phase bias blocks in any combination) yields the corrections encoded for each satellite and signal, in the units and sign convention of the HAS ICD, with not-available and do-not-use patterns never giving a plausible correction.',
     ['inputs'], 'all field values for masks of up to two systems and three satellites', 'tests decode no HAS message',
     ['cssr_has.py', 'cssrlib.py'], [('cssr_has.decode_cssr_*', 'cssr_has.py')])
prop('C16', 'HAS page collection recovers the message from any sufficient pages',
     'A HAS message is recovered from any k distinct pages of the same message identifier, duplicates and pages of other messages do not disturb it, and it is never delivered from fewer than k pages.',
     ['histories', 'inputs'], 'page sequences of up to the stated length, arbitrary content', 'tests feed no pages',
     ['cssr_has.py'], [('decode_has_page, decode_cnav', 'cssr_has.py')])
prop('C17', 'BeiDou PPP-B2b messages decode to the transmitted corrections',
     'BeiDou PPP-B2b mask, orbit, code-bias, clock, URA and combined messages yield, for exactly the satellites and slots they carry, the encoded corrections in the units and signs of the ICD, with reserved values never giving a plausible correction.',
     ['inputs'], 'all field values for up to two satellites/slots', 'tests decode no B2b message',
     ['cssr_bds.py'], [('cssr_bds.decode_cssr_*', 'cssr_bds.py')])
prop('C18', 'PVS (DFMC SBAS) corrections decode to the transmitted values',
     'PVS/SouthPAN messages decode to the orbit, rate, clock, covariance and integrity values their bits encode, for the satellite the slot names, in documented units.',
     ['inputs'], 'all field values', 'tests decode no such message',
     ['cssr_pvs.py'], [('decode_cssr_* of cssr_pvs', 'cssr_pvs.py')])
prop('C19', 'Ephemeris selection and SSR application are consistent',
     'Only an ephemeris of the requested satellite, of the requested issue (and message type) when one is given, and within the validity window is used, and without a requested issue the nearest in time is chosen; otherwise the satellite is reported without position. SSR orbit and clock corrections are applied exactly once (for PVS/SBAS together with their rates), in the radial/along/cross frame of the service, and applying them never changes the stored corrections.',
     ['inputs', 'histories'], 'up to three ephemerides with arbitrary times and issues, arbitrary correction values', 'tests use a single ephemeris file and no corrections',
     ['ephemeris.py'], [('findeph, satpos, satposs', 'ephemeris.py')])
prop('C20', 'Broadcast clock and orbit models satisfy their defining equations',
     'Satellite clock offset and drift are the documented polynomial about the clock reference time; the computed orbit satisfies Kepler geometry (radius, argument of latitude, node) for all parameter values, and the velocity is the derivative of the position.',
     ['inputs'], 'arbitrary ephemeris parameters within broadcast ranges', 'tests compare one satellite at one epoch',
     ['ephemeris.py'], [('eph2clk, eph2pos, geph2pos', 'ephemeris.py')])
prop('C21', 'Integer ambiguity search returns the true least-squares optimum',
     'The LD factorisation reproduces the covariance, decorrelation is unimodular and consistent, and the search returns the integer vectors with the smallest weighted squared residual, in order, with the residuals it reports.',
     ['inputs'], 'dimension 1-3, arbitrary float ambiguities and positive definite factors within bounds', 'tests run one fixed 6x6 and 10x10 example',
     ['mlambda.py'], [('ldldecom, reduction, msearch/search, mlambda', 'mlambda.py')])
prop('C22', 'Filter residuals, updates and ambiguity fixing are consistent',
     'Code and phase residuals are observation minus modelled range (geometry, clocks, troposphere, ionosphere, biases, wind-up, antennas). Forming between-satellite differences removes any error common to all satellites of a system and signal (such as a receiver clock); the residual equals the difference of observed and modelled values, including each satellite\'s own carrier frequency, with a design matrix that is its exact derivative and the covariance of the differences. The Kalman update is the least-squares combination of prior and measurements, leaves inactive states untouched and keeps the covariance symmetric; the time update applies motion and process noise to the right states and resets states after outages and edits. Fixing conditions the other states on the integers found and leaves the float solution alone; holding constrains exactly the fixed differences.',
     ['inputs', 'histories'], 'two to four satellites, one or two frequencies, arbitrary values', 'tests run one RTK data set',
     ['pppssr.py', 'gnss.py'], [('pppos.zdres, sdres, ddcov, kfupdate, udstate, resamb_lambda, holdamb', 'pppssr.py')])
prop('C31', 'Standalone positioning residuals, smoothing and clock resets are correct',
     'Standalone positioning uses exactly one pseudorange residual per usable satellite: the (single-frequency or ionosphere-free) observation minus geometric range, receiver and satellite clock and the modelled delays; the Klobuchar delay follows IS-GPS-200. Carrier smoothing is the recursive mean of code and predicted code, restarting after gaps, missing values and jumps. A receiver clock reset keeps clock state and innovations consistent.',
     ['inputs', 'histories'], 'up to three satellites, arbitrary values; short epoch histories', 'tests run one data set',
     ['pntpos.py'], [('stdpos.zdres, sdres, csmooth, process, ionKlobuchar', 'pntpos.py')])
prop('C23', 'Unusable observations never enter the solution',
     'An observation is excluded when the satellite is unhealthy, excluded by configuration, below the elevation mask, without position or ephemeris, below the C/N0 mask, has a missing or not-a-number pseudorange or phase, a loss-of-lock flag, or a jump of its geometry-free phase combination since the previous epoch of the same receiver, whatever the other satellites are; everything else is kept. In RTK a satellite edited at either receiver is excluded and its ambiguity is reset, and the base coordinates never change.',
     ['inputs', 'configurations', 'histories'], 'up to three satellites with arbitrary observations, health, elevation', 'tests use clean data',
     ['pppssr.py', 'rtk.py'], [('qcedit', 'pppssr.py'), ('base_process', 'rtk.py')])
prop('C24', 'RINEX navigation and observation files round-trip',
     'Ephemerides written to a RINEX navigation file and read back have the same values within the printed precision, for all systems; observation records are parsed to the value, loss-of-lock flag and signal of each column whatever the number of signals.',
     ['inputs'], 'arbitrary parameter values', 'tests read one file per type and only count records',
     ['rinex.py'], [('rnxenc.rnx_nav_body, rnxdec.decode_nav, decode_obs', 'rinex.py')])
prop('C25', 'Precise orbit/clock files parse and interpolate exactly',
     'SP3 and RINEX clock records are parsed to the right satellite, epoch and unit; interpolation is exact for polynomial orbits up to its degree (Earth rotation compensated) and linear for clocks, uses only epochs around the requested time, and reports no result outside the data span or when values are missing.',
     ['inputs'], 'arbitrary positions/clocks at the nodes and request times', 'tests interpolate one file at one epoch',
     ['peph.py'], [('parse_sp3, pephpos, pephclk, interppol', 'peph.py')])
prop('C26', 'Bias-SINEX and ANTEX lookups return the record valid at the epoch',
     'A code or phase bias is returned only from a record of the same satellite/station and signal whose validity interval contains the epoch; antenna phase centre lookups use the antenna valid at the epoch and interpolate linearly in nadir/zenith angle.',
     ['inputs'], 'arbitrary validity intervals and values', 'tests check one record',
     ['peph.py'], [('biasdec.getosb/getdsb, searchpcv, antModelTx/Rx', 'peph.py')])
prop('C27', 'Navigation message authentication accepts only authentic data',
     'Galileo OSNMA reports navigation data authentic only if the tag computed with the authenticated chain key over exactly the received navigation bits verifies (self, cross and slow-MAC tags, every supported tag and key length), MAC sequence and look-up table included. A chain key is accepted only if it leads by the one-way function to an already verified key or to a root key whose signature verifies, and a renewed root key or public key has to be verified again.',
     ['inputs', 'histories', 'fault_sequences'], 'arbitrary received bits, cryptographic primitives uninterpreted', 'tests do not exercise authentication',
     ['osnma.py'], [('verify_*, decode_*', 'osnma.py')])
prop('C28', 'Raw navigation frames decode to the broadcast parameters',
     'GPS LNAV/CNAV, Galileo I/NAV and F/NAV, BeiDou D1/D2 and CNAV, GLONASS, QZSS, NavIC and SBAS navigation frames decode to the parameter values their bits encode in ICD units, and an ephemeris is delivered only when all its parts belong to the same issue.',
     ['inputs', 'histories'], 'every bit pattern of every field', 'tests decode no raw frames',
     ['rawnav.py'], [('decode_*', 'rawnav.py')])
prop('C29', 'SBAS L1 messages decode and the ionospheric grid interpolates correctly',
     'SBAS messages update fast, long-term and ionospheric corrections of exactly the satellites or grid points they name and only when issue numbers match the active mask; the interpolated vertical delay is a convex combination of the surrounding valid grid points and equals a grid point at that point.',
     ['inputs', 'histories'], 'all field values and pierce points', 'tests decode no SBAS message',
     ['sbas.py'], [('decode_*, searchIGP, ionoSBAS', 'sbas.py')])
prop('C30', 'SLAS (DGPS) messages decode to the transmitted corrections',
     'QZSS SLAS messages yield the pseudorange corrections, monitoring-station positions and masks their bits encode, for exactly the satellites in the active mask and only when the issue numbers match.',
     ['inputs', 'histories'], 'all field values', 'tests decode no SLAS message',
     ['dgps.py'], [('decode_*', 'dgps.py')])
prop('C33', 'Coordinate and geometry identities hold',
     'The local east/north/up frame is orthonormal and right-handed with up along the ellipsoid normal, geometric range includes the Earth-rotation correction and its unit vector has length one, and geodetic coordinates convert back to the same Cartesian position.',
     ['inputs'], 'all latitudes/longitudes and positions', 'tests check one site',
     ['gnss.py'], [('xyz2enu, geodist, satazel, ecef2pos/pos2ecef', 'gnss.py')])
prop('C34', 'Troposphere, tide, wind-up and Earth rotation follow the published models',
     'Zenith tropospheric delays and mapping functions (Saastamoinen/Niell, Hopfield, SBAS) follow their published formulas for every latitude, day of year, height and elevation, and vanish below the horizon. The phase wind-up is the effective dipole angle, continued across cycles without jumps; solid Earth tide displacements, the celestial to Earth-fixed rotation and the sun and moon positions at a UTC time follow the IERS/IAU conventions.',
     ['inputs'], 'all latitudes, elevations and accumulated phases', 'tests compare single values for one site and epoch',
     ['gnss.py', 'ppp.py', 'peph.py'], [('tropmodel, tropmapf', 'gnss.py'), ('windupcorr, solid_tide, eci2ecef, sunmoonpos', 'ppp.py')])
prop('C09', 'RTCM station, text and network-RTK messages decode to the sent values',
     'RTCM station messages (antenna position and height, antenna and receiver descriptions, GLONASS code-phase biases), text and network-RTK residual messages yield the values, strings and satellites their bits encode; the epoch read ahead of decoding (SSR, MSM, network RTK) is the one the message states, and messages without an epoch are reported as such.',
     ['inputs'], 'every value of every field, every time of week', 'tests decode no RTCM station message',
     ['rtcm.py'], [('decode_sta_pos, decode_ant_desc, decode_glo_bias, decode_unicode_text, decode_nrtk_residual, decode_time', 'rtcm.py')])
prop('C32', 'RTCM SSR grid, troposphere, ionosphere and metadata messages decode exactly',
     'A grid definition, tropospheric or ionospheric correction sent by the RTCM SSR encoder is received for the same network, grid points and satellites with every value within half a unit of its field, missing values staying missing and no error accumulating along the grid; residuals follow the announced length and resolution, and metadata entries are skipped by their own lengths.',
     ['inputs'], 'every value in the range of its field, every subset of parts', 'tests use no RTCM SSR atmosphere message',
     ['rtcm.py'], [('encode/decode_ssr_grid, _trop, _iono, _metadata', 'rtcm.py')])
prop('C35', 'QZSS navigation message authentication accepts only signed data',
     'A GPS, Galileo or QZSS navigation message is reported authentic only if the received digital signature verifies with the key it names over the message the receiver holds: every bit that carries a parameter is covered, parity bits are not, and a signature counts only for the frames that follow it (QZSS) or the satellite, message type and issue of data it names (GPS, Galileo).',
     ['inputs', 'histories', 'fault_sequences'], 'arbitrary navigation bits, signatures and message histories; signature primitive uninterpreted', 'tests do not exercise authentication',
     ['qznma.py'], [('decode, gen_rds, *_to_mnav, verify_*', 'qznma.py')])
prop('C36', 'Almanacs are read and propagated as published',
     'YUMA and Galileo XML almanacs yield, for every satellite, exactly the published parameters, health and reference epoch, the truncated week number being resolved to the week meant; the almanac nearest to the requested time, and not older than the limit, is selected, and its position and clock are those of the Kepler orbit it describes at any time.',
     ['inputs'], 'every value of the parameters, every week number and age', 'tests read no almanac',
     ['ephemeris.py'], [('loadyuma, loadXmlAlmanac, findalm, alm2pos', 'ephemeris.py')])
prop('C37', 'Disaster reports decode to the reported event',
     'Every JMA disaster report (DC report: earthquake, hypocenter, intensity, Nankai trough, tsunami, volcano, ash fall, weather, flood, typhoon, marine) and every common alert message (EWSS CAMF) yields the event its bits encode: report, occurrence and arrival times, position, magnitude and depth, codes and regions of the records present in transmission order, target ellipse with its refinement, onset in the week meant and the quantitative settings of its hazard; pages of a text report are put in place, and unknown report types change nothing.',
     ['inputs', 'histories'], 'every value of the fields of one message', 'tests decode no disaster report (the text tables are not part of the tree)',
     ['ewss.py'], [('jmaDec.decode_*, camfDec.decode, decode_ext', 'ewss.py')])
