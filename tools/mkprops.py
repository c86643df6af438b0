"""Writes properties.jsonl and MANIFEST.json (run by hand after editing the texts below)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = 'src/itmlogic/'
A = S + 'diffraction_attenuation/'
P = S + 'preparatory_subroutines/'
T = S + 'statistics/'
SC = S + 'scatter_attenuation/'
M = S + 'misc/'
RUN = ['scripts/area.py', 'scripts/area_2tiles.py', 'scripts/p2p.py', 'scripts/p2p_2tiles.py', 'scripts/pimter.py']
FEW = 'the existing tests call it with a handful of fixed numbers and compare against values recorded from the same code'

# id, title, statement, over, quantifier text, why, files, mechanism [(name, where)], observe_at, level_note
PROPS = [
 ('C01', 'Diffraction attenuation follows the ITM algorithm',
  'For every frequency, earth curvature, horizon geometry, terrain irregularity and ground impedance, the knife-edge attenuation, the height-gain function, the constants set up for a path and the diffraction attenuation at a distance beyond the horizons are the values of sections 4.8 to 4.18 and 6 of the ITM algorithm (v1.2.2). '
  'The parameters describing the path are not altered by evaluating it.',
  ['inputs'], 'every real input in the routine\'s domain, in area and point-to-point mode', FEW,
  [A + 'aknfe.py', A + 'fht.py', A + 'adiff.py'],
  [('knife-edge (Fresnel) approximation', A + 'aknfe.py:aknfe'), ('height gain over a smooth earth', A + 'fht.py:fht'), ('mixing of knife-edge and smooth-earth diffraction', A + 'adiff.py:adiff')],
  ['return value of adiff, aknfe, fht', 'wd1, xd1, afo, qk, aht, xht']),
 ('C02', 'Line-of-sight attenuation follows the ITM algorithm',
  'For every distance, pair of antenna heights, frequency, terrain irregularity and complex ground impedance, the line-of-sight attenuation is the two-ray value of the ITM algorithm weighted with the extrapolated diffraction attenuation. Evaluating it changes none of the path parameters.',
  ['inputs'], 'every real input in the domain', FEW, [S + 'los_attenuation/alos.py'],
  [('two-ray field with effective reflection coefficient', S + 'los_attenuation/alos.py:alos')], ['return value of alos']),
 ('C03', 'Tropospheric scatter attenuation follows the ITM algorithm',
  'For every angular distance, refractivity, frequency and pair of effective heights, the attenuation function F(theta d), the frequency gain function and the scatter attenuation have the values of the ITM algorithm, and where scatter is undefined the result says so (1001 dB). The frequency gain carried between the two evaluations of a path is the one the algorithm prescribes.',
  ['inputs', 'histories'], 'every real input, after every earlier frequency gain', FEW, [SC + 'ahd.py', SC + 'h0f.py', SC + 'ascat.py'],
  [('F(theta d) table', SC + 'ahd.py:ahd'), ('H01 interpolation', SC + 'h0f.py:h0f'), ('scatter attenuation', SC + 'ascat.py:ascat')], ['ascat1 and h0s of the result']),
 ('C04', 'Reference attenuation is assembled as the ITM algorithm prescribes',
  'For every path and distance, the reference attenuation is the piecewise function of distance of the ITM algorithm: line of sight (linear plus logarithm) inside the smooth-earth horizons, diffraction line, then scatter line, with the algorithm\'s choice of fitting points, slopes and break points; it is the same whether the distance is passed (area mode) or derived from a profile (point-to-point mode).',
  ['inputs'], 'every path inside the model\'s limits, in both modes, near and far of the horizons', FEW, [S + 'lrprop.py'],
  [('set-up, line of sight, diffraction and scatter pieces', S + 'lrprop.py:lrprop')], ['aref, dist and the coefficients in the result']),
 ('C05', 'Reference attenuation is never negative and has no steps',
  'For every path and distance the reference attenuation is not negative; as a function of distance it has no step where line of sight passes into diffraction or diffraction into scatter, and scatter takes over only beyond the smooth-earth horizons.',
  ['inputs'], 'every path inside the model\'s limits and every distance', 'a test sees single distances; the statement is about the whole curve', [S + 'lrprop.py'],
  [('common value at the joints; clamp at zero', S + 'lrprop.py:lrprop')], ['aref']),
 ('C06', 'A distance\'s attenuation does not depend on the distances before it',
  'In a sequence of area-mode distances on one path, each distance gets the reference attenuation a fresh evaluation would give it, whatever distances (including the initialising zero) were evaluated before, in any order. A parameter set reused for a new path (area or point-to-point) gives what a fresh parameter set gives.',
  ['histories', 'inputs'], 'every sequence of 2, some of 3 (thorough: every one of 3) distances, every pair of paths sharing a parameter set', 'the tests evaluate one increasing sequence of one path', [S + 'lrprop.py'],
  [('coefficients cached in the parameter set between calls', S + 'lrprop.py:lrprop')], ['aref after a sequence of calls']),
 ('C07', 'The warning marker reports exactly the limits that were exceeded',
  'The warning marker is the worst of the warnings the ITM algorithm gives for frequency, heights, take-off angles, horizon distances, refractivity, earth curvature, ground impedance, distance, climate, mode and deviates, and of what it was before; it never falls during a sequence of distances on a path.',
  ['inputs', 'histories'], 'every combination of parameter values on either side of every limit', FEW, [S + 'lrprop.py', T + 'avar.py'],
  [('limit checks', S + 'lrprop.py:lrprop'), ('deviate, climate and mode checks', T + 'avar.py:avar')], ['kwx']),
 ('C08', 'Reciprocity: exchanging the terminals changes nothing',
  'Exchanging the two terminals (heights, horizons, angles; for point-to-point also reversing the terrain profile) leaves every attenuation, its quantiles, the terrain irregularity, the fitted line and the warning marker unchanged, and exchanges the terminals\' horizons and effective heights.',
  ['inputs'], 'every path and its mirror image', 'no test evaluates a path in both directions',
  [A + 'adiff.py', S + 'los_attenuation/alos.py', SC + 'ascat.py', S + 'lrprop.py', P + 'hzns.py', P + 'zlsq1.py', P + 'dlthx.py', P + 'qlrpfl.py', T + 'avar.py'],
  [('symmetric treatment of terminals 0 and 1', 'all routines')], ['results of both directions']),
 ('C09', 'Quantiles of attenuation follow the ITM variability model',
  'For every climate, mode of variability, distance, antenna heights, frequency and terrain irregularity, the attenuation not exceeded for given time, location and situation deviates is that of section 5 of the ITM algorithm, including the correction of negative attenuations, the treatment of each mode and invalid climate or mode codes; the path parameters are left alone.',
  ['inputs', 'configurations'], 'every real input, climates -1 to 12, modes -1 to 45', FEW, [T + 'avar.py', T + 'curv.py'],
  [('climate curves', T + 'curv.py:curv'), ('variability of time, locations and situations', T + 'avar.py:avar')], ['return value of avar']),
 ('C10', 'A less demanding quantile never has more attenuation',
  'For fixed path, climate and mode, the quantile of attenuation does not rise when the time, location or situation deviate rises, has no upward step at the break points of the time distribution, and does not fall when the reference attenuation rises.',
  ['inputs'], 'all deviates up to 3.1, every mode, climates 1 to 7, all values of the climate curves', 'the tests sample a few quantiles', [T + 'avar.py'],
  [('combination of deviates', T + 'avar.py:avar')], ['return value of avar for two deviates']),
 ('C11', 'A requested refresh brings the variability up to date',
  'After an earlier evaluation, changing the parameters that a refresh level covers and requesting that level gives the quantile a fresh evaluation of the present parameters gives; the request is cleared, and further quantiles without a request do not depend on the quantiles asked for before.',
  ['histories', 'inputs'], 'every pair of parameter sets, every refresh level 0 to 5', 'the tests never evaluate twice with different parameters', [T + 'avar.py'],
  [('lvar levels and cached coefficients', T + 'avar.py:avar')], ['return value of the second call, lvar']),
 ('C12', 'System parameters follow from frequency, elevation, refractivity and ground',
  'For every frequency, mean elevation, surface refractivity reduced to sea level, polarisation, permittivity and conductivity, the wave number, earth curvature, local refractivity and complex surface impedance are those of the ITM algorithm; they are finite, with positive wave number, curvature and (for horizontal and vertical polarisation) impedance in the right half plane.',
  ['inputs'], 'every real input in the domain, each polarisation', FEW, [P + 'qlrps.py'], [('system parameters', P + 'qlrps.py:qlrps')], ['wn, gme, ens, zgnd']),
 ('C13', 'Area-mode terminals follow from siting criteria',
  'For every pair of antenna heights, siting criteria and terrain irregularity, effective heights, horizon distances and take-off angles are those of the ITM algorithm; careful siting never lowers a terminal and gains a bounded height; the mode flags, climate and refresh level requested for the variability are those the algorithm prescribes.',
  ['inputs', 'configurations'], 'every real input, siting -1 to 3, all flag values', FEW, [P + 'qlra.py'], [('siting', P + 'qlra.py:qlra')], ['he, dl, the, mdp, lvar, mdvar, klim']),
 ('C14', 'Horizons found in a terrain profile are the true radio horizons',
  'For every profile, antenna heights and earth curvature, each terminal\'s horizon angle is the largest angle under which any other profile point or the other antenna appears, and its horizon distance is that of a point seen under this angle; the profile and heights passed in are not changed.',
  ['inputs'], 'every profile of up to 5 (thorough: 6) intervals; any two heights of profiles of 40 and 650 intervals', FEW, [P + 'hzns.py'], [('sweep over the profile', P + 'hzns.py:hzns')], ['the, dl']),
 ('C15', 'The line fitted to a profile is the least-squares line',
  'For every profile and interval the fitted end heights are the ITM algorithm\'s least-squares line through the samples of the interval (widened to two samples if need be, clipped to the profile); a straight profile is its own fit, and the profile is not changed.',
  ['inputs'], 'every profile of up to 5 (thorough: 10) intervals and every interval on it; every height of profiles of 20 to 640 intervals', FEW, [P + 'zlsq1.py'], [('closed-form fit', P + 'zlsq1.py:zlsq1')], ['z0, zn']),
 ('C16', 'Terrain irregularity is the interdecile range of detrended terrain',
  'For every profile and interval, the terrain irregularity is the ITM algorithm\'s: resample, remove the least-squares line, take the interdecile range, correct for path length. Straight terrain has none, adding a ramp to the terrain does not change it, it is never negative, and the profile is not changed.',
  ['inputs'], 'every set of heights on profiles of 2 to 60 (partly free: 650) intervals', FEW, [P + 'dlthx.py'], [('resampling, detrending, order statistics', P + 'dlthx.py:dlthx')], ['return value of dlthx']),
 ('C17', 'Point-to-point path parameters follow from the terrain profile',
  'For every terrain profile and pair of antenna heights, path length, terrain irregularity, effective heights, horizon distances and angles are those the ITM algorithm derives, on line-of-sight and obstructed paths; the reference attenuation is evaluated for exactly these, and the mode, climate and refresh level handed to the variability are those the algorithm prescribes.',
  ['inputs', 'configurations'], 'profiles of 1 to 623 (thorough: 1300) intervals, all flag values', 'the repository\'s own test of this routine fails', [P + 'qlrpfl.py'], [('path set-up from a profile', P + 'qlrpfl.py:qlrpfl')], ['dist, dh, he, dl, the, mdp, lvar, mdvar, klim, aref']),
 ('C18', 'Normal probabilities and deviates are those of the ITM approximations',
  'For every deviate the complementary normal probability, and for every level the deviate (rounded to four decimals), are the values of the approximations the ITM algorithm names; they are antisymmetric about one half, probabilities lie in [0, 1], and each level of a list gets its own deviate without the list being changed.',
  ['inputs'], 'every real deviate and level', FEW, [M + 'qerf.py', M + 'qerfi.py'], [('rational approximations', M + 'qerf.py:qerf'), ('inverse', M + 'qerfi.py:qerfi')], ['return values']),
 ('C19', 'The order statistic is the requested rank, and data stay in place',
  'For every list of numbers (ties included) and every rank, the quantile routine returns the element of that rank counted from the largest, leaving the caller\'s list as it was.',
  ['inputs'], 'every list of up to 4 (thorough: 5) values, every rank; lists of up to 620 (thorough: 1300) with two values varying', FEW, [M + 'qtile.py'], [('selection', M + 'qtile.py:qtile')], ['return value, list passed in']),
 ('C20', 'Each row a runner outputs is the prediction it is labelled with',
  'The area, point-to-point and PIMTER runners output, for every user input, one row per distance or reliability and confidence level (for PIMTER per receiver height), and each row\'s basic transmission loss is the free-space loss plus the ITM quantile for exactly that row\'s distance, height, reliability and confidence, the user\'s terrain, antenna heights, frequency, polarisation, and the script\'s documented climate and ground.',
  ['inputs'], 'every user input; all 66 area rows, 15 point-to-point rows (profiles up to 620, thorough 1300 intervals), 121 PIMTER rows (up to 130)', 'the tests exercise their own copies of the runners, not the scripts', RUN,
  [('assembly of inputs and rows', 'scripts/*.py:itmlogic_area, itmlogic_p2p, run_itmlogic')], ['returned rows']),
 ('C21', 'Terrain is sampled along the whole path and over the whole cell',
  'The profile of a path has between 2 and 600 samples, more for longer paths as the published curve prescribes, evenly spaced from the transmitter to the receiver inclusive, each carrying the elevation at its point, and the distance returned is the geodesic length. The irregularity of an area is the interdecile range, to whole metres, of the elevations inside the disc of the cell range around the site, cells outside it left out.',
  ['inputs'], 'every site and line, every plane terrain; every set of up to 4 (thorough: 6) elevations', 'no test covers the sampling of real rasters', ['scripts/terrain_module.py'],
  [('sampling', 'scripts/terrain_module.py:terrain_p2p, determine_num_samples'), ('zonal statistics', 'scripts/terrain_module.py:terrain_area, interdecile_range')], ['profile, distance, points; irregularity']),
 ('C22', 'A result depends on the arguments of its call alone',
  'Every public routine and runner gives the same result for the same arguments whatever was computed before with other arguments, an earlier result is not changed by a later call, and arguments passed in are not modified (apart from the results a parameter set is defined to carry). A runner called again with the same user parameters, changed or not, gives what a fresh call gives.',
  ['histories', 'inputs'], 'every pair of calls of each routine whose arguments differ in one group of parameters', 'the tests call each routine once', [S + 'lrprop.py', S + 'diffraction_attenuation', S + 'los_attenuation', S + 'scatter_attenuation', S + 'statistics', S + 'preparatory_subroutines', S + 'misc'] + RUN,
  [('no module-level state; parameter sets owned by the caller', 'all routines')], ['results and arguments of repeated calls']),
 ('C23', 'Valid arguments always have a finite real result',
  'For every argument in its documented range, each routine (line-of-sight attenuation and reference attenuation excepted) and each runner returns, without an exception, finite real numbers.',
  ['inputs'], 'every real input in the documented ranges', 'a test reaches single points', [S + 'diffraction_attenuation', S + 'scatter_attenuation', S + 'statistics', S + 'preparatory_subroutines', S + 'misc'] + RUN,
  [('guards against empty intervals, zero denominators, logarithms of zero', 'all routines')], ['return values, exceptions']),
 ('C24', 'Result files hold exactly the rows and features they were given',
  'The CSV a runner writes has a heading naming the columns and one record per row, in order, each value under its own column and equal to the value given (no rounding, zero and negative values and text with separators included); the shapefile has one feature per feature given, with its position, all its properties and the coordinate system asked for. The file is written in the folder asked for (made if missing), replaces an older file of that name and nothing else; the rows given are not changed.',
  ['inputs', 'histories'], 'every set of numeric values of up to 3 (thorough: 20) rows or features, with and without an older file or folder', 'no test reads back what the scripts write',
  ['scripts/area.py', 'scripts/area_2tiles.py', 'scripts/p2p.py', 'scripts/p2p_2tiles.py'], [('writers', 'scripts/*.py:csv_writer, write_shapefile')], ['files in a scratch results folder']),
 ('C25', 'A script run as a program writes its prediction for its terrain',
  'Each example program (area, area_2tiles, p2p, p2p_2tiles), run in a folder holding just its elevation model, runs to the end and writes its results file with the predictions of the model for the program\'s site or path, the terrain irregularity of the elevations around the transmitter (area programs), and shapefiles with the sites and the sampled terrain points (point-to-point programs).',
  ['inputs'], 'every set of 2 (thorough: 4) elevations of the cell; every plane terrain under the path', 'no test runs the programs',
  ['scripts/area.py', 'scripts/area_2tiles.py', 'scripts/p2p.py', 'scripts/p2p_2tiles.py'], [('main programs', 'scripts/*.py:__main__')], ['results/*.csv, data/processed/shapes/*.shp']),
 ('C26', 'The report of a point-to-point run describes the path it predicts',
  'A point-to-point run prints what kind of path it predicts: line of sight, single horizon or double horizon, according to whether the path is shorter than, as long as (to half a profile step) or longer than its two horizon distances together; for the latter two the dominant mode, which is tropospheric scatter beyond the scatter onset and diffraction otherwise; the free-space loss of the path; and the confidence levels of the rows.',
  ['inputs'], 'every user input, profiles of 1 to 156 (thorough: 620) intervals', 'no test looks at what is printed', ['scripts/p2p.py', 'scripts/p2p_2tiles.py'],
  [('classification and printed summary', 'scripts/p2p.py:itmlogic_p2p'), ('classification and printed summary', 'scripts/p2p_2tiles.py:itmlogic_p2p')], ['standard output of the runner']),
]

NOTE = ('The source under /repo is loaded at every run and executed symbolically over real-valued inputs; every feasible path is explored within the bounds and every goal is closed by polynomial/congruence normalisation '
        'or refuted by z3 (thorough tier: a sample of the refutations is repeated with cvc5). Counterexamples are replayed on the unmodified code and only reported if it fails there. '
        'Reals stand for doubles (rounding and overflow outside the claim); exp/log/sin/cos and roots are seen through sound axioms. ')
EXTRA = {
 'C03': 'The scatter routine is checked with the frequency gain and F routines uninterpreted; those are checked on their own.',
 'C04': 'Diffraction, line-of-sight and scatter leaves are uninterpreted functions of the parameters they read (their values are C01 to C03).',
 'C05': 'Leaves uninterpreted as in C04.', 'C06': 'Leaves uninterpreted as in C04; sequences bounded in length.',
 'C07': 'Groups of up to four limits free at a time, the others inside their limits.',
 'C08': 'Composed: each leaf is symmetric, and the assembly is symmetric over uninterpreted symmetric leaves. Ties of horizon points excluded.',
 'C09': 'Climate curve uninterpreted inside the quantile; checked on its own.', 'C10': 'By the sign of the symbolic derivative on each piece, and joints.',
 'C16': 'The order statistic is abstracted (C19).', 'C17': 'Horizon, fit and irregularity routines uninterpreted (C14 to C16).',
 'C20': 'Preparation, attenuation and quantile routines abstracted by uninterpreted functions that keep their calling protocol; replays compare the whole real chain with the whole reference model.',
 'C21': 'Geometry, projection and raster packages replaced by small models symbolically; replays run the real packages on scratch rasters.',
 'C22': 'Two calls, one parameter group differing; other parameters partly at nominal values.',
 'C24': 'The real csv module and file system (a scratch folder) are used, symbolic numbers written as tokens; fiona is replaced by a model of its field types, and replays use the real fiona.',
 'C25': 'Prediction routines abstracted as in C20, geometry and raster packages as in C21, files as in C24.',
 'C26': 'Prediction routines abstracted as in C20; replays compare the real print-out with the whole reference model.',
 'C23': 'Line-of-sight and reference attenuation left out: their denominators can vanish on sets of measure zero.',
}

NOT_APPLICABLE = [
]


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for i, title, st, over, qt, why, files, mech, obs in PROPS + [x[:9] for x in NOT_APPLICABLE]:
            assert len(title) <= 80, title
            f.write(json.dumps({'id': i, 'title': title, 'statement': st, 'quantifier': {'over': over, 'text': qt}, 'why_tests_cant': why,
                                'anchors': {'files': files, 'mechanism': [{'name': a, 'where': b} for a, b in mech], 'observe_at': obs, 'hook_needed': None}}) + '\n')
    m = {'version': 1, 'setup_cmd': 'python3-vt check.py --setup',
         'checks': [{'property': p[0], 'quick_cmd': 'python3-vt check.py %s --tier quick' % p[0], 'thorough_cmd': 'python3-vt check.py %s --tier thorough' % p[0],
                     'technique': 'symbolic execution of the Python source + SMT (z3) over all real inputs in bounds', 'level': 'model_checking',
                     'level_note': NOTE + EXTRA.get(p[0], '')} for p in PROPS],
         'not_applicable': [{'property': x[0], 'reason': x[9]} for x in NOT_APPLICABLE],
         'notes': 'See DESIGN.md. No hooks: /repo carries only fix commits.'}
    json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)


main()
