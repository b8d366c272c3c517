"""Source of properties.jsonl and MANIFEST.json (run tools/gen.py after editing)."""

P = []          # claimed properties
NA = []         # properties the technique cannot decide here


def prop(id, title, statement, over, qtext, why, files, mechanism, observe, level_note,
         state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier={'over': over, 'text': qtext}, why_tests_cant=why,
                  anchors=dict(files=files,
                               mechanism=[{'name': n, 'where': w} for n, w in mechanism],
                               state=[{'name': n, 'meaning': m, 'where': w}
                                      for n, m, w in (state or [])],
                               observe_at=observe, hook_needed=hook),
                  level_note=level_note))


def na(id, title, statement, over, qtext, why, files, mechanism, observe, reason):
    NA.append(dict(id=id, title=title, statement=statement,
                   quantifier={'over': over, 'text': qtext}, why_tests_cant=why,
                   anchors=dict(files=files,
                                mechanism=[{'name': n, 'where': w} for n, w in mechanism],
                                observe_at=observe, hook_needed=None),
                   reason=reason))


# ------------------------------------------------------------- track catalogue
prop('C01', 'The synthetic catalogue depends on seeds and settings only',
     'Each simulation of the synthetic track catalogue is determined by the seeds, the '
     'settings and its own number: it is the same, value for value, for any number of '
     'processes, any interleaving, any clock, and any number of other simulations in the '
     'run. Every simulation is generated exactly once and stored under its own number with '
     'its cyclones numbered consecutively; no two cyclones of a catalogue are the same. The '
     'number of cyclones follows the season seed alone, the tracks change with the track '
     'seed.',
     ['inputs', 'schedules', 'configurations'],
     'seeds, numbers of simulations and years, frequencies, process counts (also more than '
     'simulations), interleavings, message orders, clocks',
     'Tests generate single values with a fixed random state; none generates a catalogue or '
     'runs in parallel.',
     ['TrackGenerator/TrackGenerator.py', 'Utilities/tcrandom.py', 'Utilities/track.py'],
     [('every simulation has its own random stream', 'TrackGenerator/TrackGenerator.py run'),
      ('simulations are split over the processes by position',
       'TrackGenerator/TrackGenerator.py balanced')],
     ['tracks/*.nc'],
     'Seeded search against a single-process catalogue of the same program with more '
     'simulations; not exhaustive. Calibration inputs come from the program itself.')

prop('C02', 'A track generation run leaves its own complete catalogue or reports failure',
     'After a track generation run that reports success the catalogue is exactly the one '
     'for its seeds and settings: nothing missing, damaged, or left over from earlier runs '
     'with other settings or from interrupted ones. A run that is killed or hits a failing '
     'file operation reports failure or still delivers the complete catalogue; a track file '
     'that can be read is complete at every moment. Running the stage again gives the '
     'complete catalogue.',
     ['crash_points', 'fault_sequences', 'histories', 'schedules'],
     'histories of runs with changing settings x crash point or failing operation x process '
     'count',
     'Tests never interrupt a run, repeat it over earlier output or make an operation fail.',
     ['TrackGenerator/TrackGenerator.py', 'Utilities/track.py', 'tcrm.py'],
     [('final name only when complete', 'Utilities/track.py ncSaveTracks'),
      ('earlier tracks are removed first', 'TrackGenerator/TrackGenerator.py run')],
     ['tracks/*.nc', 'exit status'],
     'Fault points enumerated in a serial run, sampled in parallel runs and histories.')

# ------------------------------------------------------------------- wind fields
prop('W01', 'One wind field per cyclone, independent of how the run is parallelised',
     'For every set of cyclone tracks the wind field stage produces exactly one wind field '
     'file for each cyclone that affects the region and none for any other, each named '
     'after its own cyclone and recording the track file it came from. Each field equals, '
     'value for value, the field the same cyclone gets when it is the only one and is '
     'computed by a single process. This holds for any number of processes, any '
     'interleaving and message order, and any order in which directories are listed.',
     ['inputs', 'schedules', 'configurations'],
     'all track sets (files x tracks per file), process counts, message orders, buffering '
     'of sends, directory orders, wind model choices',
     'The tests compute single wind profiles and fields in one process; no test runs the '
     'stage with more than one process or more than one track file.',
     ['wind/__init__.py', 'Utilities/track.py', 'Utilities/parallel.py'],
     [('tracks are split over the processes by position',
       'wind/__init__.py balanced, dumpGustsFromTracks, loadTracksFromFiles'),
      ('file name carries the track identity', 'wind/__init__.py dumpGustsFromTracks')],
     ['windfield/*.nc in the output directory'],
     'Seeded search over schedules and track sets against a single-process single-cyclone '
     'reference; not exhaustive. Trusts the MPI model and the netCDF library.')

prop('W02', 'Interrupted wind field runs resume to the same complete set',
     'If the wind field stage is killed at any moment, running it again with the same '
     'configuration completes the set: every field, and every saved time step if requested, '
     'is complete and equal to that of an uninterrupted run, and none is missing. Fields that were '
     'finished before the interruption are kept and not computed again. This holds for '
     'repeated interruptions and for any number of processes before and after.',
     ['crash_points', 'schedules', 'histories'],
     'every file operation as a crash point, torn writes, one process dying before the '
     'others, sequences of interruptions',
     'No test interrupts a run; a partially written file only appears at particular '
     'instants of a real run.',
     ['wind/__init__.py', 'Utilities/nctools.py'],
     [('existing output is recognised and skipped', 'wind/__init__.py saveGustToFile/generateGusts'),
      ('output appears under its final name only when complete', 'wind/__init__.py saveGustToFile')],
     ['windfield/*.nc after the rerun'],
     'Crash points enumerated by operation number in a serial run, sampled in parallel '
     'runs. Crash model: processes die, data handed to the operating system survives.')

prop('W03', 'A failed write during wind field generation is never silent',
     'If any file operation of the wind field stage fails (disk full, I/O error, permission '
     'denied), the run either still delivers the complete correct set or ends by reporting '
     'failure to whoever started it. It never ends in apparent success with fields missing, '
     'truncated or wrong. A later run on a healthy disk completes the set.',
     ['fault_sequences', 'schedules'],
     'every file operation of the stage x error kind x transient or lasting, any number of '
     'processes',
     'Tests never make a file operation fail.',
     ['wind/__init__.py', 'Utilities/nctools.py', 'tcrm.py'],
     [('errors propagate to the entry point', 'tcrm.py startup'),
      ('final name only when complete', 'wind/__init__.py saveGustToFile')],
     ['exit status of the job', 'windfield/*.nc'],
     'Fault points enumerated in a serial run, sampled in parallel runs.')

# ----------------------------------------------------------------------- hazard
prop('W04', 'Station time series hold every cyclone exactly once',
     'When time series at stations are requested, the station files hold one row per station '
     'for every time step of every cyclone, and the extreme files the highest wind and lowest '
     'pressure over all cyclones, whatever the number of processes. The same holds after a run '
     'was interrupted and repeated, with the wind fields unaffected. A failed write of these '
     'files is reported, never passed over.',
     ['schedules', 'fault_sequences', 'inputs'],
     'any track set, 1 to 6 processes, any schedule, interruption or failing file operation '
     'at any point; station lists as csv or shapefile',
     'The tests never extract station time series at all.',
     ['Utilities/timeseries.py', 'wind/__init__.py', 'tcrm.py'],
     [('station data of all processes written by one', 'Utilities/timeseries.py shutdown'),
      ('fields needed for time series are recalculated', 'wind/__init__.py dumpGustsFromTracks')],
     ['process/timeseries/*.csv', 'process/maxima.csv', 'process/minima.csv', 'windfield/*.nc'],
     'Row order within a file is not compared; any row that attains the extreme is accepted.')

prop('W05', 'Wind fields always belong to the current tracks and settings',
     'After the wind field stage has run, the output folder holds exactly the fields that the '
     'present track files and wind settings give in an empty folder, together with their time '
     'steps if requested. Fields left by earlier '
     'runs with other tracks, other settings or an interruption are never kept as results.',
     ['inputs', 'schedules', 'fault_sequences'],
     'two to four successive runs; track files replaced, added or removed and settings changed '
     'in between; 1 to 4 processes; interruptions in between',
     'No test runs the stage twice in one folder.',
     ['wind/__init__.py', 'Utilities/files.py', 'tcrm.py'],
     [('fields of replaced tracks or settings discarded', 'wind/__init__.py removeOutdatedGusts')],
     ['windfield/*.nc'],
     'Replaced track files carry a later modification time (whole seconds), as any '
     'regenerated file does.')

prop('H01', 'The hazard map does not depend on how the region was split or scheduled',
     'For every set of wind fields the return period wind speed map, its confidence '
     'limits and its distribution parameters computed by any number of processes equal, '
     'cell for cell, those computed by one process. Every cell of the region is evaluated '
     'exactly once from the values of all wind fields at that cell, at the right place, '
     'also along the borders of the pieces the region is split into. Rerunning the same '
     'inputs gives the same map.',
     ['inputs', 'schedules', 'configurations'],
     'region shapes and margins, numbers of simulated years, distributions, process counts, '
     'interleavings, message orders, directory orders',
     'Tests check single statistical functions; none builds a map or runs in parallel.',
     ['hazard/__init__.py', 'hazard/evd.py', 'Utilities/parallel.py', 'Utilities/nctools.py'],
     [('region is cut into tiles that are farmed out and reassembled',
       'hazard/__init__.py TileGrid, calculateHazard')],
     ['hazard/hazard.nc'],
     'Seeded search; each map is compared with a single-process map, which is compared per '
     'cell with an independent calculation for two distributions.')

prop('H02', 'The hazard map file is replaced whole or not at all',
     'Whatever happens while the hazard stage runs (kill, torn write, disk full, I/O '
     'error), the map file afterwards is either the previous map, the new complete map, or '
     'absent if there was none before; it is never a mixture or a fragment. A failure that '
     'kept the new map from being written is reported to whoever started the run. Running '
     'the stage again produces the complete map.',
     ['crash_points', 'fault_sequences', 'schedules'],
     'every file operation of the stage as a crash or failure point, with and without an '
     'earlier map, one or more processes',
     'Tests never interrupt the stage or make its file operations fail.',
     ['hazard/__init__.py', 'Utilities/nctools.py', 'tcrm.py'],
     [('new map is written beside the old one and then renamed',
       'hazard/__init__.py saveHazard')],
     ['hazard/hazard.nc', 'exit status'],
     'Fault points enumerated in a serial run, sampled in parallel runs.')

# --------------------------------------------------------------------- database
prop('P01', 'The model gives the same results however its run is divided',
     'Running the model stages in one go or in any division into consecutive runs, each with '
     'any number of processes, leaves the same calibration files, tracks, wind fields, hazard '
     'map, station series and event database as running them one by one in a single process. '
     'Every such run ends by itself and reports success.',
     ['schedules', 'inputs'],
     'all stages from input data to database, any division, 1 to 6 processes per run, repeated '
     'stages, six sets of settings, one with another layout of the input',
     'Tests run the stages separately and never with more than one process.',
     ['tcrm.py', 'DataProcess/DataProcess.py', 'StatInterface/StatInterface.py',
      'TrackGenerator/TrackGenerator.py', 'wind/__init__.py', 'hazard/__init__.py',
      'database/__init__.py', 'Utilities/parallel.py'],
     [('stages are separated by barriers', 'tcrm.py main'),
      ('single-process stages run on one process only', 'Utilities/parallel.py disableOnWorkers')],
     ['everything below the output folder except logs and plots'],
     'Also varies what freshly allocated memory holds, so that results taken from '
     'uninitialised memory show up.')

prop('P02', 'An interrupted or failed model run is repaired by running it again',
     'If a run of any selection of model stages is killed at any point, or a file operation in '
     'it fails, repeating the same run leaves exactly the results of a run that was never '
     'disturbed. A disturbed run that reports success has already delivered these results, and '
     'no disturbed run hangs.',
     ['fault_sequences', 'schedules'],
     'kills, torn writes, disk full, I/O and permission errors at any file operation of any '
     'stage, 1 to 3 processes, repeated disturbances',
     'Tests never interrupt a run or make a file operation fail.',
     ['tcrm.py', 'DataProcess/DataProcess.py', 'StatInterface/StatInterface.py',
      'TrackGenerator/TrackGenerator.py', 'wind/__init__.py', 'hazard/__init__.py',
      'database/__init__.py'],
     [('failure on one process ends the whole job', 'tcrm.py startup'),
      ('results appear under their name only when complete', 'stage writers')],
     ['everything below the output folder except logs and plots', 'exit status of the job'],
     'Crash model: processes die, data handed to the operating system survives.')

prop('P03', 'A repeated run with other settings leaves nothing of the earlier run',
     'Running the model again in the same output folder with another region, other input '
     'or seasons, calibration, seeds, numbers of simulations, wind or hazard settings leaves '
     'exactly the calibration, tracks, wind fields, hazard map, station series and database rows that these settings give in an empty folder. This also '
     'holds when the earlier run was interrupted.',
     ['inputs', 'fault_sequences', 'schedules'],
     'sequences of two to four runs drawn from nineteen sets of settings, stages in one go or '
     'divided, 1 to 3 processes, interruptions in between',
     'No test runs the model twice in one folder.',
     ['tcrm.py', 'TrackGenerator/TrackGenerator.py', 'wind/__init__.py', 'hazard/__init__.py',
      'database/__init__.py', 'Utilities/timeseries.py'],
     [('old tracks removed before new ones are written', 'TrackGenerator/TrackGenerator.py run'),
      ('outdated wind fields removed', 'wind/__init__.py removeOutdatedGusts'),
      ('tables emptied before they are filled', 'database/__init__.py run')],
     ['process/', 'tracks/', 'windfield/', 'hazard/', 'hazard.db'],
     'Results of stages or options not selected in the later run are not judged.')

prop('E01', 'The evaluation sums up the whole catalogue, however many processes do it',
     'The evaluation of a catalogue against the historical record leaves statistics to which '
     'every simulation contributes exactly once and which agree with the tracks. Grids, '
     'pressure lists, crossing rates, landfall rates and drawn figures are the same for any number of '
     'processes, also when there are more processes than simulations, for any interleaving '
     'and message order, and any order in which directories are listed. Every such run ends.',
     ['schedules', 'inputs', 'configurations'],
     '1 to 12 simulations with 3 to 15 cyclones, 1 to 11 processes, schedules and listing '
     'orders drawn from the seed',
     'No test runs the evaluation, let alone on several processes.',
     ['Evaluate/pressureDistribution.py', 'Evaluate/trackDensity.py',
      'Evaluate/longitudeCrossing.py', 'Evaluate/landfallRates.py',
      'Evaluate/genesisDensity.py'],
     [('master hands out track files, workers return results', 'synthetic methods'),
      ('results kept at the position of their file', 'synthetic methods')],
     ['process/density.nc, genesis_density.nc, lonCrossings.nc, pressureDistribution.nc',
      'process/synCP.csv, histCP.csv', 'data drawn in the figures', 'end of the run'],
     'The random band drawn in the quantile figure is not judged.')

prop('E02', 'A failed evaluation is reported and repaired by running it again',
     'An evaluation that reports success has read every simulation and written every result, '
     'with the values of an undisturbed run. If it is killed at any point or a file operation '
     'fails, running it again leaves these results, and no disturbed run hangs.',
     ['fault_sequences', 'crash_points', 'schedules'],
     'kills, torn writes, disk full, I/O and permission errors at any file operation including '
     'every reading of a simulation, 1 to 4 processes, up to two disturbed runs',
     'No test runs the evaluation or makes a file operation fail.',
     ['Evaluate/pressureDistribution.py', 'Evaluate/trackDensity.py',
      'Evaluate/longitudeCrossing.py', 'Evaluate/landfallRates.py',
      'Evaluate/genesisDensity.py', 'Utilities/nctools.py', 'tcrm.py'],
     [('failure on one process ends the whole job', 'tcrm.py startup')],
     ['exit status of the job', 'result files of the evaluation', 'set of figures'],
     'Crash model: processes die, data handed to the operating system survives.')

prop('F01', 'Hazard figures show the hazard map and the recorded wind speeds',
     'After the hazard plotting stage there is one map per return period with the values of '
     'the hazard map, and for every location with return period wind speeds one curve with '
     'the values at its place, its confidence range and its largest recorded wind speeds, '
     'all in the chosen unit. The figures are the same for any number of processes. '
     'A run that could not read the results or write a figure reports failure, and running '
     'it again completes the figures.',
     ['inputs', 'configurations', 'schedules', 'fault_sequences', 'crash_points'],
     'three sets of model results with and without confidence limits, five units, 1 to 5 '
     'processes, kills, torn writes, disk full, I/O and permission errors at any operation',
     'No test draws hazard figures from model results or makes a file operation fail.',
     ['PlotInterface/AutoPlotHazard.py', 'PlotInterface/curves.py', 'PlotInterface/maps.py',
      'Utilities/metutils.py', 'database/queries.py', 'tcrm.py'],
     [('values are converted to the plot units and drawn',
       'PlotInterface/AutoPlotHazard.py plotMap, plotHazardCurves')],
     ['plots/hazard: data handed to the drawing library', 'exit status of the job'],
     'Drawing itself (pixels) is replaced by a record of the data drawn.')

prop('F02', 'Figures of the observations show the observations',
     'The processed observations hold every position of the input once, and their figures show '
     'them: consecutive pressures, speeds, directions and rates of change against each other, '
     'steps of position, cyclones per year and day, and the lowest pressure of every cyclone, '
     'each without missing values and without data of another figure. This holds for any '
     'number of processes; data that cannot be read or a figure that cannot be written is '
     'reported in the exit status. After an interruption, a failure or a change of the input, '
     'running it again leaves all figures of the present input.',
     ['schedules', 'fault_sequences', 'crash_points', 'inputs', 'histories'],
     'four histories of 25 to 60 cyclones, one with missing pressures, one with other columns '
     'and units including winds and radii, 1 to 4 processes, up '
     'to four runs in one folder, failing reads of every processed file, failing figure '
     'writes, crashes',
     'No test draws these figures, and none looks at what a figure shows.',
     ['PlotInterface/plotStats.py', 'DataProcess/DataProcess.py', 'tcrm.py'],
     [('one process reads the processed observations and draws', 'tcrm.py doDataPlotting')],
     ['plots/stats/*.png', 'process/cyclone_tracks, all_pressure, all_speed, frequency',
      'exit status'],
     'The data handed to the drawing library are judged, not pixels; the random band of a '
     'regression line is not judged.')

prop('L01', 'Every process has its own log where it was configured',
     'In a run with any number of processes each process writes one log file of its own in '
     'the configured folder, which is made if it does not exist, and none anywhere else. '
     'A run that fails has the reason in one of these files. Trouble with the folder or the '
     'files never makes a run hang or change its results.',
     ['schedules', 'configurations', 'fault_sequences'],
     'log folder there, missing, nested or in the output folder; dated names; detail levels; '
     '1 to 8 processes; interleavings down to single file operations; failing operations on '
     'folder, files and results',
     'No test starts the program, and none starts logging from several processes.',
     ['tcrm.py', 'Utilities/files.py'],
     [('every process looks for the log folder and makes it', 'tcrm.py startup'),
      ('each process adds its number to the file name', 'tcrm.py startup')],
     ['files in the log folder and in the working folder', 'exit status of the job'],
     'The folder the program changes to at its start is replaced by a scratch folder.')

prop('D01', 'The event database holds exactly what the model outputs say',
     'After the database stage, the tables of locations, events, wind speeds, return '
     'period wind speeds and track distances hold exactly one row for everything in the '
     'region, the wind fields, the hazard map and the tracks, with the values found '
     'there, and no other rows. Files that are not finished wind fields are ignored. '
     'Content and event numbering are the same for any number of processes, any '
     'interleaving and message order, and any order in which directories are listed.',
     ['inputs', 'schedules'],
     'numbers of wind fields, track files and locations (including none and fewer than '
     'processes), locations on and off the region, process counts, interleavings, message '
     'orders, directory orders',
     'Tests call single queries; none builds the database or runs it in parallel.',
     ['database/__init__.py', 'database/definitions.py', 'Utilities/track.py'],
     [('process 0 hands out files, collects rows and is the only one to store them',
       'database/__init__.py processEvents, processTracks'),
      ('locations are restricted to the region', 'database/__init__.py setLocations')],
     ['hazard.db'],
     'Seeded search over schedules and inputs against rows derived independently from the '
     'generated inputs; not exhaustive.')

prop('D02', 'Rebuilding the event database always ends with the current results',
     'Running the database stage again over an existing database, after an interruption at '
     'any moment, after a failed file operation or after the model outputs or the region '
     'changed, leaves '
     'exactly the rows of the current outputs, nothing doubled and nothing left over. A run '
     'that could not store or read something reports failure; a run that reports success '
     'has a complete database.',
     ['crash_points', 'fault_sequences', 'histories'],
     'histories of builds x crash point or failing operation x changed inputs x process '
     'count',
     'Tests never build the database twice, interrupt it or make an operation fail.',
     ['database/__init__.py'],
     [('derived tables are emptied before they are filled', 'database/__init__.py createDatabase'),
      ('location database appears only when complete',
       'database/__init__.py buildLocationDatabase')],
     ['hazard.db', 'locations.db', 'exit status'],
     'Fault points enumerated for a serial build, sampled otherwise. SQLite itself is real; '
     'the crash model keeps data handed to the operating system.')

# ------------------------------------------------- scenarios, local winds, downloads
prop('V01', 'A scenario run gives exactly the results of the present events',
     'A scenario run that reports success leaves one wind field for every cyclone in its '
     'input (a table or a file of synthetic tracks), computed from a track through the given '
     'records, the time steps and station series if requested, and no results of other '
     'events or settings; all values are those the same input gives in an empty folder. '
     'Each cyclone has the same field whichever other cyclones are in the input and in '
     'whichever form it is given, and the largest wind over its saved time steps is its '
     'field. A run that is killed or meets a '
     'failing file operation reports failure or still delivers this; running again after '
     'it always does.',
     ['inputs', 'fault_sequences', 'crash_points', 'histories'],
     'one to three cyclones out of eight in either form, nine sets of settings (profiles, '
     'resolution, region, stations, time steps), histories of up to four runs in one folder '
     'with crashes and failing operations anywhere',
     'Tests do not run scenarios at all.',
     ['tcevent.py', 'wind/__init__.py', 'Evaluate/interpolateTracks.py', 'Utilities/track.py',
      'Utilities/timeseries.py'],
     [('the events are interpolated to hourly tracks first',
       'Evaluate/interpolateTracks.py parseTracks'),
      ('fields of replaced tracks or settings discarded',
       'wind/__init__.py removeOutdatedGusts')],
     ['windfield/gust.*.nc', 'windfield/evolution.*.nc', 'process/timeseries/'],
     'Seeded search against a run of the same program in an empty folder; one process, as '
     'scenarios are run.')

prop('V02', 'Scenario figures show the results of the present event',
     'A scenario run that reports success leaves, if figures are requested, a map with the '
     'largest winds of its field within the region and one figure for every station with a '
     'series, showing its times, wind speeds, directions and pressures, and no station '
     'figures of other events. Every station has its own figure whatever letters its '
     'identifier has. A run that could not read the results or write a figure reports '
     'failure, and running it again completes the figures.',
     ['inputs', 'configurations', 'histories', 'fault_sequences', 'crash_points'],
     'seven single cyclones in either form, five sets of settings, six stations, histories of up to four '
     'runs in one folder with crashes and failing operations anywhere',
     'No test draws figures from the results of a scenario.',
     ['tcevent.py', 'PlotInterface/plotTimeseries.py', 'PlotInterface/timeseries.py',
      'PlotInterface/maps.py'],
     [('field and series are drawn after the wind stage',
       'tcevent.py doWindfieldPlotting, doTimeseriesPlotting')],
     ['plots: data handed to the drawing library', 'exit status'],
     'Drawing itself (pixels) is replaced by a record of the data drawn; inputs with several '
     'cyclones are not drawn (the program names one field only).')

prop('I01', 'Scenario losses belong to the present events and failures are reported',
     'A scenario run with losses requested that reports success has given the wind field of '
     'every cyclone to the loss program once and leaves one loss file for each, computed from '
     'its field, and no loss files of other events. A run whose loss program is missing or '
     'fails, even after writing some of its result, reports failure, and so does one whose '
     'losses are incomplete because of a failing file operation; running again completes '
     'them. Without the request the loss program is not called.',
     ['inputs', 'configurations', 'histories', 'fault_sequences', 'crash_points'],
     'one to three cyclones out of eight in either form, four sets of settings, the loss '
     'program missing or failing at any of its first three calls, histories of up to four '
     'runs in one folder with crashes and failing operations anywhere',
     'The one test of losses needs the loss program installed, handles one field and never '
     'sees a failure.',
     ['impact/__init__.py', 'tcevent.py'],
     [('every wind field is handed to a command after the wind stage',
       'impact/__init__.py run, impact')],
     ['impact/gust.*.csv', 'calls of the loss program', 'exit status'],
     'The loss program is a stand-in that reads the settings, field and exposure given to it '
     'and writes winds and losses; its own calculation is not part of the repository.')

prop('M01', 'Local wind speeds do not depend on the number or timing of threads',
     'For a wind field and terrain multipliers the local wind speed raster and the '
     'reprojected rasters are the same, cell for cell, for any number of worker threads, any '
     'interleaving of the threads and any size of the pieces the raster is cut into. Every '
     'cell is the regional wind speed times the multiplier for the wind direction of that '
     'cell, and the run always ends. No raster is used by two threads at the same time.',
     ['inputs', 'schedules', 'configurations'],
     'raster shapes, extents given or not, one or two tiles or combined multipliers, both '
     'processing versions, local or remote storage, 1 to 8 threads, piece sizes, thread '
     'interleavings at every line',
     'The tests run it with one input; which interleavings occur is left to the operating '
     'system.',
     ['ProcessMultipliers/processMultipliers.py'],
     [('pieces are handed to threads through a queue and rasters are guarded by locks',
       'ProcessMultipliers/processMultipliers.py processMultiplierSegment')],
     ['local_wind.tif', 'region_wind.tif', 'gust_prj.tif', 'bear_prj.tif', 'uu_prj.tif',
      'vv_prj.tif'],
     'Threads switch between lines of the program and at blocking calls; switches inside a '
     'library call are not explored, instead overlapping use of one raster is reported.')

prop('M02', 'Local wind processing delivers complete rasters or reports failure',
     'A local wind run that reports success has written all its rasters, locally and to the '
     'remote store if requested, complete and with the right values. A failed file operation, '
     'storage request or raster tool that keeps a raster from being right is reported in the '
     'exit status, and the run always ends. Running it again after an interruption or failure '
     'gives the complete rasters.',
     ['crash_points', 'fault_sequences', 'schedules', 'histories'],
     'crash or failing operation at any write, failing storage requests and raster tools, one '
     'to three runs in one folder, thread interleavings',
     'Tests never make a write, a request or a tool fail.',
     ['ProcessMultipliers/processMultipliers.py'],
     [('failures end the run with a status', 'ProcessMultipliers/processMultipliers.py run'),
      ('incomplete rasters are replaced',
       'ProcessMultipliers/processMultipliers.py removeExisting')],
     ['exit status', '*.tif', 'objects in the store'],
     'The object store and the raster commands are stand-ins; a stream that failed to write '
     'stays failed.')

prop('N01', 'A data set is either downloaded completely or not there',
     'After a run that was to fetch its input data, every data file either holds exactly the '
     'published content or does not exist; a fragment is never taken for the file. A transfer '
     'that breaks off, fails or is interrupted is reported, and the next run fetches the data '
     'again. Files already complete are not fetched again.',
     ['fault_sequences', 'crash_points', 'histories'],
     'plain, gzip and zip data sets, with and without an announced length, transfers that '
     'fail, break off or stall, crashes and failing writes, up to three runs',
     'Tests do not download.',
     ['Utilities/datasets.py', 'tcrm.py'],
     [('the file gets its name when it is complete', 'Utilities/datasets.py download')],
     ['the data folder', 'exit status'],
     'The web server is a stand-in that follows a script.')


# ------------------------------------------- pure functions: not decided with this technique
PURE = 'A pure function of its arguments: no schedule, clock, fault or stored state takes part.'

na('X01', 'Wind and pressure profiles obey the physics they model',
   'For every physically meaningful cyclone the gradient wind is zero at the centre, has its '
   'maximum near the given radius and agrees in sense with the hemisphere, and the pressure '
   'rises steadily from the central to the environmental value.',
   ['inputs'], 'all cyclone parameters and radii',
   'Tests compare a few parameter sets with stored numbers.',
   ['wind/windmodels.py', 'PressureInterface/pressureProfile.py'],
   [('formulas of the profiles', 'wind/windmodels.py')], ['returned arrays'], PURE)

na('X02', 'Return levels rise with the return period',
   'For every sample of annual maxima, the fitted wind speed does not decrease with the return '
   'period and does not exceed the physical limit, or the fit is marked as missing.',
   ['inputs'], 'all samples and return periods',
   'Tests fit a few stored samples.',
   ['hazard/evd.py', 'hazard/GPD.py'],
   [('extreme value fit', 'hazard/evd.py')], ['returned arrays'],
   PURE + ' That the map holds the fit of each cell is part of H01.')

na('X03', 'Interpolated tracks keep the observed points',
   'An interpolated track passes through every observed position and time, in order, and stays '
   'between neighbouring observations in time.',
   ['inputs'], 'all tracks and time steps',
   'Tests interpolate single tracks.',
   ['Evaluate/interpolateTracks.py'],
   [('interpolation', 'Evaluate/interpolateTracks.py interpolate')], ['returned track'], PURE)

na('X04', 'Unit conversion and geodesy are consistent',
   'Converting a value to another unit and back returns it, and a position reached from a '
   'start, bearing and distance has that bearing and distance.',
   ['inputs'], 'all values, units and positions',
   'Tests use a few values.',
   ['Utilities/metutils.py', 'Utilities/maputils.py'],
   [('conversion factors', 'Utilities/metutils.py'),
    ('great circle formulas', 'Utilities/maputils.py')], ['returned values'], PURE)

na('X05', 'Sampling follows the estimated distributions',
   'Values drawn from an estimated distribution lie in its support and converge to it.',
   ['inputs'], 'all distributions and sample sizes',
   'Tests draw a few samples.',
   ['StatInterface/SamplingOrigin.py', 'StatInterface/SamplingParameters.py'],
   [('inverse transform sampling', 'StatInterface/SamplingParameters.py')],
   ['returned samples'], PURE + ' That draws repeat for any number of processes is part of C01.')

na('X06', 'Settings are read as written',
   'Every option of a configuration file is read with the value and type written there, and '
   'absent options get the documented default.',
   ['configurations'], 'all options and values',
   'Tests read a few options.',
   ['Utilities/config.py'],
   [('typed access and defaults', 'Utilities/config.py')], ['returned values'], PURE)
