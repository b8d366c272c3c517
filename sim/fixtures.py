"""
Synthetic inputs for the program under test.

Everything here is written with plain numpy / netCDF4 / pyshp calls and never
goes through the repository's own writers, so a defect in those cannot hide
inside an input.  Every function is a pure function of its arguments.
"""
import os
import random
from os.path import join as pjoin

import numpy as np
from netCDF4 import Dataset


# --------------------------------------------------------------- static inputs
def write_mslp(path):
    """A small but smooth (time, lat, lon) sea level pressure climatology."""
    nt, ny, nx = 12, 18, 36
    t, y, x = np.meshgrid(np.arange(nt), np.arange(ny), np.arange(nx),
                          indexing='ij')
    data = (1010. + 3. * np.cos(2 * np.pi * t / nt)
            + 2. * np.sin(np.pi * y / ny) + 0.5 * np.cos(2 * np.pi * x / nx))
    nc = Dataset(path, 'w')
    for name, n in (('time', nt), ('lat', ny), ('lon', nx)):
        nc.createDimension(name, n)
        v = nc.createVariable(name, 'f8', (name,))
        v[:] = np.arange(n)
    v = nc.createVariable('slp', 'f8', ('time', 'lat', 'lon'))
    v.units = 'hPa'
    v[:] = data
    nc.close()


def write_landmask(path, limit=(140., 175., -35., 0.), land=(150., 151., -35., -10.)):
    """Land mask (1 = land), lat ascending, covering a generous domain."""
    lon = np.arange(limit[0] - 30., limit[1] + 30., 0.5)
    lat = np.arange(limit[2] - 25., limit[3] + 25., 0.5)
    grid = np.zeros((lat.size, lon.size), 'f4')
    jj = (lat >= land[2]) & (lat <= land[3])
    ii = (lon >= land[0]) & (lon <= land[1])
    grid[np.ix_(jj, ii)] = 1.
    nc = Dataset(path, 'w')
    nc.createDimension('lat', lat.size)
    nc.createDimension('lon', lon.size)
    v = nc.createVariable('lat', 'f8', ('lat',))
    v[:] = lat
    v.units = 'degrees_north'
    v = nc.createVariable('lon', 'f8', ('lon',))
    v[:] = lon
    v.units = 'degrees_east'
    v = nc.createVariable('landmask', 'f4', ('lat', 'lon'))
    v[:] = grid
    nc.close()


def write_stations(base, stations):
    """stations: list of (WMO, name, lon, lat) -> point shapefile."""
    import shapefile
    w = shapefile.Writer(base, shapeType=shapefile.POINT)
    w.field('WMO', 'C', size=10)
    w.field('ICAO', 'C', size=8)
    w.field('Place', 'C', size=40)
    w.field('ISO3166', 'C', size=4)
    w.field('Cntry', 'C', size=20)
    w.field('Longitude', 'N', size=12, decimal=6)
    w.field('Latitude', 'N', size=12, decimal=6)
    w.field('Elevation', 'N', size=10, decimal=2)
    w.field('OID', 'N', size=10)
    for n, (wmo, name, lon, lat) in enumerate(stations):
        w.point(lon, lat)
        w.record(wmo, 'I' + wmo, name, 'AU', 'Testland', lon, lat, 10.0 + n, n + 1)
    w.close()


def write_history_csv(path, seed=11, nstorms=60, box=(150., 166., -22., -10.), missing=0.,
                      form='dated'):
    """Historical track csv: index,date,lat,lon,pressure (one header line). Some of the
    pressures may be missing, which the data show in several ways. Other forms have other
    columns and units."""
    rng = random.Random(seed)
    rows = []
    for n in range(nstorms):
        year = 1985 + n % 20
        month = rng.choice([1, 2, 3, 12])
        day = rng.randint(1, 25)
        hour = rng.choice([0, 6, 12, 18])
        lon = rng.uniform(box[0] + 2, box[1] - 2)
        lat = rng.uniform(box[2] + 4, box[3] - 1)
        prs = 1000. - rng.uniform(0, 6)
        bear = rng.uniform(180, 260)
        spd = rng.uniform(8, 20)
        t = np.datetime64('%04d-%02d-%02dT%02d:00' % (year, month, day, hour))
        for k in range(rng.randint(14, 26)):
            rows.append((n, year, k == 0, str(t).replace('T', ' ') + ':00',
                         lat, lon, prs))
            bear += rng.gauss(-3, 8)
            spd = max(3., spd + rng.gauss(0, 1.5))
            d = spd * 6. / 111.
            lat += d * np.cos(np.radians(bear))
            lon += d * np.sin(np.radians(bear)) / np.cos(np.radians(lat))
            prs = min(1004., max(915., prs + rng.gauss(-0.5, 3.5)))
            t = t + np.timedelta64(6, 'h')
            if not (box[0] - 1 < lon < box[1] + 1 and box[2] - 1 < lat < box[3] + 1):
                break
    if form == 'split':
        write_history_split(path, rows)
        return
    with open(path, 'w') as f:
        f.write('num,season,index,date,lat,lon,pressure\n')
        for r in rows:
            f.write('%d,%d,%d,%s,%.3f,%.3f,%.2f\n' %
                    (r[0], r[1], 1 if r[2] else 0, r[3], r[4], r[5],
                     rng.choice([0., -999., 9999.]) if rng.random() < missing else r[6]))


SPLIT = {'Columns': 'tcserialno,skip,year,month,day,hour,minute,lat,lon,pressure,vmax,rmax',
         'NumberOfHeadingLines': 2, 'PressureUnits': 'Pa', 'LengthUnits': 'nm',
         'SpeedUnits': 'kts'}


def write_history_split(path, rows):
    """Serial numbers, separate date columns, winds and radii, other units."""
    with open(path, 'w') as f:
        f.write('Observations\n' + SPLIT['Columns'] + '\n')
        for r in rows:
            y, m, d, h, mn = (int(x) for x in r[3].replace(':', '-').replace(' ', '-')
                              .split('-')[:5])
            f.write('S%04d,name %d,%d,%d,%d,%d,%d,%.3f,%.3f,%.0f,%.1f,%.1f\n' % (
                r[0], r[0], y, m, d, h, mn, r[4], r[5], 100. * r[6],
                2. * (1012. - r[6]) ** .7, 10. + (r[6] - 900.) / 5.))


# ------------------------------------------------------------------ track files
TRACK_DTYPE = np.dtype([('CycloneNumber', 'i4'), ('Datetime', 'f8'),
                        ('TimeElapsed', 'f4'), ('Longitude', 'f8'),
                        ('Latitude', 'f8'), ('Speed', 'f8'), ('Bearing', 'f8'),
                        ('CentralPressure', 'f8'), ('EnvPressure', 'f8'),
                        ('rMax', 'f8')])


def make_track(rng, number, npts, box):
    """A plausible straight-ish track inside/near `box` (lon0,lon1,lat0,lat1)."""
    a = np.zeros(npts, TRACK_DTYPE)
    a['CycloneNumber'] = number
    a['TimeElapsed'] = np.arange(npts)
    a['Datetime'] = 700000. + rng.randint(0, 80000) + np.arange(npts)
    lon = rng.uniform(box[0], box[1])
    lat = rng.uniform(box[2], box[3])
    bear = rng.uniform(0, 360)
    spd = rng.uniform(8, 60)
    pc = rng.uniform(930, 990)
    rm = rng.uniform(15, 60)
    for k in range(npts):
        a['Longitude'][k] = lon
        a['Latitude'][k] = lat
        a['Speed'][k] = spd
        a['Bearing'][k] = bear % 360
        a['CentralPressure'][k] = pc
        a['EnvPressure'][k] = 1008.
        a['rMax'][k] = rm
        d = spd / 111.
        lat += d * np.cos(np.radians(bear))
        lon += d * np.sin(np.radians(bear)) / np.cos(np.radians(lat))
        bear += rng.gauss(0, 4)
        pc = min(1000., max(900., pc + rng.gauss(0, 2)))
    return a


def write_track_file(path, tracks, calendar='julian'):
    """tracks: list of (trackId tuple, TRACK_DTYPE array)."""
    nc = Dataset(path, 'w', format='NETCDF4')
    grp = nc.createGroup('tracks')
    for n, (tid, data) in enumerate(tracks):
        g = grp.createGroup('tracks-%04d' % n)
        ct = g.createCompoundType(TRACK_DTYPE, 'track_dtype')
        g.createDimension('time', None)
        tv = g.createVariable('time', 'f8', ('time',))
        v = g.createVariable('track', ct, ('time',))
        tv[:] = data['Datetime']
        tv.units = 'hours since 1900-01-01 00:00'
        tv.calendar = calendar
        v[:] = data
        v.long_name = 'Tropical cyclone track data'
        v.time_units = 'hours since 1900-01-01 00:00'
        v.calendar = calendar
        v.lon_units = 'degrees east'
        v.lat_units = 'degrees north'
        v.pressure_units = 'hPa'
        v.speed_units = 'km/h'
        v.length_units = 'km'
        v.trackId = repr(tuple(tid))
    nc.close()


# ------------------------------------------------------------------- gust files
def write_gust(path, lon, lat, vmax, ua, va, slp, trackfile='tracks.nc',
               trackfiledate='2020-01-01 00:00:00', extra=None):
    """lat descending as the program stores it (row 0 is northernmost)."""
    nc = Dataset(path, 'w', format='NETCDF4')
    nc.createDimension('lat', lat.size)
    nc.createDimension('lon', lon.size)
    v = nc.createVariable('lat', 'f8', ('lat',))
    v[:] = lat
    v.units = 'degrees_north'
    v.long_name = 'Latitude'
    v = nc.createVariable('lon', 'f8', ('lon',))
    v[:] = lon
    v.units = 'degrees_east'
    v.long_name = 'Longitude'
    for name, data, units in (('vmax', vmax, 'm/s'), ('ua', ua, 'm/s'),
                              ('va', va, 'm/s'), ('slp', slp, 'Pa')):
        v = nc.createVariable(name, 'f4', ('lat', 'lon'))
        v.units = units
        v.long_name = name
        v.actual_range = (float(np.min(data)), float(np.max(data)))
        v[:] = data
    nc.setncattr('track_file', trackfile)
    nc.setncattr('track_file_date', trackfiledate)
    for k, val in (extra or {}).items():
        nc.setncattr(k, val)
    nc.close()


# ---------------------------------------------------------------- configuration
def write_ini(path, sections):
    with open(path, 'w') as f:
        for sec, opts in sections.items():
            f.write('[%s]\n' % sec)
            for k, v in opts.items():
                f.write('%s=%s\n' % (k, v))
            f.write('\n')


ACTIONS = ['DataProcess', 'ExecuteStat', 'ExecuteTrackGenerator',
           'ExecuteWindfield', 'ExecuteHazard', 'CreateDatabase', 'PlotHazard',
           'PlotData', 'ExecuteEvaluate', 'DownloadData']


def base_config(static, out, logdir, actions, limit):
    """Config shared by all scenarios; `actions` is the set that is switched on."""
    return {
        'Actions': {a: str(a in actions) for a in ACTIONS},
        'DataProcess': {'InputFile': pjoin(static, 'history.csv'),
                        'Source': 'SIM', 'StartSeason': 1980,
                        'FilterSeasons': 'False'},
        'SIM': {'Columns': 'num,season,index,date,lat,lon,pressure',
                'FieldDelimiter': ',', 'NumberOfHeadingLines': 1,
                'PressureUnits': 'hPa', 'LengthUnits': 'km',
                'SpeedUnits': 'kph', 'DateFormat': '%Y-%m-%d %H:%M:%S'},
        'Region': {'gridLimit': repr({'xMin': limit[0], 'xMax': limit[1],
                                      'yMin': limit[2], 'yMax': limit[3]}),
                   'gridSpace': "{'x':4.0,'y':4.0}",
                   'gridInc': "{'x':2.0,'y':2.0}"},
        'StatInterface': {'kdeType': 'gau', 'kde2DType': 'Gaussian',
                          'kdeStep': 0.5, 'minSamplesCell': 20},
        'TrackGenerator': {'NumSimulations': 4, 'YearsPerSimulation': 1,
                           'NumTimeSteps': 48, 'TimeStep': 1.0,
                           'SeasonSeed': 7, 'TrackSeed': 9, 'Frequency': 2},
        'WindfieldInterface': {'Margin': 1.0, 'Resolution': 0.2,
                               'profileType': 'holland',
                               'windFieldType': 'kepert', 'Source': 'TCRM'},
        'Hazard': {'Years': '2,5,10,20,50,100', 'MinimumRecords': 3,
                   'CalculateCI': 'False', 'PercentileRange': 90,
                   'SampleSize': 3, 'ExtremeValueDistribution': 'GEV',
                   'SmoothPlots': 'False'},
        'Input': {'LocationFile': pjoin(static, 'stations.shp'),
                  'LandMask': pjoin(static, 'landmask.nc'),
                  'MSLPFile': pjoin(static, 'mslp.nc'),
                  'MSLPVariableName': 'slp', 'Datasets': ''},
        'Output': {'Path': out, 'Format': 'txt'},
        'Logging': {'LogFile': pjoin(logdir, 'tcrm.log'), 'LogLevel': 'INFO',
                    'Verbose': 'False', 'ProgressBar': 'False'},
        'Process': {'ExcludePastProcessed': 'True',
                    'DatFile': pjoin(out, 'process', 'dat', 'sim.dat')},
        'RMW': {'GetRMWDistFromInputData': 'False', 'mean': 50.0, 'sigma': 0.6},
    }


STATIONS = [('1001', 'Alpha', 152.05, -14.05), ('1002', 'Beta', 155.5, -18.5),
            ('1003', 'Alpha', 158.25, -12.75), ('1004', 'Delta', 161.0, -20.0),
            ('1005', 'Far', 100.0, -40.0)]


def write_static(d):
    os.makedirs(d, exist_ok=True)
    write_mslp(pjoin(d, 'mslp.nc'))
    write_landmask(pjoin(d, 'landmask.nc'))
    write_stations(pjoin(d, 'stations'), STATIONS)
    write_history_csv(pjoin(d, 'history.csv'))
