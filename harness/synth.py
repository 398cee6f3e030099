"""Synthetic EPREM output files: small netCDF datafiles with known contents."""
import math, pathlib
import numpy, netCDF4

# the names and units of EPREM output quantities
UNITS = dict(phiOffset='rad', time='julian date', shell='shell', mu='cos(mu)', mass='nucleon', charge='e-', egrid='MeV', vgrid='km/s',
             R='au', T='rad', P='rad', Br='nT', Bt='nT', Bp='nT', Vr='km/s', Vt='km/s', Vp='km/s', Rho='cm^-3',
             Dist='s^3/km^6', flux='# / cm^2 s sr MeV')
DIMS = dict(phiOffset=('time',), time=('time',), shell=('shell',), mu=('mu',), mass=('species',), charge=('species',),
            egrid=('species', 'energy'), vgrid=('species', 'energy'), Dist=('time', 'shell', 'species', 'energy', 'mu'),
            flux=('time', 'shell', 'species', 'energy'))
FIELDS = ('R', 'T', 'P', 'Br', 'Bt', 'Bp', 'Vr', 'Vt', 'Vp', 'Rho')
for k in FIELDS:
    DIMS[k] = ('time', 'shell')


def write(path, data, units=None, attr='units', scalars=None):
    """Write a datafile with the given arrays: name -> nested sequence."""
    with netCDF4.Dataset(str(path), 'w', format='NETCDF3_CLASSIC') as f:
        sizes = {}
        for k, v in data.items():
            for d, n in zip(DIMS[k], numpy.shape(v)):
                sizes[d] = n
        for d, n in sizes.items():
            f.createDimension(d, n)
        for k, v in data.items():
            x = f.createVariable(k, 'i4' if k == 'shell' else 'f8', DIMS[k])
            x[...] = numpy.asarray(v)
            setattr(x, attr, (units or {}).get(k, UNITS[k]))
        for k, v in (scalars or {}).items():
            x = f.createVariable(k, 'f8', ())
            x[...] = v
            setattr(x, attr, 'day')


def simple(nt=3, ns=4, np=1, ne=3, nm=4, seed=0, kind='dist'):
    """Generic contents: every value of every array is different and plain."""
    rng = numpy.random.default_rng(seed)
    def arr(*shape, lo=1, hi=97):
        return rng.integers(lo * 64, hi * 64, size=shape) / 64.0
    d = dict(time=0.25 * numpy.arange(nt) + 0.125 * seed, shell=numpy.arange(ns), mass=[1.0, 4.0, 3.0][:np], charge=[1.0, 2.0, 2.0][:np])
    e = numpy.cumsum(0.5 + arr(ne, hi=3))
    d['egrid'] = numpy.tile(e, (np, 1))
    d['vgrid'] = numpy.tile(numpy.sqrt(e) * 13840.0, (np, 1))
    d['mu'] = numpy.linspace(-1, 1, nm)
    for k in FIELDS:
        d[k] = arr(nt, ns)
    d['R'] = numpy.cumsum(0.05 + rng.integers(1, 64, size=(nt, ns)) / 128, axis=1)
    d['T'] = rng.integers(8, 64, size=(nt, ns)) / 32
    d['P'] = rng.integers(8, 180, size=(nt, ns)) / 32
    d['phiOffset'] = arr(nt, hi=3)
    if kind == 'dist':
        d['Dist'] = arr(nt, ns, np, ne, nm)
    else:
        d['flux'] = arr(nt, ns, np, ne)
    return d


CONFIG = dict(lamo=1.0, mfpRadialPower=0.6667, rigidityPower=0.3333, kperxkpar=0.01, mass=[1.0], charge=[1.0])


def config(path, **kw):
    with open(path, 'w') as f:
        for k, v in {**CONFIG, **kw}.items():
            f.write(f'{k} = {v}\n')
