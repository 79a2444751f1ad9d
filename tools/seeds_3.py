import sys; sys.path.insert(0,'/verif/tools')
from plant import plant_all
S=[]
def B(id,prop,file,edits,needs,breaks,demo): S.append(dict(id=id,property=prop,file=file,edits=edits,needs=needs,breaks=breaks,demo=demo))
WORLD='''
from pyHalo.Cosmology.cosmology import Cosmology
from pyHalo.Halos.lens_cosmo import LensCosmo
cosmo = Cosmology()
'''
B('c01-narrow-range','C01','pyHalo/Rendering/MassFunctions/mass_function_base.py',
 [("        if log_mlow >= log_mhigh:","        if log_mhigh - log_mlow < 0.01:")],
 'a mass range that is narrower than 0.01 dex',
 'narrow mass bins are empty: no objects are drawn and their mass is not subtracted',
'''
from pyHalo.Rendering.MassFunctions.mass_function_base import CDMPowerLaw
a = CDMPowerLaw(8.0, 8.009, -1.9, True, 1e10)
b = CDMPowerLaw(8.0, 8.005, -1.9, True, 1e10)
c = CDMPowerLaw(8.005, 8.009, -1.9, True, 1e10)
same(b.n_mean + c.n_mean, a.n_mean, 'numbers add up')
m, e = 10 ** np.array([8.0, 8.005]), 0.005 * np.log(10)
same(b.n_mean, 1e10 * (m[1] ** -0.9 - m[0] ** -0.9) / -0.9, 'number')
''')
B('c01-mixed-pivot','C01','pyHalo/Rendering/MassFunctions/density_peaks.py',
 [("volume_element_comoving / (m_pivot ** plaw_index)","volume_element_comoving / (m_pivot ** coeffs[0])")],
 'the mixed dark matter field halo mass function with delta_power_law_index != 0',
 'the mass function is not tilted around the pivot mass: its amplitude changes by m_pivot^delta',
WORLD+'''
from pyHalo.Cosmology.geometry import Geometry
from pyHalo.Rendering.MassFunctions.density_peaks import ShethTormenMixedWDM as M
g = Geometry(cosmo, 0.5, 1.5, 6.0, 'DOUBLE_CONE')
kw = dict(log_mlow=6.0, log_mhigh=10.0, m_pivot=1e8, LOS_normalization=1.0, draw_poisson=False, log_mc=7.5, a_wdm=0.5, b_wdm=0.8, c_wdm=-3.0, mixed_DM_frac=0.4)
a = M.from_redshift(0.4, 0.02, g, dict(kw, delta_power_law_index=0.0))
b = M.from_redshift(0.4, 0.02, g, dict(kw, delta_power_law_index=0.1))
same(b.evaluate(1e8), a.evaluate(1e8), 'at the pivot')
same(b.evaluate(1e9), a.evaluate(1e9) * 10 ** 0.1, 'one decade above')
''')
B('c02-two-halo-slice','C02','pyHalo/Rendering/two_halo.py',
 [("        delta_z = delta_z_list[idx]","        delta_z = delta_z_list[max(idx - 1, 0)]")],
 'a lens redshift that is not on the grid of lens planes, so that the slice in front of the lens is thinner than the others',
 'the two-halo population is scaled with the thickness of the slice in front of the lens plane',
WORLD+'''
from pyHalo.Cosmology.geometry import Geometry
from pyHalo.Rendering.two_halo import TwoHaloContribution
from pyHalo.Rendering.MassFunctions.density_peaks import ShethTormen
from pyHalo.Rendering.SpatialDistributions.uniform import LensConeUniform
from pyHalo.utilities import generate_lens_plane_redshifts
zl = 0.52
lc = LensCosmo(zl, 1.5, cosmo)
g = Geometry(cosmo, zl, 1.5, 6.0, 'DOUBLE_CONE')
z, dz = np.array([0.3, 0.4, 0.51, 0.52, 0.56, 0.6]), np.array([0.1, 0.11, 0.01, 0.04, 0.04, 0.9])
kw = {'m_pivot': 1e8, 'log_mlow': 6.0, 'log_mhigh': 9.0, 'LOS_normalization': 1.0, 'delta_power_law_index': 0.0, 'draw_poisson': True, 'log_m_host': 13.0}
t = TwoHaloContribution(ShethTormen, kw, LensConeUniform(6.0, g), g, lc, z, dz)
same(t._delta_z, 0.04, 'slice')
''')
B('c03-sheet-range','C03','pyHalo/Rendering/line_of_sight.py',
 [("                z, log_mlow, log_mhigh)","                self._lens_cosmo.z_lens, log_mlow, log_mhigh)")],
 'a minimum halo mass that depends on redshift (ultra-light dark matter) with sheets in the mass range of the realization',
 'the sheets of every plane subtract the mass in the range that applies at the lens redshift, not in the range in which halos were rendered there',
WORLD+'''
from pyHalo.Cosmology.geometry import Geometry
from pyHalo.Rendering.line_of_sight import LineOfSight
from pyHalo.Rendering.MassFunctions.density_peaks import ShethTormen
from pyHalo.Rendering.SpatialDistributions.uniform import LensConeUniform
from pyHalo.utilities import generate_lens_plane_redshifts
lc = LensCosmo(0.5, 1.5, cosmo)
g = Geometry(cosmo, 0.5, 1.5, 6.0, 'DOUBLE_CONE')
z, dz = generate_lens_plane_redshifts(0.5, 1.5)
kw = {'m_pivot': 1e8, 'log_mlow': lambda z: 6.5 + z, 'log_mhigh': 9.0, 'LOS_normalization': 1.0, 'delta_power_law_index': 0.0, 'draw_poisson': True}
c = LineOfSight(ShethTormen, kw, LensConeUniform(6.0, g), g, lc, z, dz)
k, _, zz = c.convergence_sheet_correction(1.0, 7.0, 10.0, use_class_mass_ranges=True)
for q, kk in zip(zz, k):
    i = list(z).index(q)
    m = ShethTormen.from_redshift(q, dz[i], g, dict(kw, log_mlow=6.5 + q)).first_moment
    same(kk['kappa'], -m / lc.sigma_crit_mass(q, g.angle_to_physical_area(3.0, q)), ('sheet', q))
''')
B('c04-angle-pad','C04','pyHalo/Cosmology/geometry.py',
 [("        self._angle_pad = angle_pad\n        d_c_lens","        self._angle_pad = min(max(angle_pad, 0.8), 0.95)\n        d_c_lens")],
 'a double cone whose angle_pad is set outside of 0.8 - 0.95',
 'the closure of the rendering volume behind the lens ignores the requested value',
WORLD+'''
from pyHalo.Cosmology.geometry import Geometry
for pad in (1.0, 0.95, 0.6, 0.0):
    g = Geometry(cosmo, 0.5, 1.5, 6.0, 'DOUBLE_CONE', angle_pad=pad)
    same(g.rendering_scale(1.5), 1 - pad, ('scale at the source', pad), 1e-3) if pad != 1.0 else true(abs(g.rendering_scale(1.5)) < 1e-3, 'closed at the source')
''')
B('c05-effective-age-zform','C05','pyHalo/Halos/lens_cosmo.py',
 [("        time_formation_to_infall = self.cosmo.halo_age(z_infall, zform=zform)","        time_formation_to_infall = self.cosmo.halo_age(z_infall)")],
 'the effective age of an SIDM halo with a formation redshift other than 10',
 'the time before infall is counted from redshift 10',
WORLD+'''
lc = LensCosmo(0.5, 1.5, cosmo)
for zf in (10.0, 6.0, 4.0):
    a = lambda z: cosmo.astropy.age(z).value
    same(lc.sidm_halo_effective_age(0.5, 2.0, 0.7, zform=zf), a(2.0) - a(zf) + 0.7 * (a(0.5) - a(2.0)), ('age', zf), 2e-3)
''')
B('c05-distance-cache','C05','pyHalo/Cosmology/cosmology.py',
 [("            k = (float(z1), float(z2))","            k = (round(float(z1), 4), round(float(z2), 4))")],
 'two distances of almost the same redshifts, evaluated one after the other with the same cosmology',
 'the distance between two close redshifts is that of a pair asked for before',
WORLD+'''
cosmo.D_A(0.50004, 0.5003)
same(cosmo.D_A(0.49996, 0.50026), cosmo.astropy.angular_diameter_distance_z1z2(0.49996, 0.50026).value, 'distance', 1e-5)
c2 = Cosmology()
c2.D_A(0.5, 0.50003)
same(c2.D_A(0.5, 0.50001), c2.astropy.angular_diameter_distance_z1z2(0.5, 0.50001).value, 'distance', 1e-5)
''')
B('c06-wmin','C06','pyHalo/single_realization.py',
 [("                w_eff = np.clip(w_eff, w_min, 1.0)","                w_eff = np.clip(w_eff, min(w_min, 0.1), 1.0)")],
 'filter() with w_min above 0.1',
 'halos inside the smallest requested aperture are removed close to the observer and to the source',
WORLD+'''
from scipy.interpolate import interp1d
from pyHalo.single_realization import Realization


class H:
    is_subhalo, fixed_position, r3d, mdef = False, False, None, 'NFW'

    def __init__(self, z, x):
        self.mass, self.z, self.x, self.y, self.unique_tag = 1e6, z, x, 0.0, z + x


lc = LensCosmo(0.5, 1.5, cosmo)
d = np.linspace(0, cosmo.D_C_z(1.5), 50)
f = interp1d(d, 0 * d)
halos = [H(z, x) for z in (0.02, 1.48) for x in (0.29, 0.31)]
r = Realization.from_halos(halos, lc, {}, False, None).filter(1.0, 8.0, [f], [f], w_min=0.3)
same([h.x for h in r.halos], [0.29, 0.29], 'halos kept')
''')
B('c07-split-center','C07','pyHalo/single_realization.py',
 [("        realization_2 = Realization.from_halos(halos_2, self.lens_cosmo,\n                                               self.kwargs_halo_model, self.apply_mass_sheet_correction, self.rendering_classes,\n                                               centerx, centery, self.geometry)",
   "        realization_2 = Realization.from_halos(halos_2, self.lens_cosmo,\n                                               self.kwargs_halo_model, self.apply_mass_sheet_correction, self.rendering_classes,\n                                               geometry=self.geometry)")],
 'splitting a realization that was shifted to an off-axis source',
 'the mass sheets of the background half are centred on the origin, not on the shifted rendering volume',
WORLD+'''
from scipy.interpolate import interp1d
from pyHalo.Cosmology.geometry import Geometry
from pyHalo.Halos.HaloModels.TNFW import TNFWFieldHalo
from pyHalo.single_realization import Realization
lc = LensCosmo(0.5, 1.5, cosmo)
halos = [TNFWFieldHalo.simple_setup(1e9, 0.0, 0.0, z, 8.0, lc) for z in (0.3, 0.8, 1.2)]
for i, h in enumerate(halos):
    h.unique_tag = 0.1 + i
r = Realization.from_halos(halos, lc, {}, True, [], geometry=Geometry(cosmo, 0.5, 1.5, 6.0, 'DOUBLE_CONE'))
d = np.linspace(0, cosmo.D_C_z(1.5) * 1.01, 50)
s = r.shift_background_to_source(interp1d(d, 0.2 + 0 * d), interp1d(d, -0.3 + 0 * d))
for part in s.split_at_z(0.5):
    n, z, k, _ = part.lensing_quantities(kwargs_mass_sheet={'subtract_exact_sheets': True})
    for a, b in zip(n, k):
        if a == 'CONVERGENCE':
            same([b['ra_0'], b['dec_0']], [0.2, -0.3], 'sheet centre')
''')
B('c10-same-name','C10','pyHalo/Halos/batch_halo_util.py',
 [("        key = (id(h._concentration_class), float(h.z_eval))","        key = (getattr(h._concentration_class, 'name', None), float(h.z_eval))")],
 'a realization in which two concentration models of the same kind with different settings meet at one redshift (e.g. subhalos that fell in at the lens redshift)',
 'the batch evaluation gives all halos at one redshift the concentrations of the first model',
WORLD+'''
from pyHalo.Halos.batch_halo_util import precompute_concentrations
from pyHalo.Halos.concentration import ConcentrationPeakHeight


class H:
    def __init__(self, m, z, c):
        self.mass, self.z_eval, self._concentration_class = m, z, c


a = ConcentrationPeakHeight(cosmo.astropy, 17.0, -0.25, 0.8, scatter=False)
b = ConcentrationPeakHeight(cosmo.astropy, 8.0, -0.25, 0.8, scatter=False)
halos = [H(m, 0.5, c) for m in (1e7, 1e8, 1e9) for c in (a, b)]
precompute_concentrations(halos)
same([h._c for h in halos], [float(h._concentration_class.nfw_concentration(h.mass, 0.5)) for h in halos], 'concentrations')
''')
B('c10-zinfall-clip','C10','pyHalo/Halos/batch_halo_util.py',
 [("        t_or_dz = np.clip(t_or_dz, 0.001, 9.5)\n        chost = min(max(chost, 4.0), 8.0)","        t_or_dz = np.clip(t_or_dz, 0.001, 8.1)\n        chost = min(max(chost, 4.0), 8.0)")],
 'subhalos that fell in more than 8.1 in redshift before the lens, with the infall redshift tidal truncation model',
 'the batch evaluation of bound masses differs from the one of individual halos',
WORLD+'''
from pyHalo.Halos.batch_halo_util import galacticus_mass_loss_vectorized
from pyHalo.Halos.tidal_truncation import TruncationGalacticusZinfall
t = TruncationGalacticusZinfall(LensCosmo(0.5, 1.5, cosmo), 6.0)
n = 40000
np.random.seed(1)
a = galacticus_mass_loss_vectorized(t._mass_loss_interp, np.full(n, 1.0), np.full(n, 9.4), 6.0)
from scipy.stats import johnsonsu
p = (9.4, 1.0, 6.0)
b = np.minimum(0, johnsonsu.rvs(float(t._mass_loss_interp._a_interp(p)), float(t._mass_loss_interp._b_interp(p)), size=n))
for q in (25, 50, 75):
    true(abs(np.percentile(a, q) - np.percentile(b, q)) < 0.015, ('mass loss', q, np.percentile(a, q), np.percentile(b, q)))
''')
B('c11-shared-scatter','C11','pyHalo/Halos/concentration.py',
 [("                c = numpy.random.lognormal(log_c, sigma)","                c = numpy.exp(log_c + sigma * numpy.random.normal())")],
 'concentrations with scatter evaluated for an array of masses',
 'all halos of one call get the same scatter: the concentrations are perfectly correlated',
WORLD+'''
from pyHalo.Halos.concentration import ConcentrationDiemerJoyce
m = np.full(400, 1e8)
np.random.seed(3)
c = ConcentrationDiemerJoyce(cosmo.astropy, scatter=True, scatter_dex=0.2).nfw_concentration(m, 0.5)
true(np.std(np.log(c)) > 0.15, 'halos scatter independently')
''')
B('c13-gaussian-number','C13','pyHalo/Rendering/correlated_structure.py',
 [("            num_objects = self._kwargs_mass_function['mass_fraction'] * mass_in_area / log_normal_expectation_value","            num_objects = self._kwargs_mass_function['mass_fraction'] * mass_in_area / 10 ** self._kwargs_mass_function['logM']")],
 'globular-cluster like objects with a log-normal mass function of finite width that trace the dark matter',
 'the objects hold more than the requested fraction of the mass',
'''
from pyHalo.Rendering.correlated_structure import CorrelatedStructure as C
from pyHalo.Rendering.MassFunctions.gaussian import Gaussian
c = C.__new__(C)
c._mass_function_model = Gaussian
c._kwargs_mass_function = {'mass_fraction': 0.1, 'logM': 5.0, 'logM_sigma': 0.6, 'draw_poisson': True}
np.random.seed(4)
m, f = c.render_masses_at_z(1e11)
same(f, 0.9, 'factor')
same(np.sum(m), 10 ** 10, 'mass in objects', 0.05)
''')
B('c15-bh-floor','C15','pyHalo/PresetModels/mbh.py',
 [("                        10**log10_occupation_frac,\n                        log10_mlow_halos_subres,\n                        log10_min_mbh,\n                        log_mlow,","                        10**log10_occupation_frac,\n                        log10_mlow_halos_subres,\n                        log10_min_mbh,\n                        6.0,")],
 'black holes in a realization whose minimum rendered halo mass is not 10^6',
 'black holes of unresolved halos are counted up to 10^6 although halos are rendered only above a larger mass (or are counted twice)',
'''
from pyHalo.preset_models import preset_model_from_name
import pyHalo.PresetModels.mbh as mbh
seen = {}
class E:
    def __init__(self, r): pass
    def add_black_holes(self, *a, **k):
        seen['a'] = a
        raise StopIteration
mbh.RealizationExtensions = E
try:
    preset_model_from_name('CDM_plus_BH')(0.5, 1.5, -3.0, -0.3, log_mlow=7.5, log_mhigh=9.0, cone_opening_angle_arcsec=2.0, sigma_sub=0.01)
except StopIteration:
    pass
same(seen['a'][4], 7.5, 'upper end of the unresolved halos')
''')
B('c18-tree-index','C18','pyHalo/Halos/galacticus_util/galacticus_util.py',
 [("            node_tree_index[start:stop] = tree_index[n]","            node_tree_index[start:stop] = tree_index[0] + n")],
 'a Galacticus file whose tree indices are not consecutive',
 'nodes are attributed to trees that do not exist in the file: selecting a tree returns the nodes of another tree, or none',
'''
import h5py
from pyHalo.Halos.galacticus_util.galacticus_util import GalacticusUtil
f = h5py.File('x', 'w', driver='core', backing_store=False)
g = f.create_group('Outputs/Output1')
g['mergerTreeIndex'], g['mergerTreeCount'], g['mergerTreeStartIndex'] = [3, 5, 9], [2, 1, 3], [0, 2, 3]
g.create_group('nodeData')['a'] = np.arange(6.0)
d = GalacticusUtil().hdf5_read_galacticus_nodedata(f)
same(d[GalacticusUtil.PARAM_TREE_INDEX], [3, 3, 5, 9, 9, 9], 'tree index')
''')
B('c09-mw-bounds','C09','pyHalo/Halos/accretion.py',
 [("        massRatio = min(10 ** -0.5, massRatio)\n        return massRatio\n\n    def z_inf_to_z_host_mean(self, massRatio):","        massRatio = min(10 ** -1.5, massRatio)\n        return massRatio\n\n    def z_inf_to_z_host_mean(self, massRatio):")],
 'massive subhalos (more than 1/30 of the host) with a Milky Way infall model',
 'infall redshifts of massive subhalos follow the distribution of smaller ones',
'''
from pyHalo.Halos.accretion import InfallDistributionDirectMilkyWay200kpc as D
from scipy.stats import truncnorm
d = D(0.5, 12.0)
m = 10 ** 11.4
mu, s = d.z_inf_to_z_host_mean(10 ** -0.6), d.z_inf_to_z_host_std(10 ** -0.6)
np.random.seed(2)
z = np.array([d(m) for _ in range(20000)]) - 0.5
same(np.mean(z), truncnorm.mean(-mu / s, (15 - mu) / s, mu, s), 'mean', 0.03)
''')
B('c17-emulator-mass','C17','pyHalo/Halos/HaloModels/TNFWemulator.py',
 [("        mfinal = tnfw_mass_fraction(tau, con_i)","        mfinal = tnfw_mass_fraction(tau, 200.0 if con_i > 150.0 else con_i)")],
 'an emulated subhalo with an infall concentration above 150',
 'the truncation radius does not reproduce the bound mass of the halo',
WORLD+'''
from pyHalo.Halos.HaloModels.TNFWemulator import TNFWSubhaloEmulator, tnfw_mass_fraction
lc = LensCosmo(0.5, 1.5, cosmo)
for c in (10.0, 100.0, 160.0):
    h = TNFWSubhaloEmulator(1e8, 0.1, 0.2, 2e7, c, 0.5, lc)
    cc, rt = h.profile_args
    rs = lc.NFW_params_physical(1e8, c, 0.5)[1]
    same(tnfw_mass_fraction(rt / rs, c), 0.2, ('bound fraction', c), 0.02)
''')
B('c04-plane-spacing','C04','pyHalo/utilities.py',
 [("        back_z = np.arange(zlens, zsource, lens_plane_spacing)","        back_z = np.arange(zlens, zsource, min(lens_plane_spacing, 0.05))")],
 'lens planes spaced by more than 0.05',
 'the planes behind the lens are not spaced as requested',
'''
from pyHalo.utilities import generate_lens_plane_redshifts
z, dz = generate_lens_plane_redshifts(0.5, 1.5, 0.1)
same([q for q in z if q >= 0.5], np.arange(0.5, 1.45, 0.1), 'planes')
''')
if __name__=='__main__':
    ids=sys.argv[1:]
    plant_all([s for s in S if not ids or s['id'] in ids])
