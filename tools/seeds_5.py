import sys; sys.path.insert(0,'/verif/tools')
from plant import plant_all
S=[]
def B(id,prop,file,edits,needs,breaks,demo): S.append(dict(id=id,property=prop,file=file,edits=edits,needs=needs,breaks=breaks,demo=demo))
WORLD='''
from pyHalo.Cosmology.cosmology import Cosmology
from pyHalo.Halos.lens_cosmo import LensCosmo
cosmo = Cosmology()
'''
B('c06-close-planes','C06','pyHalo/single_realization.py',
 [("            if halo.z != z:\n                continue\n            halos.append(halo)\n            index.append(i)",
   "            if abs(halo.z - z) > 1e-4:\n                continue\n            halos.append(halo)\n            index.append(i)"),
  ("            inds_at_z = np.where(self.redshifts == zi)[0]","            inds_at_z = np.where(np.abs(self.redshifts - zi) <= 1e-4)[0]")],
 'two planes whose redshifts differ by less than 1e-4 (halos placed by hand or by a simulation next to a plane of the grid)',
 'selecting a plane returns the halos of its neighbour too, and filtering returns them twice',
WORLD+'''
from pyHalo.Halos.HaloModels.TNFW import TNFWSubhalo
from pyHalo.single_realization import Realization
lc = LensCosmo(0.5, 1.5, cosmo)
h = [TNFWSubhalo.simple_setup(10 ** (8 + k), 0.2, 2.0, 0.1 * k, 0.2, z, lc) for k, z in enumerate((0.5, 0.50005, 0.6))]
r = Realization.from_halos(h, lc, {}, False, None)
same(len(r.halos_at_z(0.5)[0]), 1, 'halos in the plane')
flat = [lambda d: 0 * d]
same(sorted(g.mass for g in r.filter(1.0, 5.0, flat, flat).halos), [1e8, 1e9, 1e10], 'filtered halos')
''')
B('c06-signed-mass','C06','pyHalo/single_realization.py',
 [("        keep = ~is_sub | (np.absolute(self.masses) > 10 ** log10_mass_minimum)",
   "        keep = ~is_sub | (self.masses > 10 ** log10_mass_minimum)")],
 'objects with a negative mass (underdense fluctuations) that count as subhalos, outside of the aperture',
 'massive underdensities are removed although they are above the mass cut',
WORLD+'''
from pyHalo.Halos.HaloModels.gaussianhalo import GaussianHalo
from pyHalo.single_realization import Realization
lc = LensCosmo(0.5, 1.5, cosmo)
h = [GaussianHalo(m, 3.0, 3.0, None, 0.5, True, lc, {'amp': 0.1 * np.sign(m), 'sigma': 0.1}, None, None, i) for i, m in enumerate((1e8, -1e8, 1e5, -1e5))]
r = Realization.from_halos(h, lc, {}, False, None)
same(sorted(g.mass for g in r.filter_subhalos(0.5, 7.0, [0.0], [0.0]).halos), [-1e8, 1e8], 'kept')
''')
B('c14-sheet-settings','C14','pyHalo/single_realization.py',
 [("            kwargs_mass_sheets, profile_list, z_sheets = self._mass_sheet_correction(\n                self.rendering_classes,\n                use_class_mass_ranges=use_class_mass_ranges,\n                **kwargs_mass_sheet)",
   "            kwargs_mass_sheet.setdefault('use_class_mass_ranges', use_class_mass_ranges)\n            kwargs_mass_sheet['use_class_mass_ranges'] |= use_class_mass_ranges\n            kwargs_mass_sheets, profile_list, z_sheets = self._mass_sheet_correction(\n                self.rendering_classes,\n                **kwargs_mass_sheet)")],
 'two exports: one with use_class_mass_ranges=True, then one of any realization with the default settings',
 'the first call changes the default settings of all later exports in the process (and a dictionary passed by the caller)',
'''
from pyHalo.PresetModels.cdm import CDM
np.random.seed(3)
r = CDM(0.5, 1.5, sigma_sub=0.01, log_mlow=8.0, log_mhigh=10.0, LOS_normalization=0.3)
a = r.lensing_quantities()[2][-1]['kappa']
r.lensing_quantities(use_class_mass_ranges=True)
same(r.lensing_quantities()[2][-1]['kappa'], a, 'sheet of the default export')
mine = {'log_mlow_sheets': 7.5}
r.lensing_quantities(kwargs_mass_sheet=mine)
true(sorted(mine) == ['log_mlow_sheets'], 'settings of the caller')
''')
B('c13-transposed','C13','pyHalo/Rendering/SpatialDistributions/correlated.py',
 [("        x_sample_pixel, y_sample_pixel = locations[:, 0], locations[:, 1]","        y_sample_pixel, x_sample_pixel = locations[:, 0], locations[:, 1]")],
 'a density map that is not symmetric under exchange of x and y (halos off the centre of the aperture)',
 'correlated objects are placed at the mirror images of the halos they should follow',
WORLD+'''
from pyHalo.Cosmology.geometry import Geometry
from pyHalo.Rendering.SpatialDistributions.correlated import Correlated2D
geo = Geometry(cosmo, 0.5, 1.5, 2.0, 'CYLINDER')
p = np.zeros((40, 40)); p[5, 30] = 1.0   # row = y, column = x
np.random.seed(1)
x, y = Correlated2D(geo).draw(4000, 1.0, p, 0.5)
k = geo.kpc_per_arcsec(0.5)
g = np.linspace(-1, 1, 40)
true(abs(np.mean(x) / k - g[30]) < 0.05 and abs(np.mean(y) / k - g[5]) < 0.05, 'centre of the objects')
''')
B('c19-rounded-planes','C19','pyHalo/utilities.py',
 [("        all_redshifts = np.unique(np.append(redshift_list, finely_sampled_redshifts))","        all_redshifts = np.unique(np.round(np.append(redshift_list, finely_sampled_redshifts), 3))")],
 'deflectors (or a source) at redshifts with more than three decimals',
 'the tabulated path is not evaluated at the planes of the deflectors and misses the last ones before the source',
WORLD+'''
from lenstronomy.LensModel.lens_model import LensModel
from pyHalo.utilities import interpolate_ray_paths
zs = 1.50042
lm = LensModel(['SIS', 'SIS'], z_source=zs, multi_plane=True, lens_redshift_list=[0.50037, 0.90021], cosmo=cosmo.astropy)
kw = [{'theta_E': 1.0, 'center_x': 0.0, 'center_y': 0.0}, {'theta_E': 0.3, 'center_x': 0.4, 'center_y': 0.1}]
fx, fy = interpolate_ray_paths([1.1], [0.3], lm, kw, zs, cosmo=cosmo)
bx, by = lm.ray_shooting(1.1, 0.3, kw)
d = cosmo.D_C_transverse(zs)
same([float(fx[0](d)), float(fy[0](d))], [float(bx), float(by)], 'source position', 1e-6)
''')
B('c16-narrow-angle','C16','pyHalo/Rendering/SpatialDistributions/uniform.py',
 [("        x_arcsec += center_x\n        y_arcsec += center_y\n","        x_arcsec = (x_arcsec + center_x * rescale)\n        y_arcsec = (y_arcsec + center_y * rescale)\n")],
 'points around a centre away from the axis, behind the main lens where the rendering area has shrunk',
 'the points are not centred on the requested coordinate',
WORLD+'''
from pyHalo.Cosmology.geometry import Geometry
from pyHalo.Rendering.SpatialDistributions.uniform import LensConeUniform
geo = Geometry(cosmo, 0.5, 1.5, 6.0, 'DOUBLE_CONE')
for z in (0.3, 1.2):
    np.random.seed(2)
    x, y = LensConeUniform(6.0, geo).draw(2000, z, center_x=1.0, center_y=-2.0)
    k = geo.kpc_per_arcsec(z)
    r = np.hypot(x / k - 1.0, y / k + 2.0)
    true(r.max() <= 3.0 * geo.rendering_scale(z) * (1 + 1e-6), 'inside of the area around the centre')
''')

K24="""        (log10c, log10mass_loss_fraction) = point
        log10c = max(min_c, log10c)
        log10c = min(max_c, log10c)
        log10mass_loss_fraction = max(-8.0, log10mass_loss_fraction)
        log10mass_loss_fraction = min(-0.001, log10mass_loss_fraction)
        return (log10c, log10mass_loss_fraction)

    def calculate_mbound(self, halo):
        \"\"\"
        compute the bound mass
        :param halo:
        :return:
        \"\"\"
        halo_mass = halo.mass
        infall_concentration = halo.c
        time_since_infall = halo.time_since_infall
"""
B('c09-stripped-clip','C09','pyHalo/Halos/tidal_truncation.py',
 [(K24, K24.replace('max(-8.0','max(-2.0'))],
 'subhalos that lost more than 99 percent of their mass, with the truncation model TRUNCATION_GALACTICUS_KEELEY24',
 'the truncation radius of strongly stripped halos is that of a halo with one percent of its mass left',
WORLD+"""
from pyHalo.Halos.HaloModels.TNFW import TNFWSubhalo
from pyHalo.Halos.tidal_truncation import TruncationGalacticusKeeley24
from pyHalo.Halos.concentration import ConcentrationConstant
lc = LensCosmo(0.5, 1.5, cosmo)
t = TruncationGalacticusKeeley24(lc, 6.0)
h = TNFWSubhalo(1e8, 0.1, 0.1, 20.0, 0.5, True, lc, {}, t, ConcentrationConstant(None, 10.0), 0.3)
h.set_infall_redshift(2.0)
r = [t.truncation_radius_from_bound_mass(h, 1e8 * f) for f in (0.3, 0.1, 0.01, 0.003, 0.001)]
true(all(b < 0.95 * a for a, b in zip(r[:-1], r[1:])), 'the radius shrinks with the bound mass')
""")
B('c11-table-cache','C11','pyHalo/Halos/concentration.py',
 [("        for j in range(n_u):\n            zj = float(10 ** u[j] - 1.0)\n            log10c[:, j] = numpy.log10(self._evaluate_concentration_colossus(m_grid, zj))\n        self._table = (log10m, u, log10c)",
   "        known = _ConcentrationCDM.__dict__.get('_tables')\n        if known is None:\n            known = {}\n            _ConcentrationCDM._tables = known\n        key = (self.name, log10m_min, log10m_max, u_min, u_max)\n        if key not in known:\n            for j in range(n_u):\n                zj = float(10 ** u[j] - 1.0)\n                log10c[:, j] = numpy.log10(self._evaluate_concentration_colossus(m_grid, zj))\n            known[key] = (log10m, u, log10c)\n        self._table = known[key]")],
 'two concentration models of the same kind for different cosmologies or mass definitions in one process',
 'the second model returns the concentrations of the first',
WORLD+"""
from pyHalo.Halos.concentration import ConcentrationDiemerJoyce
a = ConcentrationDiemerJoyce(cosmo.astropy, scatter=False)
b = ConcentrationDiemerJoyce(cosmo.astropy, scatter=False, mdef='vir')
ca = a.nfw_concentration(1e8, 0.5)
want = ConcentrationDiemerJoyce(cosmo.astropy, scatter=False, mdef='vir', use_interpolation_table=False).nfw_concentration(1e8, 0.5)
same(b.nfw_concentration(1e8, 0.5), want, 'concentration with another mass definition', 1e-3)
""")
if __name__=='__main__':
    want=sys.argv[1:]
    
GAL = """
import tempfile, h5py
from pyHalo.Halos.galacticus_util.galacticus_util import GalacticusUtil
path = os.path.join(tempfile.mkdtemp(), 'g.hdf5')


def write(outputs):
    with h5py.File(path, 'w') as f:
        for n, counts, data in outputs:
            g = f.create_group('Outputs/Output%d' % n)
            g['mergerTreeCount'] = np.array(counts)
            g['mergerTreeIndex'] = np.arange(1, len(counts) + 1)
            g['mergerTreeStartIndex'] = np.cumsum([0] + list(counts[:-1]))
            d = g.create_group('nodeData')
            for k, v in data.items():
                d[k] = np.asarray(v)
"""
B('c18-last-written','C18','pyHalo/Halos/galacticus_util/galacticus_util.py',
 [("            output_index = np.max(outputs_ns)","            output_index = outputs_ns[-1]")],
 'a file with more than nine outputs (Output10 is listed before Output9)',
 'without a number the final output is not the one that is read',
GAL+"""
write([(n, [2], {'a': [n, n]}) for n in (8, 9, 10)])
same(GalacticusUtil().read_nodedata_galacticus(path)['a'], [10, 10], 'final output')
""")
B('c18-part-of-a-name','C18','pyHalo/Halos/galacticus_util/galacticus_util.py',
 [("            params_to_read = [params_to_read] \n","            params_to_read = params_to_read.strip()\n")],
 'one quantity asked for by its name, in a file with another one whose name is part of it',
 'quantities that were not asked for are returned too',
GAL+"""
write([(1, [2], {'basicMass': [1., 2.], 'Mass': [3., 4.]})])
d = GalacticusUtil().read_nodedata_galacticus(path, params_to_read='basicMass')
same(d['basicMass'], [1, 2], 'values')
true('Mass' not in d, 'only what was asked for')
""")
B('c18-order-of-angles','C18','pyHalo/PresetModels/external.py',
 [('Rotation.from_euler("zyz",(0,theta,phi))','Rotation.from_euler("ZYZ",(0,theta,phi))')],
 'both projection angles different from zero',
 'the subhalos are projected along another direction than the one with the given spherical angles',
GAL+"""
from pyHalo.PresetModels.external import DMFromGalacticus
u = GalacticusUtil()
th, ph = 1.1, 0.7
n = np.array([np.sin(th) * np.cos(ph), np.sin(th) * np.sin(ph), np.cos(th)])
pos = np.array([n * 5e-3, n * 0.0, -n * 8e-3 + np.array([0.0, 0.0, 1e-4])])
one = np.ones(3)
data = {u.PARAM_X: pos[:, 0], u.PARAM_Y: pos[:, 1], u.PARAM_Z: pos[:, 2], u.PARAM_TNFW_RHO_S: one * 1e15, u.PARAM_TNFW_RADIUS_TRUNCATION: one * 1e-3,
        u.PARAM_RADIUS_VIRIAL: np.array([1e-3, 1.0, 1e-3]), u.PARAM_RADIUS_SCALE: one * 1e-3, u.PARAM_MASS_BOUND: np.array([1e8, 1e13, 1e8]),
        u.PARAM_MASS_INFALL: np.array([1e8, 1e13, 1e8]), u.PARAM_ISOLATED: np.array([0, 1, 0]), u.PARAM_Z_LAST_ISOLATED: one,
        u.PARAM_CONCENTRATION: one * 10, u.PARAM_TREE_INDEX: np.array([1, 1, 1]), u.PARAM_TREE_ORDER: np.array([0, 0, 0]), u.PARAM_NODE_ID: np.arange(3)}
r = DMFromGalacticus(data, 1.5, 10.0, 1, 6, 12, proj_angle_theta=th, proj_angle_phi=ph, LOS_normalization=0.0)
h = sorted([g for g in r.halos], key=lambda g: g.r3d)
same(len(h), 2, 'subhalos')
true(np.hypot(h[0].x, h[0].y) < 1e-6, 'a subhalo on the axis is in the middle')
""")
B('c21-negative-mu','C21','pyHalo/realization_extensions.py',
 [("            y1 = yy_ - (r[i]/2)*((sin_phi*mu[j]) - (cos_phi*np.sqrt(1-mu[j]**2)))","            y1 = yy_ - (r[i]/2)*((sin_phi*mu[j]) - np.sign(mu[j])*(cos_phi*np.sqrt(1-mu[j]**2)))"),
  ("            y2 = yy_ + (r[i]/2)*((sin_phi*mu[j]) - (cos_phi*np.sqrt(1-mu[j]**2)))","            y2 = yy_ + (r[i]/2)*((sin_phi*mu[j]) - np.sign(mu[j])*(cos_phi*np.sqrt(1-mu[j]**2)))")],
 'separations at more than ninety degrees from the radial direction (negative mu)',
 'the ends of the separation are not opposite of each other at the requested distance and angle',
"""
from pyHalo.realization_extensions import corr_kappa_with_mask
g = np.linspace(-2, 2, 81)
x, y = np.meshgrid(g, g)
k = np.exp(-(x ** 2 + y ** 2)) + 0.3 * x - 0.2 * y
mu = np.array([-0.9, -0.6, -0.3])
# seen from the other end the separation has the opposite angle: a map symmetric under reflection gives the same for both
k = np.cos(3 * x) * np.cos(3 * y)
a = corr_kappa_with_mask(k, 4.0, np.array([0.3, 0.6]), mu, apply_mask=False)
b = corr_kappa_with_mask(k, 4.0, np.array([0.3, 0.6]), -mu, apply_mask=False)
same(a, b, 'opposite angles', 1e-3)
""")

plant_all([s for s in S if not want or s['id'] in want])
