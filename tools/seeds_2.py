import sys; sys.path.insert(0,'/verif/tools')
from plant import plant_all
S=[]
def B(id,prop,file,edits,needs,breaks,demo): S.append(dict(id=id,property=prop,file=file,edits=edits,needs=needs,breaks=breaks,demo=demo))
WORLD='''
from pyHalo.Cosmology.cosmology import Cosmology
from pyHalo.Halos.lens_cosmo import LensCosmo
cosmo = Cosmology()
'''
B('c04-last-slice','C04','pyHalo/Cosmology/geometry.py',
 [("            volume += self.volume_element_comoving(z[i], min(delta_z, self._zsource - z[i]))","            volume += self.volume_element_comoving(z[i], delta_z)")],
 'a source redshift that is not a multiple of the 0.01 step of the volume sum, e.g. 1.503',
 'the comoving volume of the rendering area includes space behind the source',
WORLD+'''
from scipy.integrate import quad
from pyHalo.Cosmology.geometry import Geometry
for zs, kind in ((1.503, 'CYLINDER'), (1.503, 'CONE'), (2.5, 'DOUBLE_CONE')):
    g = Geometry(cosmo, 0.5, zs, 6.0, kind)
    cut = quad(lambda z: g.angle_to_comoving_area(3.0, z) * cosmo.astropy.hubble_distance.value / cosmo.astropy.efunc(z),
               1e-5, zs, points=[0.5], limit=400, epsrel=1e-7)[0]
    same(g.volume_MPC3, cut, ('volume', kind, zs), 2e-3)
''')
B('c05-age-array','C05','pyHalo/Cosmology/cosmology.py',
 [("        return np.where(z > zform, 0.0, self._halo_age_interp(z) - halo_form)","        return np.where(z > 10, 0.0, self._halo_age_interp(z) - halo_form)")],
 'halo ages evaluated for an array of redshifts with a formation (infall) redshift below 10 and some redshifts above it',
 'halos get negative ages: the array and scalar evaluations disagree',
WORLD+'''
z = np.array([0.3, 1.0, 2.9, 3.1, 6.0])
same(cosmo.halo_age(z, zform=3.0), [cosmo.halo_age(q, zform=3.0) for q in z], 'ages', 1e-6)
''')
B('c06-aperture-kpc-weight','C06','pyHalo/single_realization.py',
 [("                dr_kpc = np.sqrt(dx_kpc ** 2 + dy_kpc ** 2)\n                dr_cut = aperture_radius * w_eff[:, None]","                dr_kpc = np.sqrt(dx_kpc ** 2 + dy_kpc ** 2)\n                dr_cut = aperture_radius * np.clip(w_eff[:, None] ** 2, w_min, 1.0)")],
 'filter() with aperture_units KPC and geometric weighting',
 'halos inside the requested comoving aperture are dropped in front of and behind the peak of the lensing efficiency',
WORLD+'''
from scipy.interpolate import interp1d
from pyHalo.single_realization import Realization


class H:
    is_subhalo, fixed_position, r3d, mdef = False, False, None, 'NFW'

    def __init__(self, z, x):
        self.mass, self.z, self.x, self.y, self.unique_tag = 1e6, z, x, 0.0, z + x


lc = LensCosmo(0.5, 1.5, cosmo)
d = np.linspace(0, cosmo.D_C_z(1.5), 50)
f = interp1d(d, 0 * d)
cs = cosmo.D_C_z(1.5)
halos, want = [], []
for z in (0.1, 0.22, 0.5, 0.9, 1.26, 1.4):
    c = cosmo.D_C_z(z)
    w = min(1.0, max(0.1, c * (cs - c) / (cs / 2) ** 2))
    edge = 20.0 * w / (c * 1e3) * 206264.806
    halos += [H(z, 0.97 * edge), H(z, 1.03 * edge)]
    want.append(0.97 * edge)
r = Realization.from_halos(halos, lc, {}, False, None).filter(20.0, 8.0, [f], [f], aperture_units='KPC')
same([h.x for h in r.halos], want, 'halos kept')
''')
B('c08-norm-before-truncation','C08','pyHalo/Halos/HaloModels/TNFW.py',
 [("            [_, rt] = self.profile_args\n            rhos, rs, r200 = self.nfw_params\n            self._params_physical = {'rhos': rhos * self._rescale_norm, 'rs': rs, 'r200': r200, 'r_trunc_kpc': rt}",
   "            rhos, rs, r200 = self.nfw_params\n            rhos = rhos * self._rescale_norm\n            [_, rt] = self.profile_args\n            self._params_physical = {'rhos': rhos, 'rs': rs, 'r200': r200, 'r_trunc_kpc': rt}")],
 'a tidally stripped subhalo whose physical parameters are the first property that is read',
 'the physical density normalisation misses the rescaling that comes with the truncation radius; it depends on the order in which properties are read',
WORLD+'''
from pyHalo.Halos.HaloModels.TNFW import TNFWSubhalo
lc = LensCosmo(0.5, 1.5, cosmo)


def halo():
    return TNFWSubhalo.simple_setup(1e8, 0.05, 2.0, 0.1, 0.2, 0.5, lc)


a, b = halo(), halo()
b.lenstronomy_params
same(a.params_physical['rhos'], b.params_physical['rhos'], 'rhos read first or last')
''')
B('c09-zinfall-radius','C09','pyHalo/Halos/tidal_truncation.py',
 [("        deltaz_infall = self.halo_deltaz_infall(halo)\n        log10c = np.log10(infall_concentration)\n        log10mbound_over_minfall = self._mass_loss_interp(log10c, deltaz_infall, self._chost)\n        m_bound = halo_mass * 10 ** log10mbound_over_minfall\n        _, rs, r200 = self._lens_cosmo.NFW_params_physical(halo_mass,\n                                                           infall_concentration,\n                                                           halo.z_eval,",
   "        deltaz_infall = self.halo_deltaz_infall(halo)\n        log10c = np.log10(infall_concentration)\n        log10mbound_over_minfall = self._mass_loss_interp(log10c, deltaz_infall, self._chost)\n        m_bound = halo_mass * 10 ** log10mbound_over_minfall\n        _, rs, r200 = self._lens_cosmo.NFW_params_physical(halo_mass,\n                                                           infall_concentration,\n                                                           halo.z,")],
 'TRUNCATION_GALACTICUS_ZINFALL used with a profile that asks for the truncation radius directly (not a TNFW subhalo)',
 'the truncation radius is computed with the virial radius at the lens redshift instead of at infall',
WORLD+'''
from pyHalo.Halos.tidal_truncation import TruncationGalacticusZinfall
lc = LensCosmo(0.5, 1.5, cosmo)
t = TruncationGalacticusZinfall(lc, 6.0)


class H:
    mass, c, z, z_eval, z_infall = 1e8, 14.0, 0.5, 2.5, 2.5

    def rescale_normalization(self, f):
        self.f = f


np.random.seed(3)
got = t.truncation_radius_halo(H())
np.random.seed(3)
same(got, t.truncation_radius(1e8, 14.0, 2.0, 2.5), 'truncation radius')
''')
B('c12-list-slope','C12','pyHalo/realization_extensions.py',
 [("                                                 collapse_probability,\n                                                 halo_profile,\n                                                 gamma_inner,\n                                                 scale_match_r,\n                                                 log_slope_match,\n                                                 t_over_tc)",
   "                                                 collapse_probability,\n                                                 halo_profile,\n                                                 scale_match_r=scale_match_r,\n                                                 log_slope_match=log_slope_match,\n                                                 t_over_tc=t_over_tc)")],
 'toSIDM_halo_list with the composite collapsed profile and a non-default gamma_inner',
 'the inner slope requested for a list of halos is ignored; single-halo and list conversion differ',
WORLD+'''
from pyHalo.Halos.HaloModels.TNFW import TNFWSubhalo
from pyHalo.single_realization import Realization
from pyHalo.realization_extensions import RealizationExtensions
lc = LensCosmo(0.5, 1.5, cosmo)
h = TNFWSubhalo.simple_setup(1e8, 0.2, 2.0, 0.1, 0.2, 0.5, lc)
ext = RealizationExtensions(Realization.from_halos([h], lc, {}, False, None))
kw = dict(t_c=1e-6, subhalo_evolution_scaling=1.0, halo_profile='CC_COMPOSITE', gamma_inner=2.3)
one = ext.toSIDM_single_halo(h, **kw)
many = ext.toSIDM_halo_list([h], **kw).halos[0]
same(many.profile_args if False else many._args['gamma_inner'], 2.3, 'inner slope')
for a, b in zip(one.lenstronomy_params[0], many.lenstronomy_params[0]):
    for k in a:
        same(b[k], a[k], k)
''')
B('c13-rescale-square','C13','pyHalo/Rendering/correlated_structure.py',
 [("            dr = np.hypot(self._halo_x - x_angle, self._halo_y - y_angle)","            dr = np.maximum(abs(self._halo_x - x_angle), abs(self._halo_y - y_angle))")],
 'a halo in the corner of the square around the light path, outside of the circular aperture',
 'halos outside of the aperture lose mass to the correlated structure although none of theirs was used',
WORLD+'''
from scipy.interpolate import interp1d
from pyHalo.Halos.HaloModels.TNFW import TNFWFieldHalo
from pyHalo.single_realization import Realization
from pyHalo.realization_extensions import RealizationExtensions
from pyHalo.Cosmology.geometry import Geometry
lc = LensCosmo(0.5, 1.5, cosmo)
halos = [TNFWFieldHalo.simple_setup(1e9, x, y, 0.5, 8.0, lc) for x, y in ((0.05, 0.0), (0.35, 0.33), (0.9, 0.9))]
for i, h in enumerate(halos):
    h.unique_tag = 0.1 + i
r = Realization.from_halos(halos, lc, {}, False, None, geometry=Geometry(cosmo, 0.5, 1.5, 6.0, 'DOUBLE_CONE'))
d = np.linspace(0, cosmo.D_C_z(1.5) * 1.01, 50)
f = interp1d(d, 0 * d)
np.random.seed(1)
out = RealizationExtensions(r).add_primordial_black_holes(0.3, 5.0, 1.0, [f], [f], [0.4], 0.02)
norm = {round(h.unique_tag, 6): h.rescale_norm for h in out.halos if h.mdef == 'TNFW'}
same([norm[0.1], norm[1.1], norm[2.1]], [0.7, 1.0, 1.0], 'normalisations')
''')
B('c14-alias','C14','pyHalo/Rendering/line_of_sight.py',
 [("        kwargs_model = deepcopy(self._kwargs_mass_function)","        kwargs_model = self._kwargs_mass_function")],
 'drawing more than one realization, or reading the lensing quantities, from the same rendering class',
 'computing the sheets (log_mlow 7 - 10) narrows the mass range that the same rendering class draws afterwards, and the caller-owned dictionary changes',
WORLD+'''
from pyHalo.Cosmology.geometry import Geometry
from pyHalo.Rendering.line_of_sight import LineOfSight
from pyHalo.Rendering.MassFunctions.density_peaks import ShethTormen
from pyHalo.Rendering.SpatialDistributions.uniform import LensConeUniform
from pyHalo.utilities import generate_lens_plane_redshifts
lc = LensCosmo(0.5, 1.5, cosmo)
g = Geometry(cosmo, 0.5, 1.5, 6.0, 'DOUBLE_CONE')
z, dz = generate_lens_plane_redshifts(0.5, 1.5)
kw = {'m_pivot': 1e8, 'log_mlow': 6.0, 'log_mhigh': 9.0, 'LOS_normalization': 1.0, 'delta_power_law_index': 0.0, 'draw_poisson': True}
c = LineOfSight(ShethTormen, kw, LensConeUniform(6.0, g), g, lc, z, dz)
np.random.seed(2)
a = c.render()[0]
c.convergence_sheet_correction(1.0, 7.0, 10.0)
np.random.seed(2)
b = c.render()[0]
same(b, a, 'masses drawn after the sheets were computed')
same(kw['log_mlow'], 6.0, 'settings')
''')
B('c16-cdf-edge','C16','pyHalo/utilities.py',
 [("    cdf = cdf * float(np.max(cdf)) ** -1\n    cdf_inverse = interp1d(cdf, x)\n    u = np.random.uniform(cdf[0], cdf[-1], n_samples)",
   "    cdf = cdf * float(np.max(cdf)) ** -1\n    cdf_inverse = interp1d(cdf, x, bounds_error=False, fill_value=(x[0], x[-1]))\n    u = np.random.uniform(0, cdf[-1], n_samples)")],
 'a distribution that is concentrated at the lower edge of its range, on a coarse grid',
 'a finite fraction of the samples sits exactly on the lower edge of the range: the samples do not follow the given cumulative distribution',
'''
from pyHalo.utilities import inverse_transform_sampling_from_cdf
x = np.linspace(1.0, 2.0, 11)
cdf = np.linspace(0.3, 1.0, 11)
np.random.seed(1)
s = inverse_transform_sampling_from_cdf(x, cdf, 20000)
same(np.mean(s), 1.5, 'mean', 0.01)
true(np.sum(s == 1.0) == 0, 'samples pile up at the edge')
''')
B('c17-match-radius','C17','pyHalo/Halos/HaloModels/generalized_nfw.py',
 [("                if self._args['x_match'] == 'c':\n                    x_match = concentration","                if self._args['x_match'] == 'c':\n                    x_match = self._concentration_class.nfw_concentration(self.mass, self.z)")],
 "a generalised NFW subhalo normalised within its virial radius (x_match = 'c') whose infall redshift differs from the lens redshift",
 'the mass is conserved within a different radius than the virial radius at infall',
WORLD+'''
from pyHalo.Halos.HaloModels.generalized_nfw import GeneralNFWSubhalo
from pyHalo.Halos.concentration import ConcentrationDiemerJoyce
from scipy.integrate import quad
lc = LensCosmo(0.5, 1.5, cosmo)
cc = ConcentrationDiemerJoyce(cosmo, scatter=False)
h = GeneralNFWSubhalo(1e9, 0.1, 0.2, 5.0, 0.5, True, lc, {'gamma_inner': 1.6, 'gamma_outer': 3.4, 'x_match': 'c'}, None, cc, 0.3)
h.set_infall_redshift(3.0)
r200 = h.nfw_params[2]
m = quad(lambda u: 4 * np.pi * np.exp(3 * u) * h.density_profile_3d(np.exp(u)), np.log(1e-6 * r200), np.log(r200), limit=400)[0]
same(m, 1e9, 'mass within the virial radius at infall', 0.01)
''')
B('c18-virialized-trees','C18','pyHalo/Halos/galacticus_util/galacticus_filter.py',
 [("    rv_tree[halo_output_n[filtered_halos]] = rv_halos\n\n    filter_virialized = r < rv_tree[halo_output_n]","    rv_tree[np.sort(halo_output_n[filtered_halos])] = rv_halos\n\n    filter_virialized = r < rv_tree[halo_output_n]")],
 'node data whose trees are not in ascending order (re-ordered or concatenated)',
 'subhalos are compared with the virial radius of the host of another tree',
'''
from pyHalo.Halos.galacticus_util.galacticus_filter import nodedata_filter_virialized
from pyHalo.Halos.galacticus_util.galacticus_util import GalacticusUtil as G
o = np.array([2, 2, 0, 0, 1, 1])
d = {G.PARAM_X: np.array([0., .5, 0, .5, 0, .5]), G.PARAM_Y: np.zeros(6), G.PARAM_Z: np.zeros(6),
     G.PARAM_ISOLATED: np.array([1, 0, 1, 0, 1, 0]), G.PARAM_RADIUS_VIRIAL: np.array([.3, 0, .7, 0, .9, 0]), G.PARAM_TREE_ORDER: o}
same(nodedata_filter_virialized(d), [1, 0, 1, 1, 1, 1], 'virialized')
''')
B('c19-mean-path','C19','pyHalo/utilities.py',
 [("            y_center = np.mean(y_coords)\n","            y_center = np.median(y_coords)\n")],
 'the mean path of three or more asymmetric images',
 'the y coordinate of the mean light path is the median of the images',
WORLD+'''
from lenstronomy.LensModel.lens_model import LensModel
from pyHalo.utilities import interpolate_ray_paths
lm = LensModel(['SIS'], z_source=1.5, multi_plane=True, lens_redshift_list=[0.5], cosmo=cosmo.astropy)
kw = [{'theta_E': 1.0, 'center_x': 0.0, 'center_y': 0.0}]
x, y = [1.1, -0.8, 0.2], [0.1, -0.5, 1.3]
fx, fy = interpolate_ray_paths(x, y, lm, kw, 1.5, cosmo=cosmo)
mx, my = interpolate_ray_paths(x, y, lm, kw, 1.5, cosmo=cosmo, evaluate_at_mean=True)
for z in (0.2, 0.5, 1.0):
    d = cosmo.D_C_transverse(z)
    same(mx[0](d), np.mean([f(d) for f in fx]), 'x', 5e-3)
    same(my[0](d), np.mean([f(d) for f in fy]), 'y', 5e-3)
''')
B('c20-cached-rmax','C20','pyHalo/Halos/galacticus_truncation/transfer_function_density_profile.py',
 [("            if (gamma < 2.0):\n                Rmax = 2.0 - gamma","            if (gamma < 2.0):\n                Rmax = 2.0 / (1.0 + gamma)")],
 'a beta = 4 profile with an inner slope other than 0 or 1',
 'the radius of maximum circular velocity of Hernquist-like profiles with gamma 0.5 or 1.5 is wrong, so bound masses are converted with the wrong reference mass',
'''
from scipy.optimize import minimize_scalar
from pyHalo.Halos.galacticus_truncation import transfer_function_density_profile as t
for g in (0.0, 0.5, 1.0, 1.5):
    want = minimize_scalar(lambda x: -t._M_enclosed_generalized_NFW_dimensionless(x, 1.0, 4.0, g) / x, bounds=(1e-3, 10), method='bounded',
                           options={'xatol': 1e-9}).x
    same(t._R_max_generalized_NFW_dimensionless(1.0, 4.0, g), want, ('Rmax', g), 1e-4)
''')
if __name__=='__main__':
    ids=sys.argv[1:]
    plant_all([s for s in S if not ids or s['id'] in ids])
