import sys; sys.path.insert(0,'/verif/tools')
from plant import plant_all
S=[]
def B(id,prop,file,edits,needs,breaks,demo): S.append(dict(id=id,property=prop,file=file,edits=edits,needs=needs,breaks=breaks,demo=demo))
WORLD='''
from pyHalo.Cosmology.cosmology import Cosmology
from pyHalo.Halos.lens_cosmo import LensCosmo
cosmo = Cosmology()
'''
B('c12-list-common-time','C12','pyHalo/realization_extensions.py',
 [("                    kwargs_profile = {'sidm_timescale': halo.halo_age / t_over_tc}\n                    kwargs_profile['lambda_t'] = 1.0\n                kwargs_profile['mass_conservation'] = mass_conservation\n                kwargs_profile['rt_kpc'] = rt_kpc\n                sidm_halo = TNFWCHaloEvolving(",
   "                    kwargs_profile = {'sidm_timescale': halo.halo_age / t_over_tc}\n                    kwargs_profile['lambda_t'] = 1.0 if subhalo_evolution_scaling is None else subhalo_evolution_scaling\n                kwargs_profile['mass_conservation'] = mass_conservation\n                kwargs_profile['rt_kpc'] = rt_kpc\n                sidm_halo = TNFWCHaloEvolving(")],
 'a common evolution time (t_over_tc) requested together with a rescaling of the evolution of subhalos',
 'the halos do not have the evolution time that was requested for all of them',
WORLD+'''
from pyHalo.Halos.HaloModels.TNFW import TNFWSubhalo
from pyHalo.single_realization import Realization
from pyHalo.realization_extensions import RealizationExtensions
lc = LensCosmo(0.5, 1.5, cosmo)
h = TNFWSubhalo.simple_setup(1e8, 0.2, 2.0, 0.1, 0.2, 0.5, lc)
ext = RealizationExtensions(Realization.from_halos([h], lc, {}, False, None))
for s in (None, 0.5, 1.7):
    g = ext.toSIDM_single_halo(h, None, s, t_over_tc=0.6, t_over_tc_cut=0.0)
    same(g.t_over_tc, 0.6, 'evolution time', 0.1)
''')
B('c12-core-infall','C12','pyHalo/realization_extensions.py',
 [("                sidm_halo = TNFWCHaloParametric(halo.mass,\n                                                halo.x,\n                                                halo.y,\n                                                halo.r3d,\n                                                halo.z,\n                                                halo.is_subhalo,\n                                                halo.lens_cosmo,\n                                                kwargs_profile,\n                                                truncation_class,\n                                                concentration_class,\n                                                halo.unique_tag)\n                if halo.is_subhalo:\n                    sidm_halo.set_infall_redshift(halo.z_eval)",
   "                sidm_halo = TNFWCHaloParametric(halo.mass,\n                                                halo.x,\n                                                halo.y,\n                                                halo.r3d,\n                                                halo.z,\n                                                halo.is_subhalo,\n                                                halo.lens_cosmo,\n                                                kwargs_profile,\n                                                truncation_class,\n                                                concentration_class,\n                                                halo.unique_tag)\n                if halo.is_subhalo:\n                    sidm_halo.set_infall_redshift(halo.z)")],
 'a subhalo turned into a core of a given size (x_core_halo without a timescale) whose infall redshift is not the lens redshift',
 'the cored subhalo is built from the radii of a halo that fell in at the lens redshift',
WORLD+'''
from pyHalo.Halos.HaloModels.TNFW import TNFWSubhalo
from pyHalo.single_realization import Realization
from pyHalo.realization_extensions import RealizationExtensions
lc = LensCosmo(0.5, 1.5, cosmo)
h = TNFWSubhalo.simple_setup(1e8, 0.2, 2.0, 0.1, 0.2, 0.5, lc)
h.set_infall_redshift(3.0)
h = h.from_args(h, {}) if hasattr(h, 'from_args') else h
ext = RealizationExtensions(Realization.from_halos([h], lc, {}, False, None))
g = ext.toSIDM_single_halo(h, x_core_halo=0.1)
same(g.nfw_params, h.nfw_params, 'the collisionless halo')
''')
B('c21-fit-strict','C21','pyHalo/realization_extensions.py',
 [("    r_pivot = (r_min + r_max)/2\n","    r_pivot = (r[0] + r[-1])/2\n")],
 'a fit of a part of the range of separations',
 'the amplitude of the fitted power law refers to the middle of the whole range, not of the fitted one',
'''
from pyHalo.realization_extensions import fit_correlation_multipole
r = np.logspace(-2, 0, 60)
A, n = fit_correlation_multipole(r, 3.0 * (r / 0.2) ** -0.7, 0.1, 0.3)
same(A, 3.0, 'amplitude in the middle of the range', 1e-4)
same(n, -0.7, 'slope', 1e-4)
''')
B('c18-infall-virial','C18','pyHalo/PresetModels/external.py',
 [("            TNFWFromParams.KEY_RV :         nodedata[gutil.PARAM_CONCENTRATION] * nodedata[gutil.PARAM_RADIUS_SCALE] * MPC_TO_KPC,",
   "            TNFWFromParams.KEY_RV :         nodedata[gutil.PARAM_RADIUS_VIRIAL] * MPC_TO_KPC,")],
 'Galacticus nodes whose virial radius is not concentration x scale radius',
 'the virial radius and concentration of an imported subhalo are not those of its node',
'''
import pyHalo.PresetModels.external as ext
from pyHalo.Halos.galacticus_util.galacticus_util import GalacticusUtil as G
n = 3
d = {G.PARAM_X: np.array([0., 1e-3, 2e-3]), G.PARAM_Y: np.zeros(n), G.PARAM_Z: np.array([0., 1e-3, -2e-3]), G.PARAM_TREE_INDEX: np.ones(n, int), G.PARAM_TREE_ORDER: np.zeros(n, int),
     G.PARAM_NODE_ID: np.arange(n), G.PARAM_TNFW_RHO_S: np.full(n, 1e15), G.PARAM_TNFW_RADIUS_TRUNCATION: np.full(n, 2e-3), G.PARAM_RADIUS_VIRIAL: np.array([.3, .02, .03]),
     G.PARAM_RADIUS_SCALE: np.full(n, 1e-3), G.PARAM_MASS_BOUND: np.full(n, 1e8), G.PARAM_MASS_INFALL: np.array([1e13, 3e8, 4e8]), G.PARAM_ISOLATED: np.array([1, 0, 0]),
     G.PARAM_Z_LAST_ISOLATED: np.array([0.5, 1.5, 2.5]), G.PARAM_CONCENTRATION: np.array([5., 12., 9.])}
r = ext.DMFromGalacticus(d, 1.5, 6.0, 1, 6.0, 11.0, True, 0.3, 0.2, LOS_normalization=0.0)
sub = sorted([h for h in r.halos if h.is_subhalo], key=lambda h: h.mass)
same(len(sub), 2, 'number of subhalos')
same([h.nfw_params[2] for h in sub], [12.0, 9.0], 'virial radius')
''')
B('c18-plane-normal','C18','pyHalo/Halos/galacticus_util/galacticus_filter.py',
 [("    un = plane_normal / np.linalg.norm(plane_normal)","    un = plane_normal / np.max(np.abs(plane_normal))")],
 'a normal vector that is not along an axis',
 'projected radii depend on the length of the normal vector and are too small for inclined planes',
'''
from pyHalo.Halos.galacticus_util.galacticus_filter import project_r2d
same(project_r2d(np.array([1., 2.]), np.array([0., 1.]), np.array([0., -1.]), np.array([0, 0, 3.0])), [1.0, np.sqrt(5)], 'along an axis')
for n in ([1., 1., 0.], [2., 2., 0.], [1., 2., -3.]):
    n = np.array(n)
    p = np.array([0.3, -0.5, 0.8])
    u = n / np.sqrt((n ** 2).sum())
    same(project_r2d(*p[:, None], n), [np.linalg.norm(np.cross(p, u))], 'projected radius')
''')
B('c20-unstripped','C20','pyHalo/Halos/galacticus_truncation/transfer_function_density_profile.py',
 [("    f_t = np.where(x <= 1.0, (1.0 + D) * x ** E / (1.0 + D * x ** (2.0 * E)), 1.0)","    f_t = (1.0 + D) * x ** E / (1.0 + D * x ** (2.0 * E))")],
 'a halo whose bound mass is larger than its mass within the radius of the maximum circular velocity, up to unstripped',
 'a halo that lost no mass is suppressed by the transfer function',
'''
from pyHalo.Halos.galacticus_truncation.transfer_function_density_profile import _f_t_Du_2024 as f
for kw in (dict(), dict(gamma=0.5), dict(gamma=0.0), dict(delta=3.0), dict(beta=4.0)):
    try:
        v = f(np.array([0.3, 1.0, 2.0, 8.0]), **kw)
    except Exception:
        continue
    same(v[1:], np.ones(3), 'an unstripped halo %s' % kw, 1e-9)
    true(0 < v[0] < 1, 'a stripped halo')
''')
B('c15-uldm-host','C15','pyHalo/PresetModels/uldm.py',
 [("        c_host = concentration_model_for_host.nfw_concentration(10**log_m_host, z_lens)","        c_host = concentration_model_for_host.nfw_concentration(mhost_ref, z_lens)")],
 'fluctuations in a host halo whose mass is not the reference mass 10^13.3',
 'the fluctuations are scaled with the surface density of a host that has the concentration of the reference host',
WORLD+'''
import pyHalo.PresetModels.uldm as u
from pyHalo.preset_models import preset_model_from_name
from pyHalo.Halos.concentration import ConcentrationDiemerJoyce
got = []
class E:
    def __init__(self, r): pass
    def add_ULDM_fluctuations(self, *a, **k):
        got.append(k['fluctuation_amplitude'])
u.RealizationExtensions = E
lc = LensCosmo(0.5, 1.5, cosmo)
def sigma(m, c):
    rho, rs, _ = lc.NFW_params_physical(m, c, 0.5)
    x = cosmo.kpc_proper_per_asec(0.5) / rs
    return 2 * rho * rs * (1 - np.arctanh(np.sqrt(1 - x ** 2)) / np.sqrt(1 - x ** 2)) / (x ** 2 - 1)
conc = lambda m, z: 5.0 * (np.asarray(m) / 1e13) ** -0.2
ConcentrationDiemerJoyce.nfw_concentration = lambda self, m, z, *a, **k: conc(m, z)
cm = ConcentrationDiemerJoyce(cosmo.astropy)
for lm in (13.3, 12.3):
    preset_model_from_name('ULDM')(0.5, 1.5, -21.0, flucs=True, flucs_shape='ring', flucs_args={'rmin': 0.9, 'rmax': 1.1}, r_ein=1.0, log_m_host=lm,
                                   log_mlow=9.5, log_mhigh=10.0, cone_opening_angle_arcsec=1.0, LOS_normalization=0.0, sigma_sub=0.0)
want = [sigma(10 ** lm, float(cm.nfw_concentration(10 ** lm, 0.5))) for lm in (13.3, 12.3)]
same(got[1] / got[0], want[1] / want[0], 'scaling with the host mass', 1e-2)
''')
B('c13-edge-pixels','C13','pyHalo/Rendering/correlated_structure.py',
 [("        effective_area = np.pi * rendering_radius ** 2 / npixels","        effective_area = (2 * rendering_radius / (npix - 1)) ** 2")],
 'a coarse grid of pixels (few pixels in the aperture)',
 'the projected mass within the aperture depends on the resolution of the grid: pixels on the border count as a whole',
WORLD+'''
from pyHalo.Halos.HaloModels.TNFW import TNFWFieldHalo
from pyHalo.single_realization import Realization
from pyHalo.Rendering.correlated_structure import CorrelatedStructure
from pyHalo.Rendering.MassFunctions.delta_function import DeltaFunction
from pyHalo.Cosmology.geometry import Geometry
lc = LensCosmo(0.5, 1.5, cosmo)
class K:
    def __init__(self, *a, **k): pass
    def kappa(self, x, y, kw): return np.ones_like(x)
import pyHalo.Rendering.correlated_structure as cs
cs.LensModel = K
h = TNFWFieldHalo.simple_setup(1e8, 0.01, 0.02, 0.4, 5.0, lc)
real = Realization.from_halos([h], lc, {}, False, None)
g = Geometry(cosmo, 0.5, 1.5, 6.0, 'CYLINDER')
c = CorrelatedStructure(DeltaFunction, {'mass_fraction': 0.1, 'logM': 5.0, 'draw_poisson': False}, g, lc, [0.4], [0.02], real)
for pix in (0.1, 0.02, 0.004):
    _, m, inds = c._kappa_at_lens_plane(0.4, 0.0, 0.0, 0.2, pix)
    true(len(inds) == 1, 'the halo is in the aperture')
    same(m, np.pi * 0.04 * lc.sigma_crit_arcsecond_interp(0.4), 'mass of a uniform sheet', 1e-3)
''')
S=[s for s in S if s['needs']]
if __name__=='__main__':
    ids=sys.argv[1:]
    plant_all([s for s in S if not ids or s['id'] in ids])
