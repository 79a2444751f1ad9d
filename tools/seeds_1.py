import sys; sys.path.insert(0,'/verif/tools')
from plant import plant_all
S=[]
def B(id,prop,file,edits,needs,breaks,demo): S.append(dict(id=id,property=prop,file=file,edits=edits,needs=needs,breaks=breaks,demo=demo))
B('c01-near-degenerate-slope','C01','pyHalo/Rendering/MassFunctions/util.py',
 [("    if factor == 0:\n","    if abs(factor) < 0.08:\n")],
 'a mass-function slope close to (but not at) -1 or -2, e.g. -1.95',
 'the mean number / first moment of the power-law mass function near the degenerate slopes is that of the degenerate slope, so draws no longer carry the stated mean mass',
'''
from pyHalo.Rendering.MassFunctions.mass_function_base import CDMPowerLaw
from scipy.integrate import quad
for slope in (-1.9, -1.95, -2.0, -2.04, -1.03):
    m = CDMPowerLaw(6.0, 10.0, slope, False, 1e8 if slope < -1.5 else 10.0)
    for n, got in ((0, m.n_mean), (1, m.first_moment)):
        want = quad(lambda u: m._normalization * np.exp(u * (slope + n + 1)), np.log(1e6), np.log(1e10))[0]
        same(got, want, ('moment', n, slope), 1e-5)
''')
B('c02-dnda-tilt','C02','pyHalo/Rendering/subhalos.py',
 [("            m_pivot_factor = kwargs_model['m_pivot'] ** -(kwargs_model['power_law_index'] + 1)\n            kwargs_model['normalization'] = area * kwargs_model['dndA']",
   "            m_pivot_factor = kwargs_model['m_pivot'] ** -(self._kwargs_mass_function['power_law_index'] + 1)\n            kwargs_model['normalization'] = area * kwargs_model['dndA']")],
 'subhalos normalised with dndA together with a non-zero delta_power_law_index',
 'a tilt of the subhalo mass function no longer pivots about m_pivot: the number of subhalos at the pivot mass is not the requested dndA',
'''
from pyHalo.Rendering.subhalos import Subhalos
from pyHalo.Rendering.MassFunctions.mass_function_base import CDMPowerLaw


class Cosmo:
    def kpc_proper_per_asec(self, z):
        return 6.0


class Lens:
    z_lens, cosmo = 0.5, Cosmo()


class Geo:
    cone_opening_angle = 6.0


def amplitude(delta):
    kw = dict(dndA=0.02, m_pivot=1e8, power_law_index=-1.9, delta_power_law_index=delta, log_mlow=6.0, log_mhigh=10.0, draw_poisson=False,
              host_m200=1e13)
    return Subhalos(CDMPowerLaw, kw, None, Geo(), Lens())._get_mass_function_model().evaluate(1e8)


want = 0.02 * np.pi * 18.0 ** 2 / 1e8
for delta in (0.0, 0.1, -0.15):
    same(amplitude(delta), want, ('dN/dm at the pivot', delta))
''')
B('c11-table-high-redshift','C11','pyHalo/Halos/concentration.py',
 [("            if log10m[0] <= x <= log10m[-1] and u[0] <= y <= u[-1]:","            if log10m[0] <= x <= log10m[-1] and u[0] <= y:")],
 'a concentration asked at z > 10.2 after an earlier query has built the interpolation table (order of queries)',
 'the tabulated concentration is extrapolated beyond the table, so the answer depends on earlier queries and is off the underlying model',
'''
from pyHalo.Cosmology.cosmology import Cosmology
from pyHalo.Halos.concentration import ConcentrationDiemerJoyce, ConcentrationLudlow
c = Cosmology()
for cls in (ConcentrationDiemerJoyce, ConcentrationLudlow):
    fresh = cls(c.astropy, scatter=False).nfw_concentration(1e8, 16.0)
    used = cls(c.astropy, scatter=False)
    used.nfw_concentration(1e8, 0.5)
    same(used.nfw_concentration(1e8, 16.0), fresh, cls.__name__, 3e-3)
''')
B('c10-grouped-by-rounded-redshift','C10','pyHalo/Halos/batch_halo_util.py',
 [("        key = (id(h._concentration_class), float(h.z_eval))","        key = (id(h._concentration_class), round(float(h.z_eval), 2))")],
 'a batch in which two halos with different infall redshifts fall into the same 0.01-wide bin',
 'concentrations computed in a batch are evaluated at rounded redshifts, unlike the per-halo evaluation',
'''
from pyHalo.Cosmology.cosmology import Cosmology
from pyHalo.Halos.concentration import ConcentrationDiemerJoyce
from pyHalo.Halos.batch_halo_util import precompute_concentrations


class H:
    def __init__(self, m, z, cc):
        self.mass, self.z_eval, self._concentration_class = m, z, cc


c = ConcentrationDiemerJoyce(Cosmology().astropy, scatter=False)
zs = [0.8651, 0.8749, 0.8702, 3.1]
halos = [H(10 ** (7 + i), z, c) for i, z in enumerate(zs)]
precompute_concentrations(halos)
for h in halos:
    same(h._c, c.nfw_concentration(h.mass, h.z_eval), ('concentration', h.z_eval), 1e-9)
''')
B('c03-lens-plane-field-halos','C03','pyHalo/single_realization.py',
 [("                if halo.is_subhalo:\n                    m_exact += halo.bound_mass\n                    #m_exact += halo.mass_3d('r200')\n                else:\n                    m_exact += halo.mass\n",
   "                if halo.is_subhalo:\n                    m_exact += halo.bound_mass\n                    #m_exact += halo.mass_3d('r200')\n")],
 'exact mass sheets in a realization that has field (two-halo) halos exactly at the lens redshift',
 'the mass of two-halo/field halos in the main lens plane is not balanced by the negative sheet when exact sheets are subtracted',
'''
from pyHalo.single_realization import Realization


class H:
    is_subhalo = False

    def __init__(self, m, z, sub):
        self.mass, self.z, self.is_subhalo, self.bound_mass = m, z, sub, 0.3 * m
        self.x = self.y = 0.0
        self.r3d, self.mdef, self.unique_tag = 1.0, 'TNFW', m


from pyHalo.Cosmology.cosmology import Cosmology
from pyHalo.Halos.lens_cosmo import LensCosmo
lc = LensCosmo(0.5, 1.5, Cosmology())
r = Realization.from_halos([H(1e8, 0.5, True), H(2e8, 0.5, False), H(3e8, 0.7, False)], lc, {}, True, None)
same(r.mass_at_z_exact(0.5), 0.3e8 + 2e8, 'mass at the lens plane')
same(r.mass_at_z_exact(0.7), 3e8, 'mass behind')
''')
B('c07-sheet-centre','C07','pyHalo/single_realization.py',
 [("            x_center, y_center = centerx_interp(di), centery_interp(di)","            x_center, y_center = centerx_interp(di), centery_interp(di if zi > self._zlens else 0.5 * di)")],
 'a realization whose rendering volume follows a curved light path (shifted), foreground sheets',
 'negative sheets in the foreground are centred off the rendering volume in y',
'''
from scipy.interpolate import interp1d
from pyHalo.Cosmology.cosmology import Cosmology
from pyHalo.single_realization import Realization
from pyHalo.Halos.lens_cosmo import LensCosmo
cosmo = Cosmology()
lc = LensCosmo(0.5, 1.5, cosmo)


class Sheets:
    name = 'LINE_OF_SIGHT'

    def convergence_sheet_correction(self, *a, **k):
        z = [0.2, 0.5, 0.9]
        return [{'kappa': -0.01} for _ in z], ['CONVERGENCE'] * 3, z


d = np.linspace(0, cosmo.D_C_z(1.5) * 1.1, 200)
fx, fy = interp1d(d, 0.5 * (d / d[-1]) ** 2), interp1d(d, -0.2 * (d / d[-1]) ** 2)
r = Realization.from_halos([], lc, {}, True, [Sheets()]).shift_background_to_source(fx, fy)
names, z, kw, _ = r.lensing_quantities()
same([k['ra_0'] for k in kw], [fx(cosmo.D_C_z(q)) for q in z], 'sheet centre x')
same([k['dec_0'] for k in kw], [fy(cosmo.D_C_z(q)) for q in z], 'sheet centre y')
''')
if __name__=='__main__':
    ids=sys.argv[1:]
    plant_all([s for s in S if not ids or s['id'] in ids])
