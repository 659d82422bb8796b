"""Which contracts carry which property."""
from .specs import spin, chain, energy, mc, langevin, laws, build, logs, safe, fits, obs, cmds, cli, equil, avg
from .lemmas import lean
from .obsrun import runs
from .mainrun import runs as mruns

UNITS = {}
for _m in (spin, chain, energy, mc, langevin, laws, build, logs, safe, fits, obs, cmds, cli, equil, avg):
    for _u in _m.UNITS:
        UNITS[_u.name] = _u
SC, SL = 'SpinChain', 'SpinChainLangevin'


def both(*fs):
    return ['%s::%s' % (t, f) for t in (SC, SL) for f in fs]


ROT = ['Spin::rotate', 'Spin::rotate (length and axis component)', 'Spin::rotate there and back', 'Spin::rotate in a zero field']
KEEP = [n for n in UNITS if n.endswith('keeps unit spins')]
PROPS = {
    'C01': {'units': ['Spin::new', 'Spin::default', 'Spin::new_xyz', 'Spin::new_from_angles', 'Spin::set_angles', 'Spin::gs', 'Spin::rot_perp', 'Spin::rotate (length and axis component)'] + KEEP + both('new')},
    'C04': {'units': both('new'), 'extra': (lean('InitialAngle'),)},
    'C06': {'units': ['SpinChain::update keeps the energy', 'energy of an even sweep', 'energy of an odd sweep']},
    'C07': {'units': ['SpinChain::update there and back']},
    'C14': {'units': [SL + '::update']},
    'C02': {'units': ROT},
    'C03': {'units': ['Spin::theta+phi round trip', 'Spin::rot_perp', 'Spin::gs', 'Spin::xyz', 'Spin::new_from_angles']},
    'C05': {'units': ['SpinChain::update', 'SpinChain::update_no_field']},
    'C08': {'units': both('h_ext', 'h_extp')},
    'C09': {'units': both('total_energy', 'total_energy2', 'system_energy') + ['SpinChain::mc_total_energy', 'SpinChain::mc_system_energy']},
    'C10': {'units': both('m', 'm_tot') + [SC + '::energy_spectrum']},
    'C11': {'units': both('metropolis_update')},
    'C12': {'units': [SC + '::metropolis_update_maglab', SC + '::metropolis_update_rot_magnus', SC + '::metropolis_update_magnus', SC + '::metropolis_update_mag_full', SL + '::metropolis_update_magnus']},
    'C13': {'units': [SC + '::mc_system_energy_rot', SC + '::mc_system_energy_maglab', SC + '::metropolis_update_rot_magnus', SC + '::metropolis_update_maglab']},
    'C20': {'units': both('log') + [SC + '::log_ext']},
    'C24': {'units': [u.name for u in safe.UNITS]},
    'C15': {'units': both('boundary_term')},
    'C16': {'units': [u.name for u in obs.FITS], 'extra': (runs('C16'), lean('Bisection'))},
    'C17': {'units': both('solve_beta'), 'extra': (lean('MeanField'),)},
    'C18': {'units': [u.name for u in cmds.MCS] + ['writers::write_in_bg'], 'extra': (runs('C18'),)},
    'C19': {'units': [u.name for u in cmds.RUNS + cmds.NOLOG] + both('new'), 'extra': (runs('C19'),)},
    'C21': {'units': [u.name for u in cmds.PROF + cmds.TIMES] + ['writers::profile_in_bg'], 'extra': (runs('C21'), lean('SiteEnergy'))},
    'C26': {'units': [u.name for u in cmds.DELIVER] + ['writers::write_in_bg'], 'extra': (runs('C26'),)},
    'C29': {'units': [u.name for u in cmds.HIST], 'extra': (runs('C29'),)},
    'C22': {'units': [u.name for u in avg.UNITS], 'extra': (runs('C22'), lean('Averages'))},
    'C23': {'units': [u.name for u in obs.EST], 'extra': (runs('C23'),)},
    'C27': {'units': [u.name for u in cli.READ], 'extra': (mruns('C27'),)},
    'C28': {'units': [u.name for u in equil.UNITS] + ['SpinChain::update keeps the energy', 'energy of an even sweep', 'energy of an odd sweep', 'SpinChain::metropolis_update'], 'extra': (lean('MetropolisBalance'),)},
    'C30': {'units': [u.name for u in cli.CLI], 'extra': (mruns('C30'),)},
    'C25': {'units': [u.name for u in cmds.STROB], 'extra': (runs('C25'),)},
}
