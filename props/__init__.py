"""Property registry: property id -> module under props/."""
from . import info
REGISTRY = {
    'P01': 'storage_py',
    'P04': 'kinematics',
    'P02': 'storage_cpp', 'P03': 'conserve',
    'P05': 'tracking',
    'P06': 'boundary',
    'P07': 'facets',
    'P08': 'trajectory',
    'P09': 'bclookup',
    'P10': 'diagnostics',
    'P11': 'deposit',
    'P12': 'output',
    'P13': 'sources',
    'P14': 'regions',
    'P15': 'meshtables',
    'P16': 'fields',
    'P17': 'cpp_move', 'P18': 'cpp_bound', 'P19': 'cpp_geom', 'P20': 'cpp_traj', 'P21': 'poisson', 'P22': 'usermesh', 'P23': 'cycle',
}
