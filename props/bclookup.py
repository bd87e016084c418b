"""P09: which boundary function is called."""
from . import common
from .common import Sim
from .kinematics import tick

PROPERTY = dict(
    title='The most specific boundary function for a boundary and species is called',
    files=['Particle_Module.py'],
    functions=['ParticleMeshBoundaryConditions_C.__init__', 'Particle_C.advance_charged_species_in_E_field', 'Particle_C.advance_neutral_species'],
    explanation='Symbolic execution of the lookup and the movers from source: the presence of every candidate function (general default, default of each '
                'boundary, boundary-and-species) is a symbolic truth value, the species and the way out are symbolic; z3 explores every combination.',
    bounds='3 boundaries x 2 species and 2 boundaries x 3 species with every combination of present functions; tags in any order and with gaps; names that contain each other',
    outside=['boundaries without any function', 'functions added after the lookup was set up'],
    assumptions=['the naming scheme documented for boundary functions'],
    reach=['beside another simulation', 'general default', 'default of the boundary', 'boundary and species', 'called through the mover'],
)


class Lazy:
    """User functions whose presence is decided when it is first asked for."""

    def __init__(self, k, names, log):
        self.__dict__.update(k_=k, names_=names, log_=log, have_={})

    def has_(self, n):
        if n not in self.names_:
            return False
        if n not in self.have_:
            self.have_[n] = bool(self.k_.choice('has_' + n, 2)) if not self.k_.symbolic else bool(self.k_.e.bool('has_' + n))
        return self.have_[n]

    def __getattr__(self, n):
        if n.startswith('__') or n.endswith('_') or not self.has_(n):
            raise AttributeError(n)

        def f(p, species_name, facet_index, dx_fraction=None, facet_normal=None, n=n):
            self.log_.append((n, species_name, int(facet_index)))
            p['bitflags'] = p['bitflags'] | 1
        f.fname = n
        return f


def present(k, lz, n):
    return lz.has_(n)


def candidates(bounds, species):
    out = ['default_bc'] + ['default_bc_at_' + b for b in bounds]
    for b in bounds:
        out += ['bc_at_%s_for_%s' % (b, sp) for sp in species]
    return out


def want(lz, b, sp):
    for n, l in (('bc_at_%s_for_%s' % (b, sp), 'boundary and species'), ('default_bc_at_' + b, 'default of the boundary'), ('default_bc', 'general default')):
        if lz.has_(n):
            return n, l
    return None, None


def lookup(k, tags, species):
    PM = k.repo('Particle_Module')
    bounds = list(tags)
    M = type('M', (), {})()
    M.particle_boundary_dict = dict(tags)
    log = []
    lz = Lazy(k, candidates(bounds, species), log)
    B = PM.ParticleMeshBoundaryConditions_C(list(species), M, lz)
    for b, t in tags.items():
        for sp in species:
            n, l = want(lz, b, sp)
            f = B.bc_function_dict[t][sp]
            got = None if f is None else f.fname
            if got != n:
                k.fail('boundary %s, species %s: %s is used instead of %s' % (b, sp, got, n))
            k.check(True, 'the most specific function is used')
            if l:
                k.reach(l)


def through(k, mover, names, species):
    """End to end: the mover calls the function of the boundary that is met and of the species."""
    log = []
    nm = {names[0]: [[0]], names[1]: [[3]]}
    dyn = 'neutral' if mover == 'neutral' else 'charged'
    spec = [(sp, 0.0 if dyn == 'neutral' else k.const(-1), k.const(2), dyn) for sp in species]
    holder = {}

    def bcs(P):
        holder['lz'] = Lazy(k, candidates(list(names), species), log)
        return holder['lz']
    s = Sim(k, 'line', spec, dt=k.frac(1, 2), names=nm, bcs=bcs)
    lz = holder['lz']
    sp = k.pick('species', list(species))
    x, u = s.point_in(1, 'x'), [k.real('u')]
    s.add(sp, x, u, cell=1, uid=1, w=k.const(1))
    X = x[0] + u[0] * k.frac(1, 2)
    lo, hi = not k.is_true(k.ge(X, 0)), not k.is_true(k.le(X, 4))
    if lo or hi:
        n, l = want(lz, names[0] if lo else names[1], sp)
        if n is None:
            return
    tick(s)
    if mover == 'neutral':
        s.P.advance_neutral_particles(s.ctrl)
    elif mover == 'legacy':
        s.P.move_particles_in_electrostatic_field(s.ctrl)
    else:
        s.P.advance_charged_particles_in_E_field(s.ctrl)
    if not lo and not hi:
        if log:
            k.fail('a boundary function is called although no boundary is met')
        return
    if len(log) != 1 or log[0][:2] != (n, sp):
        k.fail('%s is called instead of %s for species %s' % (log, n, sp))
    k.reach('called through the mover')
    k.check(True, 'the most specific function is called')


def beside(k, kind, of, args):
    common.beside(k, kind, globals()[of], args)


def jobs(tier):
    out = []

    def job(fn, weight=1, **cfg):
        out.append(dict(name=fn + ' ' + ' '.join('%s=%s' % kv for kv in cfg.items()), fn=fn, cfg=cfg, weight=weight))
    job('lookup', 5, tags={'xmin': 1, 'xmax': 2, 'ymin': 4}, species=('e', 'H'))
    job('lookup', 5, tags={'x': 7, 'xmin': 3, 'at_x': 5}, species=('e', 'e_fast'))
    job('lookup', 5, tags={'b': 9, 'a': 1}, species=('e', 'H', 'He'))
    for m in ('charged', 'neutral', 'legacy'):
        job('through', 10, mover=m, names=('left', 'right'), species=('e', 'H'))
    common.beside_jobs(out, ['lookup', ('through', 'neutral', 'one')])
    return out
