"""The properties, and the generator of properties.jsonl and MANIFEST.json (run: python3 tools/catalog.py)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TESTS = 'The tests run a handful of fixed initial conditions'
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), claim=True, reason=None, note=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], state=[dict(name=a, meaning=b) for a, b in state],
                          observe_at=list(observe), hook_needed='none'))
    P.append((d, claim, reason, note))


prop('P01', 'Particle storage is an ordered sequence under every history of use',
     'The Python particle store behaves as one ordered list of records: appending adds at the end, read loops visit every stored record once and in order, '
     'and counts, lookups by index and bulk access agree with that list. A read-and-write pass followed by setting the new count leaves exactly the records written, in order. '
     'This holds for every history of appends, read loops, abandoned loops, passes and lookups, for every segment length, and stores in use at the same time do not affect each other.',
     ['histories', 'inputs', 'configurations'], 'every bounded history of operations, every segment length, every record content',
     'The tests append a fixed number of items to one segment length and read them back; the failures live in histories that fill a segment exactly, empty the store, or append after a loop.',
     ['SegmentedArrayPair_Module.py'], [('store operations', 'SegmentedArrayPair_Module.py:SegmentedArrayPair_C')],
     [('segments', 'pair of lists of fixed-length record arrays'), ('counts', 'first free slot and first not full segment')], ['records returned by read loops and lookups', 'counts'])

prop('P02', 'C++ particle storage is an ordered sequence under every history of use',
     'The C++ particle store behaves as one ordered list of records: appending adds at the end, read loops visit every stored record once and in order, '
     'and counts, lookups by index and bulk access agree with that list. A read-and-write pass followed by setting the new count leaves exactly the records written, in order. '
     'This holds for every particle type, every history of appends, read loops, abandoned loops, passes and lookups, and every segment length, no operation touches memory it does not own, and stores in use at the same time do not affect each other.',
     ['histories', 'inputs', 'configurations'], 'every bounded history of operations, every segment length, every record content, every particle type',
     'The tests append a fixed number of items to one segment length and read them back; the failures live in histories that fill a segment exactly, empty the store, or append after a loop.',
     ['cpp/SegmentedArrayPair.h', 'cpp/Pstruct.h', 'cpp/segmented_array_pair_solib.cpp'], [('store operations', 'cpp/SegmentedArrayPair.h:SegmentedArrayPair'), ('records', 'cpp/Pstruct.h: Pstruct, set_from_list, as_dict')],
     [('segments', 'pair of vectors of fixed-length record arrays'), ('counts', 'first free slot and first not full segment')], ['records returned by read loops and lookups', 'counts'])

prop('P03', 'A time step never loses, duplicates, reorders or alters particles',
     'After a time step of the Python movers each species holds exactly the particles that did not get removed, once each, in their previous order, with unchanged identity, weight and flags, '
     'and the reported count is their number. Species that are not advanced are untouched. This holds for any mix of surviving and removed particles, any segment length and any number of steps, with new particles added between steps.',
     ['inputs', 'histories', 'configurations'], 'all positions, velocities, weights and time steps; every pattern of survivors; every segment length within the bound',
     TESTS + ' with a large segment length; patterns such as the last particle of a full segment being removed are never met.',
     ['Particle_Module.py', 'SegmentedArrayPair_Module.py'], [('movers', 'Particle_Module.py: advance_charged_species_in_E_field, advance_neutral_species, advance_charged_species_in_uniform_fields, move_particles_in_electrostatic_field')],
     observe=['stored records', 'particle counts'])

prop('P04', 'Each step kicks and moves every particle by its own field, charge and mass',
     'A time step of the Python movers changes the velocity of a charged particle by (charge/mass) times the electric field at its own position times the time step, and then its position by the new velocity times the time step; neutral particles keep their velocity. '
     'The computed field and the random external field act on exactly the species they are switched on for, and an acceleration-only step changes velocities and nothing else.',
     ['inputs', 'configurations'], 'all positions, velocities, charges, masses, time steps, nodal field values, random numbers and switch settings',
     TESTS + ' in one field; per-species switches and combinations with an external field are not exercised, nor is the field of one particle confused with that of another.',
     ['Particle_Module.py', 'Dolfin_Module.py'], [('movers', 'Particle_Module.py: advance_charged_species_in_E_field'), ('field interpolation', 'Dolfin_Module.py: Field_C.interpolate_field_to_points, interpolate_random_field_to_points')],
     observe=['stored positions and velocities'])

prop('P05', 'After every move the recorded cell is the one containing the particle',
     'After a time step of the Python movers, the cell recorded for each particle contains its position, the number of crossings recorded is the number of facets crossed, and facets are crossed in path order at points of the path. '
     'A particle is removed only if its path meets the boundary, and tracking never changes where it ends.',
     ['inputs', 'configurations'], 'all start points in the closed cell (facets, edges and vertices included) and all velocities, on every mesh within the bound',
     TESTS + ' and compare end points; paths through vertices, along facets, starting on a facet, or through several cells are not covered.',
     ['Particle_Module.py', 'Dolfin_Module.py'], [('tracking loop', 'Particle_Module.py: movers'), ('facet finder and cell test', 'Dolfin_Module.py: Mesh_C.find_facet, is_inside_cell')],
     observe=['recorded cell, crossings and path start', 'calls of boundary functions'])

prop('P06', 'Boundary crossings are reported truthfully; absorption and reflection are exact',
     'When a particle meets a marked facet, the boundary function is told the species, the facet, the fraction of the move before the crossing, the unit outward normal and the particle with its path start at the crossing point. '
     'The supplied absorbing functions remove exactly that particle, and the supplied reflecting functions give the specularly reflected orbit: mirrored end point, mirrored velocity, right cell, also after several reflections or when it is then absorbed elsewhere.',
     ['inputs', 'configurations'], 'all start points and velocities; every choice of reflecting facet within the bound; all Python movers',
     'The tests reflect a few electrons off a circle; multiple reflections, slanted walls, reflection followed by absorption, and other movers are not covered.',
     ['Particle_Module.py', 'Dolfin_Module.py', 'UserParticles_1D.py', 'UserParticles_2D_e.py', 'UserParticles_3D.py'],
     [('boundary call', 'Particle_Module.py: movers'), ('supplied boundary functions', 'UserParticles_*.py: UserParticleBoundaryFunctions_C')], observe=['arguments of boundary functions', 'stored particles'])

prop('P07', 'The facet crossed first is found for every start point and displacement',
     'For a start point in a cell and any displacement, the Python facet finder reports no facet exactly when the end point is in the closed cell, and otherwise a facet on which the displacement leaves the cell first, with the fraction travelled, the unit outward normal and the neighbour beyond it. '
     'The point-in-cell test is exact for every point.',
     ['inputs', 'configurations'], 'all start points and displacements for every cell of the bounded meshes in 1D, 2D and 3D',
     'The tests try a few displacements per dimension; ties between facets, zero displacements and starts on facets are not covered.',
     ['Dolfin_Module.py'], [('facet finder', 'Dolfin_Module.py: Mesh_C.find_facet'), ('neighbour and normal tables', 'Dolfin_Module.py: Mesh_C.compute_cell_neighbors_dict, compute_cell_facet_normals_dict')],
     observe=['return value of the facet finder and of the cell test'])

prop('P08', 'A trajectory follows its own particle and records every point once',
     'With the Python movers, the trajectory of a particle marked for recording holds its initial state, its state at every crossing of a marked facet (position and time of the crossing), its state at the end of every recorded step and its final state when it is removed, once each and in order, and nothing of any other particle. '
     'A trajectory that is full, or whose particle was removed, never stops the others from being recorded.',
     ['inputs', 'histories', 'configurations'], 'all motions of marked and unmarked particles, every order of removals, every segment length within the bound',
     'The tests follow two fixed particles; renumbering when other particles are removed, full trajectories and crossings without a field are not covered.',
     ['Particle_Module.py', 'RecordedData_Module.py'], [('recording', 'Particle_Module.py: record_trajectory_data, record_trajectory_datum'), ('renumbering', 'Particle_Module.py: update_trajectory_particleId, remove_trajectory_particleId and the movers'), ('storage', 'RecordedData_Module.py: Trajectory_C')],
     observe=['trajectory records and lengths'])

prop('P09', 'The most specific boundary function for a boundary and species is called',
     'For every boundary and species, the function called when a particle meets the boundary is the one for that boundary and species if the user supplied it, else the default of the boundary, else the general default. '
     'This holds for every set of supplied functions, boundary names, tags and species.',
     ['configurations', 'inputs'], 'every subset of candidate functions; boundary names that contain each other; tags in any order; all particle motions',
     'The tests use one fixed set of functions.',
     ['Particle_Module.py'], [('lookup', 'Particle_Module.py: ParticleMeshBoundaryConditions_C.__init__')], observe=['which boundary function is called'])

prop('P10', 'Reported counts, energies and histories are those of the stored particles',
     'With the Python and with the C++ store, the particle count, the number of physical particles (sum of weights) and the kinetic energy of each species are those of exactly the particles stored at that moment, also after loops were abandoned, particles were removed or added. '
     'Histories hold, in order, the per-species, per-particle and total values of each recorded step, and there is room for every step recorded, whatever limit on points is set.',
     ['inputs', 'histories', 'configurations'], 'all weights, velocities and masses; every pattern of removal; every number of steps and point limit within the bound',
     'The tests sum over stores with one large segment; segment ends, removals and limits are not covered.',
     ['Particle_Module.py', 'RecordedData_Module.py'], [('sums', 'Particle_Module.py: get_species_number, get_species_particle_count, get_total_particle_count, get_species_KE'), ('histories', 'Particle_Module.py: record_history_data; RecordedData_Module.py: History_C, ParticleHistory_C')],
     observe=['returned sums', 'history arrays'])

prop('P11', 'Deposited densities carry exactly the weight of the stored particles, each at its own place',
     'Accumulating the number density of a species (Python deposition; particles in the Python or the C++ store) adds to each node, for every stored particle once, its weight times the linear basis function of the node at its position, so that the total deposited is the total weight; '
     'the density in a cell is the weight of the particles in it divided by its volume; the charge density is the sum over species of charge times number density.',
     ['inputs', 'histories', 'configurations'], 'all positions, weights, charges and earlier field values; every distribution over cells and segments within the bound; after removals and appends',
     'The tests deposit a few particles at fixed places; segment ends, shared nodes and removed particles are not covered.',
     ['Particle_Module.py', 'Dolfin_Module.py'], [('deposition', 'Particle_Module.py: accumulate_number_density, accumulate_charge_density_from_particles'), ('basis functions', 'Dolfin_Module.py: Field_C.interpolate_delta_function_to_dofs, integrate_delta_function, add_weight_to_cell, divide_by_cell_volumes, multiply_add')],
     observe=['density values'])

prop('P12', 'Output files hold exactly the stored particles and the recorded trajectories',
     'Each particle snapshot (Python or C++ store) holds, for every attribute asked for, one value per stored particle, species after species in storage order, with the time of the snapshot; the file names every species with its mass and charge. '
     'A snapshot is written once per step, and an attribute that does not exist is refused. Each trajectory file holds exactly the recorded points of its own particle.',
     ['inputs', 'histories', 'configurations'], 'all particle contents; every number of particles and segment length within the bound; several snapshots with appends and removals between them',
     'The tests write one small file and do not read it back.',
     ['Particle_Module.py', 'RecordedData_Module.py'], [('snapshots', 'Particle_Module.py: initialize_particle_output_file, write_particles_to_file, check_particle_output_parameters'), ('trajectories', 'RecordedData_Module.py: Trajectory_C.write_trajectories_to_files')],
     observe=['HDF5 files'])

prop('P13', 'Initial and source particles are exactly those asked for',
     'Listed initial particles are stored as given, in order, in the Python and in the C++ store. A Maxwellian creation puts the asked number of particles in every cell of the region, inside the cell recorded for them and possibly anywhere in it, carrying together density times cell volume (per unit solid angle in the spherical case), '
     'each velocity component being drift plus thermal speed times a normal random number of its own, each particle with an identity of its own, and leaves existing particles alone; a particle created with the trajectory mark gets a trajectory that starts with its state. '
     'Sources act exactly on the steps that are multiples of their interval, with their own data. Locating given particles assigns a cell that contains them, and fails for one outside the mesh.',
     ['inputs', 'configurations'], 'all densities, speeds, random numbers, region limits, steps and intervals, list contents and positions',
     'The tests create particles with one seed and check counts.',
     ['Particle_Module.py', 'Dolfin_Module.py'], [('creation', 'Particle_Module.py: initialize_particles, create_from_list, add_more_particles, create_maxwellian_particles'), ('location', 'Particle_Module.py: compute_mesh_cell_indices')],
     observe=['stored particles', 'calls of source functions', 'trajectory records'])

prop('P14', 'A region holds exactly the cells whose midpoint lies in it, with their own data',
     'A rectangular or (one-dimensional) spherical region consists of exactly the mesh cells whose midpoint lies in it, limits included up to round-off, and the whole-mesh region of all cells; the stored indices, midpoints and volumes are those of the cells, '
     'the cell test is true exactly for points of the cell, the point test of a limited region exactly for points within its limits, and a region without cells is refused.',
     ['inputs', 'configurations'], 'all region limits and test points; every mesh within the bound in 1D, 2D and 3D',
     'The tests build one or two regions.',
     ['Dolfin_Module.py'], [('regions', 'Dolfin_Module.py: CellSet_C, RectangularRegion_C, SphericalRegion_C, WholeMesh_C')], observe=['cell lists and arrays of a region', 'in_cell()'])

prop('P15', 'The mesh tables describe the mesh: neighbours, facets, normals, volumes',
     'In the mesh dictionaries every cell has its own vertices and facets; the neighbour listed for a facet is the cell behind it, mutually, and none exactly at the boundary; facet normals are unit, outward and orthogonal to their facet; '
     'volumes are positive and geometric (shell volumes in the spherical case). The cell found for a point contains it, and a point outside the mesh is never given a cell. This holds for every numbering of vertices and cells, whatever other meshes are in use.',
     ['inputs', 'configurations'], 'all vertex positions (1D; one vertex in 2D), every vertex and cell numbering within the bound, all points',
     'The tests compare a few entries of two fixed meshes.',
     ['Dolfin_Module.py'], [('tables', 'Dolfin_Module.py: Mesh_C.compute_*_dict'), ('location', 'Dolfin_Module.py: Mesh_C.compute_cell_index')], observe=['mesh dictionaries', 'compute_cell_index()'])

prop('P16', 'Field operations act on every value once; interpolated values are those of the field',
     'Setting a field to a value sets every value, or those of the given region while the others become zero; multiplying scales every value (of the region) exactly once, by the factor or (gaussian) by the factor times a normal number; adding a multiple of a field adds it to every value and leaves the other field alone; gaussian values are the deviation times a normal number per value (per cell of the region for cell fields) and zero outside. '
     'Interpolating to points gives the value of the field at each point, and the random variant multiplies it by one normal number per point.',
     ['inputs', 'configurations'], 'all field values, factors, points and random numbers; linear and cell-constant fields; regions by symbolic limits',
     'The tests use constant fields or one point.',
     ['Dolfin_Module.py'], [('operations', 'Dolfin_Module.py: Field_C.set_values, multiply_values, set_gaussian_values, multiply_add'), ('interpolation', 'Dolfin_Module.py: Field_C.interpolate_field_to_points, interpolate_random_field_to_points')], observe=['field values', 'values at points'])

prop('P17', 'C++ movers: kick, move and track every particle exactly, keep exactly the survivors',
     'A time step of the C++ movers changes the velocity of each charged particle by (charge/mass) times the electric field of its own cell times the time step (neutral particles keep theirs) and its position by the new velocity times the time step. '
     'Afterwards each species holds exactly the particles whose path did not meet an absorbing boundary, once each, in their previous order, with unchanged identity, weight and flags; the cell recorded for each contains it, and its crossings are those of the facets of its path. '
     'A species whose solved field is switched off, or a step without a solved field, leaves velocities alone.',
     ['inputs', 'histories', 'configurations'], 'all positions, velocities, weights and cell-constant fields; every pattern of survivors and segment length within the bound; meshes in 1D (Cartesian and radial), 2D and 3D',
     'The tests compare a handful of end points of fixed orbits with large segments; paths through vertices or along facets, removals at the ends of segments, other fields and switches are not exercised.',
     ['cpp/advance_charged_species_in_E_field_cartesian_x.cpp', 'cpp/advance_charged_species_in_E_field_spherical_r.cpp', 'cpp/advance_charged_species_in_E_field_cartesian_xy.cpp',
      'cpp/advance_charged_species_in_uniform_fields_cartesian_xyz.cpp', 'cpp/advance_neutral_species_cartesian_xy.cpp', 'cpp/advance_neutral_species_cartesian_xyz.cpp',
      'cpp/dolfin_functions.cpp', 'cpp/MeshEntityArrays.h', 'cpp/SegmentedArrayPair.h', 'Particle_Module.py'],
     [('movers', 'cpp/advance_*.cpp'), ('facet finder', 'cpp/dolfin_functions.cpp: find_facet'), ('entry points', 'Particle_Module.py: advance_charged_particles_in_E_field, advance_neutral_particles')],
     observe=['stored records', 'particle counts'])

prop('P18', 'C++ boundaries: the most specific function acts; absorption and reflection are exact',
     'When a particle moved by the C++ movers meets a marked boundary, the function that acts is the one supplied for that boundary and species, else the default of the boundary, else the general default, for every set of boundary names, tags and species. '
     'The supplied absorbing functions remove exactly that particle; the supplied reflecting functions give the specularly reflected orbit: mirrored end point, mirrored velocity, right cell, also after several reflections or when the particle is then absorbed elsewhere.',
     ['inputs', 'configurations'], 'all start points and velocities; boundary and species names that contain each other; tags in any order; every choice of reflecting facet within the bound',
     'The tests reflect one or two fixed orbits and use one naming; repeated reflection in a step, other facets and tag orders are not met.',
     ['cpp/ParticleMeshBoundaryConditions.h', 'cpp/UserParticleBoundaryFunctions.h', 'cpp/UPBFs_spherical_r.h', 'cpp/Pstruct.h', 'cpp/advance_charged_species_in_E_field_cartesian_x.cpp', 'cpp/advance_neutral_species_cartesian_xyz.cpp'],
     [('lookup', 'cpp/ParticleMeshBoundaryConditions.h: constructor'), ('boundary functions', 'cpp/UserParticleBoundaryFunctions.h'), ('reflection', 'cpp/Pstruct.h: reflect_from_surface')],
     observe=['stored records', 'which function acted'])

prop('P19', 'C++ geometry: first facet crossed, point-in-cell test, mesh tables and field values are exact',
     'For a start point in a cell and any displacement, the C++ facet finder reports no facet exactly when the end point is in the closed cell, and otherwise a facet on which the displacement leaves the cell first, with the fraction travelled and the unit outward normal. '
     'The C++ point-in-cell test is exact for every point and every order of the vertices. The C++ mesh tables give, for every numbering of vertices and cells, the cell behind each facet (none exactly at the boundary) and its unit outward normal. '
     'The C++ field interpolation gives each particle the value of the cell recorded for it, and touches nothing else. No result depends on earlier calls.',
     ['inputs', 'configurations'], 'all start points, displacements, test points and field values for every cell of the bounded meshes; every numbering within the bound',
     'The tests check the facet finder for one start point and the tables for one mesh; ties, zero displacements, points on facets and other numberings are not met.',
     ['cpp/dolfin_functions.cpp', 'cpp/dolfin_functions_solib.cpp', 'cpp/MeshEntityArrays.cpp', 'cpp/MeshEntityArrays.h'],
     [('facet finder', 'cpp/dolfin_functions.cpp: find_facet'), ('cell test', 'cpp/dolfin_functions.cpp: is_inside_vertices'), ('field values', 'cpp/dolfin_functions.cpp: interpolate_field_to_points'),
      ('tables', 'cpp/MeshEntityArrays.cpp: compute_cell_neighbors_array, compute_cell_facet_normals_array')], observe=['values returned'])

prop('P20', 'C++ movers: a trajectory follows its particle and records every boundary crossing',
     'For particles advanced by the C++ movers and marked for trajectories, each trajectory holds the start point, one point per requested sample with the particle state and the field at it, and one point for each crossing of a marked facet with the position, velocity and field (every component; zeros if no field is applied to the species) at that crossing; '
     'an unmarked particle has none, a full trajectory stops growing without disturbing others, and a particle without trajectory output moves as before.',
     ['inputs', 'histories'], 'all starting positions and velocities, for every choice of marked particles, sampling and field use, on the bounded meshes',
     'The tests print trajectories of one run; crossings by particles that feel no field, the second field component and other numbers of marked particles are not met.',
     ['Particle_Module.py', 'cpp/advance_charged_species_in_E_field_cartesian_x.cpp', 'cpp/advance_charged_species_in_E_field_cartesian_xy.cpp', 'cpp/advance_charged_species_in_E_field_spherical_r.cpp', 'cpp/advance_neutral_species_cartesian_xy.cpp', 'cpp/advance_neutral_species_cartesian_xyz.cpp'],
     [('crossing record', 'Particle_Module.py: Particle_C.record_trajectory_datum'), ('callers', 'cpp/advance_*_species*.cpp: the facet-crossing branch'), ('samples', 'Particle_Module.py: Particle_C.record_trajectory_data')], observe=['trajectory arrays', 'particle state'])
prop('P21', 'The solved potential satisfies the discrete Poisson equation with its boundary values, and the field is its gradient',
     'For every boundary value, charge and mesh numbering within the bound, each boundary node of the potential has its given value, every other node satisfies the discrete Poisson equation (permittivity of free space; volume element of the coordinate system; natural boundary if none is given) for the charge given: a source density or formula, charges from particles or nodes, times their multiplier; '
     'and minus the electric field equals the gradient of the potential in every cell, after every solve, also in the array that movers read. A new solve forgets the charge of the previous one.',
     ['inputs', 'histories'], 'all boundary values, charges, multipliers and particle positions on the bounded meshes; up to three solves in a row',
     'The tests compare one potential with a stored one; repeated solves, sources, other charges, unset boundaries and stale field values are not met.',
     ['Dolfin_Module.py', 'UserMesh_y_Fields_FE_XYZ_Module.py', 'UserMesh_y_Fields_FE2D_Module.py', 'UserMesh_y_Fields_Spherical1D_Module.py'],
     [('equation', 'UserPoissonSolve1D_C, UserPoissonSolve2DCirc_C, UserPoissonSolve1DS_C'), ('charge', 'Dolfin_Module.py: PoissonSolve_C.assemble_source_expression, solve_for_phi'), ('field', 'Dolfin_Module.py: PoissonSolve_C.compute_negE')], observe=['nodal potential', 'cell values of the field'])

prop('P22', 'The meshes made from user input have the shape asked for, and exactly the named boundaries carry their numbers',
     'For every position and size of the region, number of cells, diagonal, stretching and angle within the bound, the mesh made from the user input has its vertices where the grid, the stretching r = rmin + (rmax-rmin) s^stretch and the map to a circle put them; '
     'every facet on a named side carries the number that the user gave for that side (field boundaries in 1D and on the circle, particle boundaries in 1D, 2D, 3D and on the circle), every other facet carries none, and the names are kept. '
     'A mesh and markers read from files are those of the files.',
     ['inputs', 'configurations'], 'all corners and sizes for grids of 1-3 cells per side, every diagonal, every way to give or leave out boundaries',
     'The tests plot a mesh per class and assert nothing about markers; in 1D and 3D particle boundaries were never marked and no test noticed.',
     ['UserMesh_y_Fields_FE_XYZ_Module.py', 'UserMesh_y_Fields_FE2D_Module.py', 'UserMesh_y_Fields_Spherical1D_Module.py', 'Dolfin_Module.py'],
     [('shape and marks', 'UserMesh_C.create_mesh, UserMesh2DCirc_C.create_mesh, UserMesh1DS_C.create_mesh'), ('files', 'UserMesh1DS_C.__init__, UserMesh2DCirc_C.__init__, Mesh_C.__init__')], observe=['vertex coordinates', 'facet markers'])

prop('P23', 'Over whole time loops the field is that of the particles present, and each particle moves by that field',
     'When a charge deposit, a Poisson solve and a particle move are repeated as the example programs do it (optionally with particles added between steps, with neutral species, with either implementation of the movers), then after every step: '
     'the solved potential satisfies the discrete Poisson equation for exactly the charge of the particles then present at their current positions; every particle present has the velocity and position obtained by repeating '
     'u += (q/m) E(cell at the start of the step) dt, x += u dt with the fields solved so far; its cell contains it; a particle is gone only if its path left the mesh; and counts and recorded histories are those of the particles present. '
     'No step depends on anything left over from an earlier step.',
     ['inputs', 'histories'], 'all positions and velocities for 1-2 particles, 1-3 steps, on 1D Cartesian and spherical meshes and a triangle; Python and C++ movers',
     'The tests run each piece once with fixed numbers; none runs the loop of pieces and checks the state after several steps.',
     ['Particle_Module.py', 'Dolfin_Module.py', 'SegmentedArrayPair_Module.py', 'cpp/SegmentedArrayPair.h', 'cpp/advance_charged_species_in_E_field_cartesian_x.cpp', 'UserMesh_y_Fields_FE_XYZ_Module.py', 'RecordedData_Module.py'],
     [('move', 'Particle_C.advance_charged_particles_in_E_field, Particle_C.move_particles_in_electrostatic_field, advance_charged_species_in_E_field'), ('deposit', 'Particle_C.accumulate_number_density, Field_C.multiply_add'), ('solve', 'PoissonSolve_C.solve_for_phi, compute_negE')],
     observe=['particle records', 'potential and field', 'histories'])

TECH = 'bounded symbolic execution of the current source with z3 (SMT); counterexamples replayed on the real code'


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for d, *_ in P:
            f.write(json.dumps(d) + '\n')
    checks, na = [], []
    for d, claim, reason, note in P:
        if claim:
            checks.append(dict(property=d['id'], quick_cmd='./check.py %s --tier quick' % d['id'], thorough_cmd='./check.py %s --tier thorough' % d['id'],
                               technique=TECH, level='other',
                               level_note=note or 'Bounded symbolic execution: every assertion is decided by z3 for all values of the symbolic inputs on every feasible path within the bounds reported in the evidence file.'))
        else:
            na.append(dict(property=d['id'], reason=reason))
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na), f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
