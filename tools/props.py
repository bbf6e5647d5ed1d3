"""The properties, their anchors and how each is checked."""
VG = 'abstract interpretation of the source into a gated value graph; cell-wise comparison of derived terms with a reference'
SD = 'stokesian_dynamics/'
FD = 'stokesian_dynamics/functions/'


def q(over, text):
    return {'over': over, 'text': text}


def anchors(files, mech, observe=None):
    d = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if observe:
        d['observe_at'] = observe
    return d


PROPS = []


def prop(id, title, statement, over, text, why, files, mech, note, technique=VG, observe=None):
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier=q(over, text), why_tests_cant=why,
                      anchors=anchors(files, mech, observe), technique=technique, level_note=note))


NOT_APPLICABLE = []


def na(id, title, statement, over, text, why, files, mech, reason):
    NOT_APPLICABLE.append(dict(id=id, title=title, statement=statement, quantifier=q(over, text), why_tests_cant=why,
                               anchors=anchors(files, mech), reason=reason))


prop('C01', 'Far-field coupling of two spheres is the multipole mobility',
     'For every pair of distinct spheres in an unbounded fluid, the far-field mobility assigns to each sphere the '
     'velocity, angular velocity and strain rate that the force, torque and stresslet on the other one produce '
     'according to the Oseen-based multipole expansion with finite-size corrections, for any radii and viscosity. '
     'Pairs closer than slightly above contact are treated as if moved apart to that distance along their line of '
     'centres. Exchanging the two spheres gives the reciprocal coupling, so the matrix stays symmetric.',
     ['inputs', 'configurations'], 'All particle counts, positions, radii and viscosities; both orders of the pair; '
     'equal and different radii; separated and overlapping pairs.',
     'The existing test compares forces of a single benchmark geometry; a wrong tensor component, size correction or '
     'sign in one block only shows for particular geometries, radii or loads.',
     [FD + 'generate_Minfinity.py', FD + 'shared.py'],
     [('pair mobility kernels', 'generate_Minfinity.py: M11..M33, D_J, Lap_J, D_K …'),
      ('block assembly', 'generate_Minfinity_loop')],
     'Each of the 121 cells per pair is derived from the source for symbolic inputs in three regimes and both orders; '
     'exact arithmetic on terms, rounding is not modelled.')

prop('C02', 'Isolated particles move with the Stokes single-particle mobilities',
     'A sphere alone responds to force, torque and stresslet with 1/(6 pi mu a), 1/(8 pi mu a^3) and '
     '3/(20 pi mu a^3) times the identity and no cross coupling. The drag-only approximation of the far field, in '
     'open and in periodic domains, is exactly the inverse of these single-particle values, with a dumbbell treated '
     'as two independent beads.',
     ['inputs', 'configurations'], 'All radii, viscosities, particle counts and particle indices; open and periodic '
     'drag-only variants.',
     'The single test uses one arrangement with unit radii and the default options; the drag-only option and '
     'non-unit radii or viscosities are never run.',
     [FD + 'generate_Minfinity.py', FD + 'generate_grand_resistance_matrix.py'],
     [('self terms', 'generate_Minfinity.py: M11, M22 and the diagonal stresslet block'),
      ('drag-only resistance', 'generate_grand_resistance_matrix[_periodic]')],
     'Self blocks and all block classes of the drag-only matrices are derived for a symbolic particle index.')

prop('C03', 'Dumbbell rows and columns combine the bead mobilities',
     'In the far-field mobility for an open domain, dumbbell entries relate total force and force difference of the '
     'two beads to mean bead velocity and half the velocity difference, built from the bead-level mobilities and '
     'consistent with the sphere entries. The matrix has eleven rows per sphere and six per dumbbell and is symmetric. '
     'Switching bead-bead interactions off removes exactly the couplings between distinct beads.',
     ['inputs', 'configurations'], 'All numbers of spheres and dumbbells, positions, orientations, radii; both '
     'triangles; bead-bead interactions on and off; separated and overlapping beads.',
     'The existing test has no dumbbells at all, so no dumbbell entry is ever looked at.',
     [FD + 'generate_Minfinity.py', FD + 'shared.py'],
     [('bead blocks', 'generate_Minfinity_loop'), ('bead to dumbbell transform', 'generate_Minfinity')],
     'Cells for symbolic sphere/dumbbell indices are derived through the sparse transform and the symmetrisation.')

prop('C04', 'Periodic far-field mobility is the split lattice sum over all images',
     'In a periodic box, the far-field coupling of any two particles is the sum of the screened multipole mobilities '
     'over all retained images of the (possibly sheared) box plus the matching reciprocal-space sum, and a particle acts '
     'on itself through its isolated mobility plus its own images minus the reciprocal value at zero separation. Every '
     'velocity, rotation and strain block for every pair of spheres, beads or both uses the same split, so the result '
     'does not depend on where the split is made, and the matrix is symmetric.',
     ['inputs', 'configurations'], 'All positions, radii, viscosities and box sizes; cubic and non-cubic, sheared and '
     'unsheared boxes; sphere-sphere, sphere-dumbbell and dumbbell-dumbbell pairs; separated and overlapping pairs; '
     'bead-bead interactions on and off.',
     'No existing test uses a periodic box; a missing or mis-scaled reciprocal term changes values by a few percent and '
     'still gives a symmetric, plausible matrix.',
     [FD + 'generate_Minfinity_periodic.py', FD + 'shared.py'],
     [('screened and reciprocal kernels', 'generate_Minfinity_periodic.py: ar..mr, aktilde..mktilde'),
      ('lattice and block assembly', 'generate_Minfinity_periodic, generate_Minfinity_loop')],
     'All cells of two-particle systems are derived for symbolic positions, radii, viscosity and box size with one shell '
     'of images; the reference differentiates r erfc(lambda r), its transform and its series. Two particles exercise '
     'every block class; truncation error of the sums is not judged.')

prop('C05', 'Lubrication resistance of close pairs follows the two-sphere solution',
     'For every pair of particles closer than the cut-off, the near-field part of the resistance adds, for both particles '
     'and for their mutual coupling, the tabulated two-sphere resistance functions combined with the unit vector joining '
     'the centres, scaled with viscosity and the radii, and symmetric under exchange of the particles. Pairs beyond the '
     'cut-off contribute nothing, and beads of dumbbells take part through their force and force-difference entries.',
     ['inputs', 'configurations'], 'All particle numbers, positions, radii (equal and unequal, both orders), viscosities; '
     'spheres and dumbbell beads; separations inside and outside the cut-off and at the table ends.',
     'The existing test has two spheres along one axis, where most tensor components vanish, and unit viscosity.',
     [FD + 'generate_R2Bexact.py', FD + 'shared.py'],
     [('pair tensors', 'generate_R2Bexact.py: L1..L9, Af..Mf'), ('table interpolation', 'XYZ'),
      ('assembly', 'generate_R2Bexact_loop')],
     'Cells of pair and self blocks are derived with the scalar tables as uninterpreted functions; the tables\' numbers '
     'are outside this property.')

prop('C06', 'The neighbour search lists exactly the close pairs, with nearest images',
     'The neighbour search lists each particle with itself and every unordered pair of particles once, lower number '
     'first, exactly when the distance of the centres divided by their mean radius is below twice the cutoff factor. With '
     'each pair come the displacement from the first to the second particle and its length, both divided by the mean '
     'radius, and the ratio of second to first radius. In a periodic box, possibly sheared and not cubic, the second '
     'particle is represented by its image whose cell coordinates relative to the first lie within half a cell.',
     ['inputs', 'configurations'], 'All positions, radii and cutoffs; open, cubic, non-cubic and sheared boxes in either '
     'direction; one to three particles.',
     'The existing test has two spheres in the open domain, always close enough to be listed.',
     [FD + 'shared.py'], [('neighbour search', 'shared.py: close_particles'), ('cell vectors', 'shared.py: shear_basis_vectors')],
     'Entries and the conditions under which they are listed are derived for up to three particles; the passes over '
     'particles are uniform, so three show every interaction of the passes. Exact ties with the cutoff are not judged.')

prop('C07', 'Grand resistance is inverse far field plus lubrication, as configured',
     'The matrix handed to the solver is the inverse of the far-field mobility plus the near-field resistance, or only '
     'the parts selected by the drag-only and far-field-only options. When a far-field update is not requested the '
     'previously inverted matrix is reused unchanged, and the one used is returned for the next step. Viscosity, '
     'cut-off, box and background deformation reach every component unchanged, in open and periodic domains.',
     ['configurations', 'inputs'], 'All combinations of update request, drag-only and far-field-only options, print '
     'levels, open and periodic; all matrix sizes.',
     'The existing test only uses the default options on the first step.',
     [FD + 'generate_grand_resistance_matrix.py', FD + 'timestepping.py'],
     [('assembly of the grand resistance', 'generate_grand_resistance_matrix[_periodic]'),
      ('call from the solver', 'generate_output_FTSUOE')],
     'Far-field and near-field matrices are uninterpreted; every option combination is analysed.')

prop('C08', 'Solved forces and velocities satisfy the resistance relation',
     'For every form of problem, the returned forces, torques, stresslets and dumbbell forces equal the grand resistance '
     'applied to the returned velocities, angular velocities, strain rates and dumbbell velocities. Every quantity that '
     'was prescribed comes back exactly as prescribed. Stresslets and strain rates come back symmetric and traceless.',
     ['inputs', 'configurations'], 'All problem forms, with spheres only, dumbbells only and both, with and without '
     'particles of prescribed velocity; any resistance matrix and any prescribed values.',
     'Only one of the five forms is run by the existing test, with two spheres and no dumbbells.',
     [FD + 'timestepping.py', FD + 'simulation_tools.py'],
     [('solve per form', 'generate_output_FTSUOE'), ('matrix rearrangement', 'fts_to_fte_matrix … fts_to_duf_matrix')],
     'Small numbers of particles per form, resistance matrix and loads symbolic; relation checked row by row on the '
     'extracted terms.')

prop('C09', 'Grand vectors and five-component tensors have one consistent layout',
     'Packing forces, torques, stresslets and dumbbell forces into the grand vector and unpacking velocities from it use '
     'the same order: all forces, all torques, all stresslets, dumbbell forces, dumbbell force differences. The '
     'five-component form of a symmetric traceless tensor preserves inner products, and converting there and back returns '
     'the tensor.',
     ['inputs', 'configurations'], 'All tensors and vectors; spheres only, dumbbells only, both; several particle numbers.',
     'With two spheres and mostly zero loads, swapped or misplaced entries can cancel or never be set.',
     [FD + 'simulation_tools.py', FD + 'shared.py'],
     [('condensation', 'condense, uncondense, contraction'), ('packing', 'construct_force_vector_from_fts'),
      ('unpacking', 'deconstruct_velocity_vector_for_fts'), ('block addresses', 'submatrix_coords')],
     'Derived for symbolic tensors; particle numbers enumerated up to a small bound.')

prop('C10', 'Each time step applies the selected explicit scheme to every coordinate',
     'Sphere positions, dumbbell positions and dumbbell extensions advance by the Euler, two-step Adams-Bashforth or '
     'four-stage Runge-Kutta formula with the total velocities of the solver and background flow. The two-step scheme '
     'begins with an Euler step at the start or after a restart and remembers the velocities it needs. Each '
     'Runge-Kutta stage solves at the stage positions and stage time, and planar problems keep spheres in their plane.',
     ['inputs', 'configurations', 'histories'], 'All schemes, first, later and restarted frames, spheres only, dumbbells '
     'only, both; all velocities, positions, step sizes; planar option.',
     'The existing test solves a single instant and never takes a time step.',
     ['stokesian_dynamics/run_simulation.py', FD + 'timestepping.py'],
     [('time step', 'generate_frame'), ('scheme formulas', 'euler_timestep, ab2_timestep')],
     'One step is derived with the solver outputs of each stage as free arrays; equality of normal forms.')

prop('C11', 'Orientation vectors turn rigidly with their sphere and stay attached',
     'Over a step each orientation vector of a sphere is rotated by the angular velocity of the scheme times the step '
     'about the axis of that angular velocity, keeping its length, and starts at the new centre of its sphere. This '
     'holds for zero angular velocity, for any axis including the coordinate axes, for vectors along the axis, and when '
     'the sphere is wrapped around a periodic box.',
     ['inputs', 'configurations'], 'All angular velocities including none and axis-aligned ones, all schemes, open and '
     'periodic boxes, first and later steps.',
     'No existing test advances orientations.',
     ['stokesian_dynamics/run_simulation.py', FD + 'timestepping.py', FD + 'shared.py'],
     [('rotation step', 'euler_timestep_rotation, ab2_timestep_rotation'), ('initial orientations',
                                                                           'add_sphere_rotations_to_positions')],
     'The derived endpoint terms are compared with the rotation formula per class of axis by term identity.')

prop('C12', 'Background flow carries every particle at its own position',
     'The background velocity, angular velocity and strain rate given by the input definition are reported by the solver '
     'as given and added to each particle at that particle\'s position relative to the centre of the flow. A dumbbell\'s '
     'extension is stretched and turned by the flow gradient. In multi-stage schemes the flow of a stage is evaluated at '
     'that stage\'s positions.',
     ['inputs', 'configurations'], 'All flows, centres, positions, extensions and particle counts; all schemes and '
     'problem forms; open and periodic.',
     'The existing test has no background flow and takes no step.',
     [FD + 'timestepping.py', 'stokesian_dynamics/run_simulation.py'],
     [('superposition', 'add_background_flow_spheres, add_background_flow_dumbbells'), ('stages', 'generate_frame')],
     'Derived for symbolic particle counts and through whole time steps with disturbance velocities set to zero.')

prop('C13', 'Particles leaving a periodic box return by whole cell vectors',
     'In a periodic box every new position, and every intermediate stage position, is the unwrapped position moved by a '
     'whole number of the current, possibly sheared, cell vectors so that it lies in the cell centred on the origin. '
     'Dumbbells are wrapped as a whole, leaving their extension unchanged.',
     ['inputs', 'configurations'], 'All positions, box sizes and offsets, straight and sheared boxes, spheres and '
     'dumbbells, all schemes and stages.',
     'No existing test uses a periodic box.',
     [FD + 'timestepping.py', FD + 'shared.py', 'stokesian_dynamics/run_simulation.py'],
     [('wrapping', 'wrap_around'), ('cell vectors', 'shear_basis_vectors')],
     'The derived terms (with whole-part functions) are compared with the lattice reduction by term identity.')

prop('C14', 'Shear inputs describe one simple shear in rate and in accumulated strain',
     'The constant and oscillating shear inputs give a strain rate and rotation rate that together make a simple shear of '
     'the stated rate, direction and orientation, with no uniform flow and the centre as given. The accumulated rotation '
     'and deformation they give are the time integrals of those rates and make the same simple shear. Every sphere '
     'receives the same strain rate.',
     ['inputs', 'configurations'], 'All rates, amplitudes, periods, phases, frame numbers, step sizes and centres; both '
     'shear planes, transposed and opposite; any number of spheres.',
     'The existing test has no flow; a factor or a sign in one of four tensors is invisible to it.',
     [SD + 'setups/functions_inputs.py', SD + 'setups/inputs.py'],
     [('shear definitions', 'oscillatory_shear, constant_shear'), ('use in the inputs', 'input_ftsuoe')],
     'Results are derived for symbolic parameters and compared with the simple shear of the derived rate and its integral.')

prop('C15', 'Pair and spring forces are balanced and act along the line of centres',
     'The repulsion acts between every two beads closer than 2.2 mean radii, equal and opposite along the line joining '
     'them, pushing them apart, with the screened strength outside contact and its contact value inside. Forces on the '
     'two beads of a dumbbell enter as their sum and as second minus first. The spring of a dumbbell opposes its departure '
     'from the natural length, and sedimentation inputs load every sphere equally.',
     ['inputs', 'configurations'], 'All positions, radii, strengths and decay rates; several numbers of spheres and '
     'dumbbells; crowded and isolated pairs, inside and outside contact and cut-off.',
     'The existing test uses only its own load cases, none of which has forces depending on positions or dumbbells.',
     [SD + 'setups/functions_inputs.py', SD + 'setups/inputs.py'],
     [('repulsion', 'repulsion_forces'), ('springs, gravity, prescribed motion', 'input_ftsuoe')],
     'Force terms derived with pair conditions as guards and compared with the pair sum by term identity.')

prop('C16', 'The saved history holds every sampled state and force once, in order',
     'The archive written at the end holds one entry per sampled frame, in order, of the particle centres, extensions and '
     'orientations the frame was solved at and of the forces found there, plus the end state when the last frame is '
     'sampled. Sampling intervals and the first saved frame are respected, for positions and forces independently. The '
     'backup written during a run holds the same history so far under another name, and only that backup is deleted.',
     ['histories', 'configurations'], 'Several numbers of frames, sampling intervals for positions and forces, first saved '
     'frames and backup intervals; all schemes; spheres, dumbbells and both; forces on fixed particles included.',
     'The existing test does not look at saved files and runs a single frame.',
     [SD + 'run_simulation.py', FD + 'shared.py'],
     [('saving', 'run_simulation.py: generate_frame and the final save'), ('backup', 'generate_frame')],
     'The whole script is interpreted with the solver uninterpreted; the arrays handed to the archive are compared entry '
     'by entry.')

prop('C17', 'A continued run goes on exactly where its backup stopped',
     'When a backup of the same set-up, input, length and step is present, the run starts from its last saved centres, '
     'extensions and orientations at the frame they belong to, and computes the remaining frames. The final archive has '
     'the same entries as an uninterrupted run, under the interrupted run\'s name. Backups of runs with other set-up, '
     'input, length or step are not used, and a run recognises the backup it writes itself.',
     ['histories', 'crash_points', 'configurations'], 'Interruptions after different frames, several sampling intervals and '
     'first saved frames, all schemes, backups on and off the sampling grid; several step sizes, including ones written '
     'with an exponent.',
     'The existing test never writes or reads a backup.',
     [SD + 'setups/positions.py', SD + 'run_simulation.py'],
     [('restart', 'setups/positions.py: checkpoint section'), ('history', 'run_simulation.py: generate_frame')],
     'Set-up and script are interpreted together with a symbolic archive; the first state, frame numbers and final archive '
     'are compared with the uninterrupted run.')

prop('C18', 'Configurations that cannot be honoured stop the run, others are accepted',
     'A run ends with an error before anything is solved or saved when its input form does not suit the particles present, '
     'its time stepping scheme is unknown, its set-up or input number is not defined, a size ratio of two spheres is not '
     'tabulated, or a command-line value is not a number of the right kind. An unknown input form never yields a solution. '
     'With explosion protection on, a dumbbell longer than five ends the run; usable configurations are never rejected.',
     ['configurations', 'inputs'], 'All input forms with spheres, dumbbells and both; known and unknown schemes and numbers; '
     'radii with tabulated and untabulated ratios; command lines with malformed values in every place; long dumbbells in '
     'every place.',
     'The existing test only has usable configurations.',
     [SD + 'run_simulation.py', SD + 'settings.py', SD + 'setups/positions.py', SD + 'setups/inputs.py',
      FD + 'timestepping.py', FD + 'shared.py'],
     [('start-up checks', 'run_simulation.py'), ('command line', 'settings.py'), ('numbers', 'pos_setup, input_ftsuoe'),
      ('explosion protection', 'timestepping.py')],
     'Script, settings and set-ups are interpreted per configuration; the obligation is that every path ends (or none does) '
     'before a solver call or archive.',
     technique='abstract interpretation of the source; reachability of program ends, solver calls and archives')

prop('C19', 'Command line and settings reach every step of the run',
     'Set-up number, input number, step size, number of frames, input form and wall-force flag given on the command line '
     'replace the file values in this order, and those not given keep them. Every step receives the configured values. The '
     'far field is renewed exactly on the configured frames and on the first one computed, in all stages or only the first '
     'as configured, and in between the latest one is used; messages and archives are produced only if configured.',
     ['configurations', 'histories'], 'Command lines of every length; renewal intervals, first frames and schemes; with and '
     'without messages and saving.',
     'The existing test calls the solver directly, without command line or several steps.',
     [SD + 'settings.py', SD + 'run_simulation.py'],
     [('command line', 'settings.py'), ('steps', 'run_simulation.py: generate_frame')],
     'Settings and script are interpreted for each command line and option; arguments of every solver evaluation are '
     'compared with the configured values.')

prop('C20', 'Particles placed at random touch nothing and stay in their region',
     'Spheres and dumbbells placed at random lie inside the region given, with centres drawn from the whole of it, and '
     'no placed sphere or bead overlaps a particle already there or another one placed, nor its images when the region is '
     'periodic. Dumbbells have the requested length and orientation plane. The supplied starting arrangements contain no '
     'overlapping particles.',
     ['inputs', 'configurations'], 'All boxes, radii, earlier particles and random draws; one to three spheres or one or '
     'two dumbbells added to none, one or two spheres; box, periodic box, quadrilateral; all fixed arrangements.',
     'The existing test uses one fixed pair of spheres; a random run would rarely draw the configurations that overlap.',
     [SD + 'setups/functions_positions.py', SD + 'setups/positions.py'],
     [('placement', 'randomise_spheres, randomise_dumbbells, randomise_dumbbells_periodic, '
       'randomise_beads_inside_quadrilateral'), ('arrangements', 'pos_setup')],
     'Loops that repeat until a proposal is accepted are summarised by their accepting pass; the acceptance condition must '
     'exclude each overlap. Random draws are free values between 0 and 1; small numbers of particles.')

prop('C21', 'Near-field resistance scalars follow the two-sphere lubrication theory',
     'Each of the near-field resistance scalars of two unequal spheres equals the published expansion: singular and '
     'logarithmic terms in the gap, plus a constant term summed from the coefficients of the reflection recurrences, for '
     'the force, torque and stresslet couplings along, across and doubly across the line of centres. The generated table '
     'holds, for each distance, size ratio and its reciprocal, the scalars of either sphere in the units of the mean '
     'radius. Both spheres are served by the same expansions through the exchange of the size ratio.',
     ['inputs', 'configurations'], 'All size ratios and gaps; all 22 scalar functions; tables for several lists of '
     'distances and ratios.',
     'The existing test reads a stored table; nothing runs the code that generates it.',
     ['find_resistance_scalars/functions_nearfield.py', 'find_resistance_scalars/generate_scalars_nearfield.py',
      'find_resistance_scalars/functions_general.py'],
     [('scalar expansions', 'functions_nearfield.py'), ('table', 'generate_scalars_nearfield.py')],
     'Exact rational coefficients of the first 8 terms of every series are compared as functions of the size ratio, and '
     'the table cell by cell. The accuracy of the truncated sums is not judged.')

prop('C22', 'The scalar tables are converted, joined, reduced and read consistently',
     'The mid-field table is the exact conversion of two-sphere mobility solutions to resistance scalars in the '
     'conventional units, for each size ratio and its reciprocal. The combined table lists near- and mid-field entries '
     'under their own distances in increasing order. The reduced tables have subtracted what the far-field (or drag-only) '
     'mobility of the same pair implies on its own, and a simulation reads the table matching its far-field option.',
     ['inputs', 'configurations'], 'All size ratios, distances and two-sphere solutions; near- and mid-field distances '
     'disjoint, interleaved and in either order; all far-field options.',
     'The existing test reads a stored table; the programs that make it are not run.',
     ['find_resistance_scalars/generate_scalars_midfield.py', 'find_resistance_scalars/combine_scalars.py',
      'find_resistance_scalars/subtract_R2Binfinity_from_scalars.py',
      'find_resistance_scalars/subtract_R2Binfinitydrag_from_scalars.py',
      SD + 'resistance_scalars/data.py'],
     [('conversion', 'generate_scalars_midfield.py'), ('joining', 'combine_scalars.py'),
      ('reduction', 'subtract_R2Binfinity*_from_scalars.py'), ('reading', 'resistance_scalars/data.py')],
     'Each script is interpreted whole with symbolic tables; every table cell is compared with the inverse of the '
     'two-sphere mobility. The external two-sphere solver is uninterpreted.')

prop('C23', 'Supplied inputs prescribe what they describe and nothing else',
     'Each supplied input prescribes exactly its loads: downward unit gravity on every sphere (in the open fluid or in the '
     'stated cube), shear, dumbbell springs or repulsion, walls moving to the left and to the right, and a force on the '
     'spheres between them. Loads it does not mention are zero where the problem form has to know them and stay open where '
     'the form solves for them. Without a stated flow or box the fluid is at rest and unbounded, with unit viscosity.',
     ['inputs', 'configurations'], 'All supplied inputs and problem forms; spheres only, dumbbells only and both, odd and '
     'even numbers; every entry.',
     'The existing test has its own inputs and never uses the supplied ones.',
     [SD + 'setups/inputs.py', FD + 'simulation_tools.py'],
     [('inputs', 'input_ftsuoe'), ('open entries', 'empty_vectors')],
     'Each input is interpreted for fixed small particle numbers (99 spheres for the wall example) and symbolic positions; '
     'normal forms of all entries.')

prop('C24', 'Supplied set-ups place the particles they describe',
     'Each supplied set-up returns the described arrangement: rows, lattices and walls of unit spheres at the stated places, '
     'small dumbbells with the stated centres and extensions, and random particles drawn from a region in which they fit. '
     'Every sphere starts with two orientation vectors that begin at its own centre, along x and z, as long as its radius. '
     'A set-up copied from a saved run has the centres and extensions of the chosen saved frame, split into spheres and '
     'dumbbells, with the given radii.',
     ['inputs', 'configurations'], 'All supplied set-ups, every entry; copied set-ups for symbolic archives and radii, several '
     'frames (also counted from the end) and particle numbers; any centres and radii when orientations are attached.',
     'The existing test has its own set-ups and never uses the supplied ones or a saved run.',
     [SD + 'setups/positions.py', SD + 'setups/functions_positions.py', FD + 'shared.py'],
     [('set-ups', 'pos_setup'), ('copy of a saved run', 'same_setup_as'),
      ('orientations', 'add_sphere_rotations_to_positions'), ('cubic array', 'simple_cubic_8')],
     'Set-ups are interpreted as written; archive, centres, radii and side length are symbolic; normal forms of all entries. '
     'The draw itself is the subject of C20.')

prop('C25', 'Pictures show every particle of the frame at its place',
     'In pictures and videos, every sphere is a disc of its radius at its centre with lines from the centre to the tips of its '
     'two orientation vectors, and every dumbbell is two discs of the bead radius at its centre plus and minus half its '
     'extension, joined by a line unless lines are left out. Paths join the previous to the present centre. Arrows start at '
     'the centre and show force (six times enlarged), torque, velocity or angular velocity of that sphere.',
     ['inputs', 'configurations'], 'Any positions, radii, vectors and saved runs; one to three particles of each kind; the '
     'picture script at its frame and the first frames of the video script in an open fluid.',
     'The existing test turns graphics off.',
     [FD + 'graphics.py', SD + 'plotting/plot_positions.py', SD + 'plotting/make_video.py'],
     [('spheres', 'plot_all_spheres'), ('dumbbells', 'plot_all_dumbbells'), ('arrows', 'plot_all_force_lines'),
      ('scripts', 'plotting/')],
     'The plotting library is a record of what is asked for; its own geometry, colours, titles and the periodic copies in '
     'videos are outside.')

na('C90', 'The grand resistance matrix is positive definite',
   'For every arrangement of particles that do not overlap, the grand resistance matrix is symmetric positive definite, '
   'so that moving particles always dissipate energy.',
   ['inputs'], 'All arrangements of any number of particles.',
   'The existing test solves a handful of arrangements and does not look at eigenvalues.',
   [FD + 'generate_grand_resistance_matrix.py'], [('assembly', 'generate_grand_resistance_matrix')],
   'Definiteness depends on tabulated numbers and on eigenvalues of matrices of any size; no argument on the source '
   'bounds them. Symmetry of each part is decided by C01 to C05.')

na('C91', 'Truncated sums and tables are accurate to the stated digits',
   'The real- and reciprocal-space sums of the periodic far field, the reflection series of the near field and the '
   'interpolation between tabulated distances are converged to the accuracy that their cut-offs are meant to give.',
   ['inputs'], 'All boxes, size ratios and gaps.',
   'The existing test compares a few values to a few digits.',
   [FD + 'generate_Minfinity_periodic.py', 'find_resistance_scalars/functions_nearfield.py'],
   [('lattice sums', 'generate_Minfinity_periodic'), ('series', 'functions_nearfield.py')],
   'An error bound needs the numerical values of the sums, not their terms. That every summand is right is decided by '
   'C04, C05 and C21.')

NOTES = ('Static analysis only: every command parses the current /repo sources and derives the values the program '
         'would compute as terms; the program is neither imported nor run.')
