import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if observe: d['anchors']['observe_at']=observe
    d['anchors']['hook_needed']=None
    P.append(d)

p('C01','Flat-source-region volumes tile the core exactly',
 'For every geometry the input accepts, every region has positive volume, the regions of each pin cell add up to the area of that cell, and all regions together add up to the volume of the core box, for each of the axial treatments the code offers. Ring and sector areas of a cylindrical pin are those of circles of the given radii cut into equal-volume rings and equal sectors.',
 ['inputs','configurations'],'all valid combinations of pin meshes (cylindrical and rectangular, any subdivision), lattices, assemblies, plane heights, macroplane groupings and core layouts',
 'Unit tests look at a couple of fixed meshes; the relation has to hold for every mix of pitches, radii, subdivisions and plane stacks.',
 ['src/core/pin_mesh_cyl.cpp','src/core/pin_mesh_rect.cpp','src/core/pin_mesh_base.cpp','src/core/plane.cpp','src/core/core_mesh.cpp','src/core/lattice.cpp'],
 [('equal-volume ring radii and area tables of the pin meshes','src/core/pin_mesh_cyl.cpp, src/core/pin_mesh_rect.cpp'),('volume expansion per treatment','src/core/core_mesh.cpp (volumes)')])

p('C02','Every point of the core has the material the input describes',
 'For every accepted input and every point strictly inside a region, the region the code locates the point in carries the material that the input assigns to that place, reading lattices, cores and rectangular pins first-row-is-north, stacks first-is-top and cylindrical pins inside-out. Regions partition the core: points in geometrically different regions are never reported in the same region.',
 ['inputs','configurations'],'all valid geometries and material maps, all points not on a region boundary, all directions of flight',
 'Tests use mostly uniform or symmetric material maps, on which transposed, mirrored or offset indexing is invisible.',
 ['src/core/core.cpp','src/core/assembly.cpp','src/core/lattice.cpp','src/core/pin.cpp','src/core/pin_mesh_cyl.cpp','src/core/pin_mesh_rect.cpp','src/core/core_mesh.cpp','src/core/plane.cpp','src/core/xs_mesh.cpp'],
 [('row flipping while parsing','src/core/lattice.cpp, src/core/core.cpp, src/core/assembly.cpp, src/core/pin.cpp'),('point location','src/core/core_mesh.cpp (get_location_info), src/core/pin_mesh_*.cpp (find_reg)'),('material to region map','src/core/xs_mesh.cpp')])

p('C03','A ray is cut into exactly the regions it crosses',
 'For every geometry and every line across a plane, the segments of the traced ray have positive length, add up to the chord of the line through the core, and each segment carries the index of the region that contains it, in order of travel.',
 ['inputs'],'all valid planes (mixed cylindrical and rectangular pins, unequal pitches, non-square cores) and all entry/exit point pairs on the core boundary',
 'Existing ray tests fix a handful of rays in uniform square lattices; the failure modes (corners, tangents, coincident surfaces, aspect ratios) are positions in a continuum.',
 ['src/sweepers/moc/ray.cpp','src/core/mesh.cpp','src/core/core_mesh.cpp','src/core/pin_mesh_cyl.cpp','src/core/pin_mesh_rect.cpp','src/core/geometry/geom.hpp','src/core/geometry/line.hpp','src/core/geometry/circle.hpp'],
 [('core-level trace against pin boundaries','src/core/mesh.cpp (trace)'),('pin-level trace','src/core/pin_mesh_*.cpp (trace)'),('ray assembly','src/sweepers/moc/ray.cpp')])

p('C04','Coarse-mesh crossings stored with a ray follow its path',
 'For every ray, walking the stored cell-crossing data forwards (and backwards) from its stored first cell visits the pin cells the line passes through in order, each crossing lies on a surface the line really crosses, and the segment counts stored for each cell select exactly the segments that lie inside that cell.',
 ['inputs'],'all valid planes and all boundary-to-boundary lines, including lines through pin-cell corners',
 'Tests pin down four hand-worked rays; corner disambiguation depends on floating-point position.',
 ['src/sweepers/moc/ray.cpp','src/sweepers/moc/ray.hpp','src/core/mesh.cpp','src/core/mesh.hpp'],
 [('coarse ray data','src/sweepers/moc/ray.cpp'),('coarse surface lookup with corner disambiguation','src/core/mesh.cpp (coarse_surf_point, coarse_boundary_cell)')])

p('C05','The generated ray set is closed, fine enough and volume-preserving',
 'For every core, quadrature and ray option: no spacing exceeds the requested one; each ray runs from boundary to boundary parallel to its angle, and every end of a ray lands on the entry point of the ray of the reflected angle, one-to-one; with flat volume correction the ray segments of each angle reproduce every region volume exactly, and with angle correction their weighted angular sum does.',
 ['inputs','configurations'],'all core sizes and aspect ratios, pin or core modularity, both modularisation methods, all quadratures and requested spacings that produce at least one ray in every region',
 'The one ray-data test checks a single square core; modularisation rounds angles and counts differently for each size, angle and spacing.',
 ['src/sweepers/moc/ray_data.cpp','src/sweepers/moc/ray_data.hpp','src/util/rational_approximation.hpp','src/core/angular_quadrature.cpp'],
 [('angle modularisation','src/sweepers/moc/ray_data.cpp (modularize_angle)'),('volume correction','src/sweepers/moc/ray_data.cpp (correct_volume)')])

p('C06','Coarse-mesh indices form one consistent Cartesian complex',
 'For every mesh, cell indices and (x,y,z) positions are in bijection, every interior surface is shared by exactly the two cells that name each other as neighbours across it, surface normals, areas and cell volumes match the pin pitches and plane heights, the surfaces of a plane form the advertised contiguous ranges, and locating a point gives the cell whose bounds contain it.',
 ['inputs'],'all nx, ny, nz, non-uniform pitches and heights, macroplane groupings',
 'Fixed meshes only; the index arithmetic depends on nx, ny, nz jointly.',
 ['src/core/mesh.cpp','src/core/mesh.hpp','src/core/core_mesh.cpp','src/core/position.hpp'],
 [('surface numbering','src/core/mesh.cpp (prepare_surfaces)'),('index maps','src/core/mesh.hpp')])

p('C07','Monte Carlo flights deposit exactly their chord in every region',
 'For every geometry, boundary condition, starting point and direction, a particle that flies without interacting deposits in each region, group and pin exactly the length of its path inside it (reflections folded back, vacuum ending the history), and never leaves the core or gets lost.',
 ['inputs','histories'],'all valid geometries with reflecting/vacuum faces, all start points and directions (including grazing and axis-parallel ones)',
 'The two existing tests only write output files; no oracle on where track length goes, and edge hits depend on real-valued positions.',
 ['src/sweepers/mc/particle_pusher.cpp','src/sweepers/mc/particle.hpp','src/core/core_mesh.cpp','src/core/mesh.hpp','src/core/pin_mesh_cyl.cpp','src/core/pin_mesh_rect.cpp','src/core/geometry/circle.hpp','src/core/geometry/line.hpp'],
 [('surface tracking','src/sweepers/mc/particle_pusher.cpp (simulate)'),('boundary surfaces','src/core/mesh.hpp (boundary_surface)'),('distance to surface','src/core/pin_mesh_*.cpp')])

p('C08','Angular quadratures integrate over the sphere and reflect onto themselves',
 'Every quadrature the code offers (level-symmetric, Chebyshev-Gauss, Chebyshev-Yamamoto, user-supplied) consists of unit directions with positive weights that sum to one per octant and repeat in every octant; reflecting or reversing an angle gives the index of the geometrically reflected or opposite direction; standard moments (unity, first and, where the rule is built for it, second) are exact; and writing a quadrature to a file and reading it back gives the same set.',
 ['configurations','inputs'],'all orders/sizes of each family, arbitrary user angle lists, every angle index and surface',
 'Tests build two quadratures and compare a few entries; higher orders are never built.',
 ['src/core/angular_quadrature.cpp','src/core/angular_quadrature.hpp','src/core/angular_quadrature_user.cpp','src/core/level_symmetric.hpp','src/core/product_quadrature.hpp','src/core/geometry/angle.cpp','src/core/geometry/angle.hpp'],
 [('table of ordinates','src/core/level_symmetric.hpp, src/core/product_quadrature.hpp'),('reflection arithmetic','src/core/angular_quadrature.hpp (reflect, reverse)')])

p('C09','Boundary exchange sends each outgoing flux to its mirror image',
 'After a boundary update, every incoming angular flux at a reflecting face equals the outgoing flux of the mirrored angle at the same surface point, at a vacuum face it is zero, and at a prescribed face it keeps its prescribed value; nothing else changes, and updating angle by angle gives the same state as updating all at once when every angle has been updated.',
 ['inputs','histories'],'all group counts, quadratures, face sizes per angle, combinations of boundary conditions and outgoing fluxes',
 'One fixture with all-reflecting faces and one quadrature is tested.',
 ['src/core/boundary_condition.cpp','src/core/boundary_condition.hpp','src/core/angular_quadrature.hpp'],
 [('face/angle offsets','src/core/boundary_condition.cpp'),('update','src/core/boundary_condition.cpp (update)')])

p('C10','Fast exponentials stay within their documented error',
 'For every argument, tabulated exponential evaluation agrees with the true exponential within the interpolation error bound of its table, is exact enough at the ends of the table, falls back to the true value outside it, and never produces a negative or growing attenuation for non-positive arguments.',
 ['inputs'],'all finite arguments inside and outside the tabulated interval, including the end points and tiny values; all table sizes and ranges',
 'Tests sample a fixed grid on one range.',
 ['src/core/exponential.hpp'],
 [('linear interpolation table','src/core/exponential.hpp')])

p('C11','Cross-section libraries are read as written',
 'For every well-formed library file, each requested material has exactly the absorption, nu-fission, fission and scattering data written under its name, chi scaled to sum to one, a transport cross section equal to absorption plus total outscatter, and outscatter totals and sampling distributions consistent with the scattering matrix, independent of comments, spacing, material order and of which other materials are requested.',
 ['inputs'],'all group counts, material counts, sparse or dense scattering patterns (including upscatter and empty rows), comments and whitespace layouts',
 'One library (C5G7) is read by the tests; its sparsity pattern and layout are fixed.',
 ['src/core/material_lib.cpp','src/core/material.cpp','src/core/material.hpp','src/core/scattering_matrix.hpp','src/core/scattering_matrix.cpp','src/util/file_scrubber.hpp'],
 [('library parser','src/core/material_lib.cpp'),('compressed scattering rows','src/core/scattering_matrix.*')])

p('C12','Homogenisation preserves reaction rates',
 'For every geometry, material map and flux, the homogenised cross sections of each pin cell times its average flux times its volume equal the sum of the fine-region reaction rates for absorption/transport, fission, nu-fission and scattering from every group to every group, chi is the fission-weighted spectrum, and with no flux given the weighting is by volume.',
 ['inputs','configurations'],'all geometries, macroplane groupings, positive flux shapes, group counts and materials (fissile or not)',
 'Tests compare stored numbers for uniform flux; flux weighting with heterogeneous shapes is not tested.',
 ['src/core/xs_mesh_homogenized.cpp','src/core/xs_mesh_homogenized.hpp','src/core/xs_mesh_region.cpp','src/core/xs_mesh.cpp'],
 [('homogenize_region / homogenize_region_flux','src/core/xs_mesh_homogenized.cpp')])

p('C13','Exported reactor data read back unchanged',
 'Homogenised cross sections and transverse-coupling correction factors written to an output file and read back through the input options that accept them reproduce the same data in the same cells, groups and angles, whether given as one file for the whole core or as one file per range of planes; a file that does not fit is refused.',
 ['inputs','configurations'],'all core sizes, group counts, plane ranges and data values',
 'Tests read back one stack with two files and never compare correction factors.',
 ['src/core/xs_mesh_homogenized.cpp','src/sweepers/cmdo/correction_data.cpp','src/util/h5file.cpp','src/util/h5file.hpp'],
 [('output()/read_data_single/read_data_multi','src/core/xs_mesh_homogenized.cpp, src/sweepers/cmdo/correction_data.cpp')])

p('C14','An infinite homogeneous medium gives the exact eigenvalue and spectrum',
 'For every homogeneous material in any fully reflected core, each deterministic solver (characteristics, every discrete-ordinates equation, coupled plane method; with or without acceleration; any mesh, angles, spacing, thread count), when it converges, gives the analytic infinite-medium k and a spatially flat flux with the analytic spectrum.',
 ['inputs','configurations'],'all cross-section sets (any groups, upscatter), geometries, quadratures, sweeper types and options',
 'One fixed characteristics case is tested at 0.5%; other sweepers and options are not run at all.',
 ['src/sweepers/moc/moc_sweeper_kernel.inc.hpp','src/sweepers/moc/moc_sweeper.cpp','src/sweepers/sn/sn_sweeper_variant.hpp','src/sweepers/sn/sn_sweeper_dd.hpp','src/sweepers/cmdo/plane_sweeper_2d3d.cpp','src/sweepers/cmdo/sn_sweeper_cdd.hpp','src/solvers/eigen_solver.cpp','src/solvers/fixed_source_solver.cpp','src/core/cmfd.cpp','src/core/source.cpp'],
 [('power iteration','src/solvers/eigen_solver.cpp'),('transport sweeps','src/sweepers')])

p('C15','A characteristics sweep solves the transport equation along its rays',
 'For every geometry, cross sections, source, incoming flux and boundary condition, one characteristics sweep yields the region fluxes, outgoing boundary fluxes and pin-surface currents obtained by independently attenuating the angular flux along each traced ray; consequently neutrons balance in every pin cell.',
 ['inputs','configurations'],'all geometries including several planes and macroplanes, group counts, sources, boundary conditions and update options',
 'Kernel output is never compared with an independent solution; the existing test only exercises flat flux.',
 ['src/sweepers/moc/moc_sweeper_kernel.inc.hpp','src/sweepers/moc/moc_sweeper.cpp','src/sweepers/moc/moc_current_worker.hpp','src/core/exponential.hpp','src/core/boundary_condition.cpp'],
 [('sweep kernel','src/sweepers/moc/moc_sweeper_kernel.inc.hpp'),('current tally','src/sweepers/moc/moc_current_worker.hpp')])

p('C16','A discrete-ordinates sweep balances every cell and follows its scheme',
 'For every mesh, cross sections, source, incoming flux and boundary condition, one discrete-ordinates sweep gives the cell fluxes and surface currents of an independent evaluation of the selected difference scheme (diamond, step-characteristic, corrected diamond with any correction factors, with each axial option), and neutrons balance in every cell.',
 ['inputs','configurations'],'all mesh sizes, schemes, correction factors, quadratures, boundary conditions, 2-D and 3-D',
 'No existing test runs a discrete-ordinates sweep.',
 ['src/sweepers/sn/sn_sweeper_variant.hpp','src/sweepers/sn/sn_sweeper_dd.hpp','src/sweepers/sn/sn_current_worker.hpp','src/sweepers/cmdo/sn_sweeper_cdd.hpp','src/sweepers/cmdo/sn_sweeper_cdd_mb.hpp','src/core/boundary_condition.cpp'],
 [('sweep','src/sweepers/sn/sn_sweeper_variant.hpp'),('cell equations','src/sweepers/sn/sn_sweeper_dd.hpp, src/sweepers/cmdo/sn_sweeper_cdd*.hpp')])

p('C17','Acceleration never changes the converged answer',
 'For every problem, the converged eigenvalue and pin powers computed with coarse-mesh acceleration equal those computed without it, within the convergence tolerances, whatever the acceleration options, boundary conditions and axial grouping.',
 ['inputs','configurations'],'all small 2-D and 3-D cores, solvers and acceleration settings for which the plain run converges; the accelerated run has to converge too for cells of a fraction of a mean free path, elsewhere the method itself may be unstable',
 'A single accelerated run without reference value is tested.',
 ['src/core/cmfd.cpp','src/core/coarse_data.hpp','src/solvers/eigen_solver.cpp','src/sweepers/moc/moc_current_worker.hpp','src/sweepers/sn/sn_current_worker.hpp','src/sweepers/moc/moc_sweeper.cpp'],
 [('nonlinear current correction','src/core/cmfd.cpp (setup_solve)'),('flux projection','src/sweepers/moc/moc_sweeper.cpp, src/sweepers/sn/sn_sweeper.hpp')])

p('C18','Rotating or mirroring the core rotates or mirrors the answer',
 'For every core, mirroring it left-right, north-south, top-bottom or turning it by 90 degrees (boundary conditions included) leaves the eigenvalue unchanged and transforms pin powers and fluxes in the same way.',
 ['inputs','configurations'],'all cores, boundary conditions, solvers and the group of symmetries of the box',
 'No test solves two related problems; asymmetries in indexing or octant handling cancel in symmetric fixtures.',
 ['src/core/mesh.cpp','src/core/boundary_condition.cpp','src/core/angular_quadrature.cpp','src/sweepers/moc/ray_data.cpp','src/sweepers/moc/moc_sweeper_kernel.inc.hpp','src/sweepers/sn/sn_sweeper_variant.hpp','src/core/cmfd.cpp'],
 [('octant handling','src/sweepers, src/core/angular_quadrature.cpp')])

p('C19','A reflecting boundary is equivalent to the mirrored continuation of the core',
 'For every core with a reflecting face, solving it gives the same eigenvalue and (unfolded) pin powers as solving the core extended by its mirror image across that face with the opposite outer boundary condition repeated.',
 ['inputs','configurations'],'all cores, faces and solvers',
 'Tests never compare a folded with an unfolded core.',
 ['src/core/boundary_condition.cpp','src/core/angular_quadrature.hpp','src/sweepers/moc/ray_data.cpp','src/core/cmfd.cpp','src/sweepers/sn/sn_sweeper_variant.hpp','src/sweepers/moc/moc_sweeper_kernel.inc.hpp'],
 [('reflection of angular flux','src/core/boundary_condition.cpp'),('reflecting faces in diffusion','src/core/cmfd.cpp')])

p('C20','Eigenvalue problems obey their scaling laws',
 'For every problem: multiplying every nu-fission by c multiplies k by c and leaves powers unchanged; scaling a chi column, reordering or duplicating materials, pins, lattices or assemblies under new ids changes nothing; multiplying all lengths by s and dividing all cross sections by s changes nothing.',
 ['inputs','configurations'],'all small cores, libraries, scale factors, relabellings and solvers',
 'These relate two whole runs; tests run each problem once.',
 ['src/core/material.cpp','src/core/material_lib.cpp','src/core/core_mesh.cpp','src/core/plane.cpp','src/solvers/eigen_solver.cpp','src/core/source.cpp','src/core/cmfd.cpp','src/core/transport_sweeper.cpp'],
 [('unique-plane detection','src/core/core_mesh.cpp'),('fission normalisation','src/solvers/eigen_solver.cpp')])

p('C21','The reported eigenvalue is production over losses of the reported solution',
 'For every converged eigenvalue run of a fully reflected core, the eigenvalue equals total neutron production divided by total absorption computed from the reported region fluxes and the input cross sections, and each group balances as well; with open faces the characteristics solution has the smaller eigenvalue, the rest leaking out.',
 ['inputs','configurations'],'all heterogeneous cores and solvers, fully reflected',
 'Tests do not look at the solution of any eigenvalue run.',
 ['src/solvers/eigen_solver.cpp','src/core/transport_sweeper.cpp','src/core/source.cpp','src/core/source_isotropic.cpp','src/sweepers/moc/moc_sweeper.cpp','src/sweepers/sn/sn_sweeper.cpp'],
 [('k update','src/solvers/eigen_solver.cpp (step)'),('source assembly','src/core/source.cpp')])

p('C22','The group source is fission plus scattering plus external source',
 'For every flux, fission source, cross sections and external source, the source assembled for a group equals chi times fission source plus scattering from all other groups plus external source, and the transport source handed to a sweep adds within-group scattering and is divided by 4 pi times the transport cross section in use.',
 ['inputs'],'all region counts, group counts, scattering patterns (up and down), fluxes, external sources given as values or files',
 'No test checks a source value.',
 ['src/core/source.cpp','src/core/source.hpp','src/core/source_isotropic.cpp','src/core/source_isotropic.hpp','src/core/transport_sweeper.cpp'],
 [('initialize_group / fission / in_scatter / self_scatter','src/core/source.cpp, src/core/source_isotropic.cpp')])

p('C23','Fixed-source solutions are linear in the source and exact for infinite media',
 'For every non-multiplying medium, the fixed-source flux scales with the source, superposes for sums of sources, and in a fully reflected homogeneous medium equals the inverse of the removal operator applied to the source.',
 ['inputs','configurations'],'all cores, cross sections, source distributions and solvers',
 'No test runs a fixed-source problem.',
 ['src/solvers/fixed_source_solver.cpp','src/core/source.cpp','src/core/source_factory.cpp'],
 [('inner/outer iteration','src/solvers/fixed_source_solver.cpp'),('external source input','src/core/source.cpp')])

p('C24','Reported pin powers and fluxes agree with the solution and its normalisation',
 'For every run, the reported pin powers are proportional to the fission rate integrated over each pin cell of the reported flux, are normalised to the number of fuel pins, reported pin fluxes average the region fluxes and have unit mean, and the reported k is the last entry of the reported convergence history, which ends only when the requested tolerances are met or the iteration limit is reached.',
 ['inputs','configurations'],'all cores, solvers, tolerances and iteration limits',
 'Test runs write output but nothing reads it.',
 ['src/core/transport_sweeper.cpp','src/sweepers/moc/moc_sweeper.cpp','src/sweepers/sn/sn_sweeper.cpp','src/solvers/eigen_solver.cpp','src/util/utils.hpp'],
 [('pin_powers','src/core/transport_sweeper.cpp, src/sweepers/sn/sn_sweeper.cpp'),('Normalize','src/util/utils.hpp'),('convergence history','src/solvers/eigen_solver.cpp')])

p('C25','Restricting and projecting pin fluxes are consistent',
 'For every solver and flux, the pin flux it reports is the volume average of its fine flux over each pin (per plane or per group of planes); after imposing pin fluxes it reports exactly those, keeps the flux shape inside each pin and returns the size of the change; imposing what it reports changes nothing.',
 ['inputs','histories'],'all geometries, macroplane groupings, treatments, fluxes and sequences of get/set',
 'No test calls these operations.',
 ['src/sweepers/moc/moc_sweeper.cpp','src/sweepers/sn/sn_sweeper.hpp','src/sweepers/cmdo/plane_sweeper_2d3d.hpp','src/core/transport_sweeper.cpp'],
 [('get_pin_flux_1g / set_pin_flux_1g','src/sweepers')])

p('C26','Results do not depend on the number of threads',
 'For every problem, runs that differ only in the number of threads converge to the same eigenvalue, fluxes and powers (to iteration tolerance for deterministic solvers, to summation round-off for Monte Carlo), repeatedly.',
 ['schedules','inputs','configurations'],'all thread counts from 1 to 8, all solvers and small problems, several repetitions',
 'Tests run with two threads once; races depend on scheduling.',
 ['src/sweepers/moc/moc_sweeper_kernel.inc.hpp','src/sweepers/moc/moc_current_worker.hpp','src/sweepers/sn/sn_sweeper_variant.hpp','src/sweepers/sn/sn_current_worker.hpp','src/sweepers/mc/particle_pusher.cpp','src/sweepers/mc/fission_bank.hpp','src/core/cmfd.cpp','src/solvers/monte_carlo_eigenvalue_solver.cpp'],
 [('OpenMP worksharing with critical/atomic/single','src/sweepers'),('per-history random streams and sorted bank','src/sweepers/mc, src/solvers/monte_carlo_eigenvalue_solver.cpp')])

p('C27','The coupled plane method reproduces its characteristics solution',
 'For every core, whenever the coupled method converges, the pin fluxes of its corrected discrete-ordinates solution are those of its characteristics solution in each plane, and for an axially uniform core with reflecting ends the coupled method gives the eigenvalue and pin powers of the plain 2-D characteristics calculation; a single plane between reflecting ends, or two slightly different planes, do converge.',
 ['inputs','configurations'],'all small cores, quadratures and coupling options, with the default ray-length correction',
 'No test runs the coupled method.',
 ['src/sweepers/cmdo/plane_sweeper_2d3d.cpp','src/sweepers/cmdo/correction_worker.cpp','src/sweepers/cmdo/correction_worker.hpp','src/sweepers/cmdo/moc_sweeper_2d3d.cpp','src/sweepers/cmdo/sn_sweeper_cdd.hpp','src/sweepers/cmdo/source_2d3d.hpp'],
 [('correction factors','src/sweepers/cmdo/correction_worker.cpp'),('transverse leakage','src/sweepers/cmdo/plane_sweeper_2d3d.cpp (add_tl)')])

p('C28','Random number streams can be jumped and are uniform',
 'For every seed and distance, jumping ahead by n gives the state reached by drawing n numbers, jumps compose, drawn reals lie in [0,1) (or in the requested interval) and drawn integers in the requested range with the right frequencies, and sampling from a cumulative table selects bins with the table probabilities and never a bin of zero probability.',
 ['inputs','histories'],'all seeds, jump distances, ranges and tables, and mixed sequences of operations',
 'Tests use one seed and aggregate statistics; jumps are tested for one distance.',
 ['src/util/rng_lcg.hpp'],
 [('skip-ahead by binary powers','src/util/rng_lcg.hpp'),('sample_cdf','src/util/rng_lcg.hpp')])

p('C29','Monte Carlo estimators are unbiased',
 'For every material and geometry, the Monte Carlo estimates of k and of group fluxes agree with the exact (infinite-medium) or deterministic values within their statistical uncertainty, the track-length and collision estimators agree with each other, and leakage appears only through vacuum faces.',
 ['inputs','histories'],'all cross sections, geometries and seeds',
 'No test compares any Monte Carlo result with a reference.',
 ['src/sweepers/mc/particle_pusher.cpp','src/solvers/monte_carlo_eigenvalue_solver.cpp','src/core/xs_mesh_region.hpp','src/core/scattering_matrix.hpp','src/core/geometry/direction.hpp','src/util/rng_lcg.hpp'],
 [('collision physics','src/sweepers/mc/particle_pusher.cpp (collide)'),('reaction and outscatter distributions','src/core/xs_mesh_region.*')])

p('C30','Tallies report the sample mean and deviation of what was scored',
 'For every history of scores, weights, commits and resets, a tally reports the mean of its realisations per unit weight and per unit volume and their relative standard deviation, independent of the volume used for normalisation and of the order and threads in which scores arrive.',
 ['histories','inputs'],'all operation sequences and values',
 'No test reads a tally.',
 ['src/sweepers/mc/tally_spatial.hpp','src/sweepers/mc/tally_scalar.hpp'],
 [('commit_realization / get','src/sweepers/mc/tally_spatial.hpp')])

p('C31','The fission bank keeps its population',
 'For every sequence of operations, a fission bank contains exactly the sites pushed since it was cleared (with their total weight), resizing yields exactly the requested number, drawn only from the sites present without preferring any, swap exchanges contents, initial sites lie inside the requested box, and its entropy is that of the distribution of sites over pin cells.',
 ['histories','inputs'],'all operation sequences, sizes, seeds and boxes',
 'No test uses a fission bank.',
 ['src/sweepers/mc/fission_bank.cpp','src/sweepers/mc/fission_bank.hpp','src/solvers/monte_carlo_eigenvalue_solver.cpp'],
 [('resize','src/sweepers/mc/fission_bank.cpp'),('shannon_entropy','src/sweepers/mc/fission_bank.cpp')])

p('C32','Command-line amendments equal editing the input file',
 'For every input file and list of amendments on the command line, the run gives the results of the input file edited in that way, later amendments win, and an amendment that is malformed or does not identify a place in the input is refused.',
 ['inputs','configurations'],'all amendment paths, attributes, non-empty values, repetitions, orders and positions on the command line',
 'No test passes an amendment.',
 ['src/input_proc.cpp','src/input_proc.hpp','src/driver.cpp'],
 [('amendment application','src/input_proc.cpp')])

p('C33','Bad input is refused with a diagnosis, never executed or crashed on',
 'For every input derived from a valid one by a structural mistake (unknown or duplicate identifiers, wrong counts, missing or non-numeric or out-of-range values, missing files, unknown types), the program stops before solving with a nonzero status and a message; it never crashes, hangs, or reports success.',
 ['inputs','fault_sequences'],'all single and double structural mistakes from a catalogue applied to generated valid inputs',
 'Two rejection cases are tested.',
 ['src/driver.cpp','src/input_proc.cpp','src/core/core.cpp','src/core/assembly.cpp','src/core/lattice.cpp','src/core/pin.cpp','src/core/pin_mesh.cpp','src/core/material_lib.cpp','src/core/angular_quadrature.cpp','src/sweepers/transport_sweeper_factory.cpp','src/solvers/solver_factory.cpp'],
 [('validation with exceptions','src/core, src/util/error.hpp'),('top-level handler','src/driver.cpp')])

p('C34','Values written to a result file read back identically',
 'For every sequence of group creations and writes, reading any dataset returns the same values with the same dimensions and order, links and nested groups resolve, read-only files are not changed, and access to missing or mis-sized data is refused.',
 ['histories','inputs'],'all trees of groups, array ranks and extents, values, and open modes',
 'The test writes and reads one small file.',
 ['src/util/h5file.cpp','src/util/h5file.hpp'],
 [('read/write templates','src/util/h5file.hpp')])

p('C35','Lists, groups and ranges in text are parsed as written',
 'For every list of numbers printed in any layout (spaces, newlines, braces for groups, repeated separators), parsing gives the same numbers in the same order and grouping; text that is not such a list is refused; printing a set of indices as ranges and reading it gives the same set.',
 ['inputs'],'all lists, groupings, layouts and malformed variants',
 'A few literal strings are tested.',
 ['src/util/string_utils.cpp','src/util/string_utils.hpp'],
 [('explode_string / explode_braces / print_range','src/util/string_utils.*')])
p('C36','An eigenvalue run stops when told and reports its history faithfully',
 'Every eigenvalue run stops at the first iteration at which both requested tolerances are met, not before the least and not after the largest number of iterations asked for, and the errors it reports are those of its eigenvalues and fission sources. Every iteration whose report was requested, and no other, has one; it holds exactly what a run limited to that many iterations reports, and asking for reports does not change the run.',
 ['inputs','configurations','histories'],'all cores, solvers, tolerances, iteration limits and lists of iterations to report',
 'No test asks for intermediate reports or a least number of iterations, and the stopping rule shows only in the length of histories.',
 ['src/solvers/eigen_solver.cpp','src/solvers/eigen_solver.hpp'],
 [('stopping rule and iteration dumps','src/solvers/eigen_solver.cpp (solve)'),('history output','src/solvers/eigen_solver.cpp (output)')])
p('C37','Reported currents balance the reported fluxes of every pin cell',
 'In every converged accelerated run the currents written on request balance each pin cell and group: the net outflow through its faces equals fission and scattering gains less collisions as given by the reported fluxes, the eigenvalue and the input cross sections. The two cells at a face report the same current for it, closed faces pass nothing, and values are given for every pin cell of every plane, however planes are grouped.',
 ['inputs','configurations'],'all cores, libraries, quadratures and groupings of planes for which the run converges with positive fluxes',
 'No test writes or reads currents; that they belong to the right faces shows only in the balance of unsymmetric cores.',
 ['src/core/cmfd.cpp','src/core/coarse_data.cpp','src/core/coarse_data.hpp','src/core/mesh.cpp'],
 [('current output','src/core/cmfd.cpp (CMFD::output)'),('numbering of coarse surfaces','src/core/mesh.hpp (coarse_surf)'),('current tallies of the sweepers','src/sweepers/moc/moc_current_worker.hpp, src/sweepers/sn/sn_current_worker.hpp')])
p('C38','Exported coupled data drive a coarse run to the same answer',
 'A discrete-ordinates run fed with the quadrature, cross sections and correction factors exported by a converged coupled run has the eigenvalue and pin fluxes of that run. Data of a single plane used for every plane of a stack of copies of it, whatever their heights and however the planes are split into ranges, give the eigenvalue and fluxes of the plane.',
 ['inputs','configurations','histories'],'all cores, libraries, quadratures and axial treatments for which the coupled run converges, all ways to assign the data to planes',
 'No test feeds exported data to another run; every value must land at its own cell, angle and group for the answers to agree.',
 ['src/sweepers/cmdo/correction_data.cpp','src/sweepers/cmdo/sn_sweeper_cdd.hpp','src/core/xs_mesh_homogenized.cpp','src/core/angular_quadrature.cpp'],
 [('correction output and input','src/sweepers/cmdo/correction_data.cpp (output, from_data)'),('cross-section output and input','src/core/xs_mesh_homogenized.cpp (output, read_data_single, read_data_multi)'),('quadrature output and input','src/core/angular_quadrature.cpp')])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(d)+'\n' for d in P))
