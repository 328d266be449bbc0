I, H, C_, F = 'inputs', 'histories', 'configurations', 'fault_sequences'
NOTE = ('Exploration: holds on every execution of the seeded workload; '
        'trusts numpy/scipy/jax linear algebra and the independent reference '
        'model in vlib/ref.py. ')

P('C01', 'Fourier synthesis, derivatives and projection are exact',
  'For every harmonic list, sample count above the Nyquist limit of that list and coefficient table, the generated time series and its time derivatives of any order equal the explicit sums of cosines and sines, and projecting samples of a periodic signal returns its mean and its cosine and sine coefficients, so that synthesis followed by projection is the identity. Sample counts that would truncate harmonics are refused. The plain and the traced (differentiable) implementations agree, and no argument is modified.',
  [I], 'all sorted lists of distinct nonnegative harmonics (with or without 0), even sample counts > 2*max(h)+1, numbers of columns, derivative orders, coefficient values',
  'tests use two or three fixed harmonic lists and powers of two for the sample count; list structure (gaps, missing 0 or 1), sample parity and columns interact',
  [HU, JHU], [('FFT/cosine synthesis', HU + ': time_series_deriv'), ('projection', HU + ': get_fourier_coeff'), ('traced variants', JHU)],
  'reference-model monitor (explicit sums) on random harmonic lists', NOTE)

P('C02', 'The dynamic-stiffness operator is the harmonic image of the linear EOM',
  'For all mass, damping and stiffness matrices, frequencies and harmonic lists, the harmonic operator applied to a harmonic vector gives the Fourier coefficients of inertia plus damping plus stiffness forces of the corresponding motion; the frequency derivative is the exact derivative and the damping-only variant contains only damping. The number of components is one for the zeroth and two for every other harmonic, and lists that repeat a harmonic are rejected.',
  [I], 'all square M, C, K (also nonsymmetric), real w, harmonic lists',
  'tests compare a few symmetric systems for one list; nonsymmetric matrices and unusual lists are never run',
  [HU], [('block assembly', HU + ': harmonic_stiffness'), ('component count', HU + ': Nhc')],
  'reference-model monitor: time-domain forces of random motions', NOTE)

P('C03', 'Harmonic forces of instantaneous elements are exact projections',
  'For every element whose force depends only on the current displacement and velocity (cubic, quintic and general polynomial stiffness, cubic damping, unilateral spring, conservative Iwan backbone), the harmonic force equals the discrete Fourier projection of the time-domain law evaluated along the motion, mapped in and out of local coordinates, for every harmonic list and sample count. The time-domain law itself, as returned by a static evaluation, is the documented formula.',
  [I, C_], 'element types x parameters x maps Q,T x harmonic lists x Nt x harmonic displacements and frequencies',
  'tests check special motions with known coefficients; arbitrary multi-harmonic motion on several local coordinates is never compared with an independent projection',
  [NLF, NL + 'cubic_stiffness.py', NL + 'quintic_stiffness.py', NL + 'general_poly_stiffness.py', NL + 'cubic_damping.py', NL + 'unilateral_spring.py', NL + 'iwan_bb_conserve.py'],
  [('alternating frequency-time', NLF + ': InstantaneousForce.aft'), ('local laws', 'local_force_history of each element')],
  'reference-model monitor: independent laws and explicit projection', NOTE)

P('C04', 'Scalar hysteretic elements return the steady-state harmonic force',
  'For every displacement cycle, the harmonic force of Jenkins and four-parameter Iwan elements equals the projection of the converged (repeated-cycle) response of an independent slider model that starts unloaded at the mean displacement, or at the configured start. The step-by-step, vectorized and traced implementations of the same element agree with each other, including with parameters, harmonic lists, sample counts and amplitudes changed between calls.',
  [I, H, C_], 'all multi-harmonic cycles (reversals anywhere in the cycle, stuck, partial and full slip), parameters, sample counts, call sequences',
  'tests use single-harmonic or a few fixed cycles; the vectorized code paths depend on where reversals fall in the sampled cycle',
  [NLF, NL + 'jenkins_element.py', NL + 'iwan4_element.py', NL + 'vector_jenkins.py', NL + 'vector_iwan4.py', JNL + 'jenkins_element.py', JNL + 'vector_jenkins.py'],
  [('cycle repetition and convergence test', NLF + ': HystereticForce.aft'), ('critical-point shortcut', NL + 'vector_jenkins.py, vector_iwan4.py, ' + JNL + 'vector_jenkins.py')],
  'reference-model monitor (explicit slider integration) + cross-implementation oracle', NOTE)

P('C05', 'Elastic dry friction follows the contact law in cycles and in statics',
  'For 2D and 3D elastic dry friction, the harmonic and the static forces equal those of an independent step-by-step model: normal force is the positive part of stiffness times penetration beyond the gap, and each tangential direction is an elastic increment from the previous force clipped to the friction coefficient times the current normal force, including separation and re-contact. This holds for every choice of starting tangential position (given scalar, given array, mean of the cycle or a prestressed position), number of contact points and gap. Static evaluations start from the last committed displacement and force.',
  [I, H, C_], 'multi-harmonic cycles with separation/slip/stick, element options, static load sequences with committed history',
  'tests use a handful of motions; starting options and load histories with separation combine into cases they never run',
  [JNL + 'elastic_dry_fric_2d.py', JNL + 'elastic_dry_fric_3d.py'],
  [('friction update', JNL + 'elastic_dry_fric_3d.py: _local_force_history'), ('static history', 'force/update_history')],
  'reference-model monitor over cycles and recorded static histories', NOTE)

P('C06', 'Rough contact friction follows the asperity contact law',
  'For every motion in contact, separation and slip, the harmonic and static forces of the rough contact element are the weighted sum over asperities of an elastic-plastic normal law (Hertzian loading up to yield, the plastic law beyond it, unloading along the curve flattened by the largest indentation of the cycle or of the committed history) and a tangential law with the stiffness of the current contact radius, clipped component by component to the friction coefficient times the normal load. This holds for both tangential models (single spring and distributed slider), every start position (default, scalar, two or three components, set from a displacement), gap distribution and material, and static evaluations use exactly the last committed state (a motion that does not go beyond the committed one, the committed displacement itself included, unloads).',
  [I, H, C_], 'materials (elastic to strongly plastic), asperity gaps and weights, tangential models, start options, multi-harmonic cycles, static load histories with commits',
  'tests use one material and a few motions; plastic unloading, separation and re-contact in one cycle combine into branches they never run',
  [JNL + 'roughcontact/rough_contact.py', JNL + 'roughcontact/_asperity_functions.py'],
  [('asperity laws', JNL + 'roughcontact/_asperity_functions.py'), ('cycle and static evaluation', JNL + 'roughcontact/rough_contact.py: aft, force, update_history')],
  'reference-model monitor: scalar asperity-by-asperity model over cycles and static histories', NOTE)

P('C07', 'Every element Jacobian is the derivative of the force it returns',
  'For every nonlinear element, at every state where its force is differentiable, the returned derivative of the harmonic force with respect to the harmonic displacements and to frequency, and of the static force with respect to displacement, equals the derivative of the force returned alongside it. Asking for no gradient returns the same force.',
  [I, H, C_], 'all elements, options, states with mixed stick/slip/separation, harmonic lists and static histories',
  'tests difference a few fixed states; derivative code has separate paths per contact state and per implementation',
  ['tmdsimpy/nlforces', 'tmdsimpy/jax/nlforces'],
  [('analytical/autodiff derivatives', 'aft and force of each element')],
  'derivative monitor: random-direction difference quotients with kink detection', NOTE)

P('C08', 'Every residual Jacobian is the derivative of the residual it returns',
  'For each system residual (static, harmonic balance with frequency, force-amplitude, amplitude-control, amplitude-and-phase, base-excitation, extended periodic motion, variable-phase-resonance and shooting forms), the returned derivatives with respect to the unknowns and the continuation parameter are the derivatives of the returned residual at every smooth state. Asking for no gradient returns the same residual.',
  [I, C_], 'systems with several nonlinear elements, harmonic lists with and without 0, all optional arguments',
  'tests difference some residuals at one state each; chain-rule bookkeeping depends on harmonic list, order, filters and scaling',
  [VS], [('residual assembly and chain rules', VS + ': *_res')],
  'derivative monitor: random-direction difference quotients', NOTE)

P('C09', 'Harmonic-balance residuals encode the time-domain equation of motion',
  'Every harmonic-balance residual form (frequency, force amplitude, amplitude control, amplitude and phase control, base motion) equals the Fourier projection of inertia + damping + stiffness + nonlinear forces minus the external force along the represented motion, where only the dynamic part of the force scales with a force unknown and static forces never do. The appended constraint rows are exactly the stated amplitude (at displacement, velocity or acceleration order) and phase conditions at the controlled location, and prescribed base coordinates enter as known motion.',
  [I, C_], 'systems, elements, harmonic lists with/without 0, orders, control locations, base masks',
  'tests solve one example per residual form; force scaling and index bookkeeping for other lists and orders is never observed',
  [VS], [('assembly', VS + ': hbm_res, hbm_res_dFl, hbm_base_res, hbm_amp_control_res, hbm_amp_phase_control_res, hbm_amp_phase_control_dA_res')],
  'reference-model monitor: projected time-domain forces; assertions on live solver calls', NOTE)

P('C10', 'The extended periodic motion residual encodes the damped nonlinear mode',
  'The residual equals the projected time-domain equation of the motion whose dynamic harmonics are scaled by ten to the amplitude unknown, with damping reduced by the modal-damping unknown times mass and with only static external force; static displacement is not amplitude scaled. The constraint rows are unit modal mass of the first harmonic and zero projection of motion on the phase-constraint vector, and at small amplitude or for linear systems the roots are the linear modes with frequency and damping factor.',
  [I, C_], 'systems, elements, harmonic lists with/without 0, amplitudes',
  'tests check two reference backbones; zeroth-harmonic handling with amplitude scaling and static loads is not observed',
  [VS], [('assembly', VS + ': epmc_res')],
  'reference-model monitor + exact linear-mode oracle', NOTE)

P('C11', 'Superharmonic phase-resonance constraint measures quadrature of forcing',
  'The phase-resonance equation is the normalized inner product between the superharmonic displacement and minus the nonlinear force produced in that harmonic by only the lower harmonics of the motion, restricted by the optional modal filter; it lies in [-1, 1], is invariant to the amplitude of the superharmonic and of the force, and does not depend on higher harmonics. The combined residuals stack it, times the constraint scale, under the matching harmonic-balance equations with force or amplitude as extra unknown.',
  [I, C_], 'systems, superharmonic indices, harmonic lists, filters, scalings',
  'tests solve one example; dependence on list structure, filter and scale is not observed',
  [VS], [('constraint', VS + ': vprnm_single_eqn, vprnm_res, vprnm_amp_phase_res')],
  'reference-model monitor + metamorphic relations', NOTE)

P('C12', 'Shooting residual and stability come from the true flow of the system',
  'The shooting residual is the state after one forcing period minus the initial state for the full equation of motion with the sum of all (displacement-dependent) nonlinear forces and cosine/sine forcing; its initial-state and frequency derivatives, the returned times (never beyond the period), trajectory and monodromy matrix are those of that flow. The stability verdict is derived from the largest Floquet multiplier magnitude of the same orbit, and elements with memory are refused.',
  [I, C_], 'systems with several instantaneous elements, forcing vectors, frequencies, sample counts',
  'tests use one Duffing oscillator with one element; several elements and sine forcing are not observed',
  [VS, 'tmdsimpy/postprocess/shooting.py'], [('state-space integration', VS + ': shooting_res'), ('stability', 'tmdsimpy/postprocess/shooting.py: time_stability')],
  'reference-model monitor: independent high-accuracy integration', NOTE)

P('C13', 'System forces are the sum of element forces and evaluations are pure',
  'The static, harmonic and time-domain nonlinear force of a system (and derivatives) is the sum over its elements, independent of the order in which elements were added, zero without elements, and invariant to splitting an element in parallel ones. Evaluating residuals or harmonic forces any number of times, in any order, with or without gradients gives the same results for the same arguments and modifies neither arguments nor model matrices.',
  [I, H], 'element collections, permutations, interleavings of evaluations',
  'tests evaluate one system once; hidden state (element caches, history) shows only over call sequences',
  [VS, NLF], [('summation', VS + ': total_aft, static_res')],
  'online purity and additivity monitors over random call sequences', NOTE)

P('C14', 'Static history and prestress changes follow the commit protocol',
  'Static force evaluations never change history-dependent state unless a history update is requested; an update commits exactly the evaluated state, and initializing history restores the virgin state (elements whose harmonic evaluation shares the memory are initialized after one). Switching to the prestress friction coefficient and back restores the real one however often and in whatever order it is done, and the harmonic start position set from a displacement takes effect for all elements that support it. Redefining damping changes exactly the damping: proportional coefficients give that combination of mass and stiffness, an explicit matrix replaces them, and a call without arguments changes nothing.',
  [H], 'all interleavings of evaluation, commit, initialize, friction switch, start-position and damping updates over systems with several elements',
  'tests run one fixed order; protocol errors appear only for particular interleavings',
  [VS, NL, JNL], [('history protocol', VS + ': init_force_history, update_force_history, set_prestress_mu, reset_real_mu, set_aft_initialize, set_new_C')],
  'trace-specification monitor against a shadow state machine', NOTE,
  state=[('element history', 'last committed displacement/force', 'nonlinear elements')])

P('C15', 'Friction forces stay admissible and never create energy',
  'Along every path, friction forces stay within their limit (slip force, or friction coefficient times current normal force per tangential component) and contact normal forces are never tensile. The energy dissipated by frictional elements with constant limits over a steady cycle is nonnegative and zero exactly when nothing slips, damping elements dissipate nonnegative energy, and conservative elements dissipate nothing.',
  [I, H], 'all displacement cycles and static load paths',
  'physical invariants over arbitrary paths; tests compare single known values',
  [NL, JNL, 'tmdsimpy/postprocess/harmonic.py'], [('limit clipping', 'local force update of each friction element')],
  'invariant monitors on recorded force histories', NOTE)

P('C16', 'Linear frequency responses solve the linear equations of motion',
  'With all modes retained, the modal frequency response for proportional damping and any cosine/sine force satisfies the full linear equation of motion at every frequency (also for systems with rigid body modes), is the superposition of its cosine and sine parts, agrees with harmonic balance of the same system, and with fewer modes equals the truncated modal sum. The base-excitation response gives total displacements that satisfy the equation of motion of the free coordinates (including stiffness, damping and inertial coupling to the base) while every base coordinate follows the prescribed motion. Nonproportional damping is refused.',
  [I, C_], 'systems, proportional damping coefficients, force vectors, frequency lists, retained mode numbers, base coordinates',
  'tests use one system; sign conventions with sine forcing and mode truncation are not observed',
  [VS], [('modal superposition', VS + ': linear_frf, linear_frf_base')],
  'reference-model monitor: direct solve of the linear equations', NOTE)

P('C17', 'Nonlinear solvers report success only for converged solutions',
  'Whenever a solver reports success, one of the configured stopping tolerances (or the accepting tolerances at the last iteration) holds for the iterates it evaluated, each absolute and relative tolerance being compared with its own error measure, and it stops at the first iterate that meets them; otherwise it reports failure within its iteration limit. The returned point, residual, and Jacobian belong to evaluated points, full Newton and quasi-Newton iterates follow their defining recurrence, line search never leaves the step interval, and the reported evaluation count is what happened (line search evaluations excluded). Neither the starting guess nor the configuration, including tolerances passed to one call, is altered for later calls, and conditioning the problem changes only scales.',
  [I, H, C_, F], 'problem families (convergent, singular, divergent, noisy), solver options, repeated calls on one solver object',
  'tests solve easy problems; the contract is about every sequence of evaluations and every option combination',
  [SOL, JSOL], [('Newton/BFGS loop', JSOL + ': nsolve'), ('bisection', JSOL + ': line_search'), ('base solver', SOL + ': nsolve'), ('conditioning', SOL + ': conditioning_wrapper')],
  'trace monitor: recorded residual calls checked against the solver contract', NOTE)

P('C18', 'Factorizations, linear solves and eigenpairs match their matrices',
  'Linear solves return the solution of the given system, a factored solve always uses the matrix of the factorization it is given regardless of other calls in between, and eigenpairs satisfy the generalized symmetric eigenproblem in ascending order with unit modal mass for exactly the requested index range, cut to the size of the problem. Arguments (including defaults) are not modified and repeated default calls behave the same.',
  [I, H], 'matrices, right-hand sides, index ranges, call sequences on shared solver objects',
  'stateful factor-then-solve sequences and repeated calls with defaults are not in the tests',
  [SOL, JSOL], [('stored factorization', 'lin_factor/lin_factored_solve'), ('eigenproblem', 'eigs')],
  'reference-model monitor over call histories', NOTE)

P('C19', 'Continuation traces one solution branch with controlled steps and faults',
  'Every recorded continuation point solves the residual, consecutive predictor and corrector points satisfy the arc-length equation in scaled coordinates with steps within the configured bounds, and the branch runs in the requested direction and stops at the end parameter, at the step limit, at backtracking or at the first step that cannot be converged after the documented retries with smaller steps and other arc-length weights. Failures of the nonlinear solver, however they are sequenced, never put an unconverged point in the results, and each accepted point is passed to the callback exactly once with its prediction. Requested silence, caller configuration and lists are left unchanged over repeated runs, and without dynamic scaling a run repeated from the same start gives the same branch.',
  [I, H, C_, F], 'branches with folds, scaling options, step settings, injected solver failure sequences, repeated runs on one object',
  'tests run smooth branches with a reliable solver; retry and termination logic depends on failure sequences',
  [CON], [('predictor/corrector loop', CON + ': continuation'), ('arc-length equation', CON + ': correct_res'), ('step adaptation', CON)],
  'trace-specification monitor with fault-injecting solver', NOTE)

P('C20', 'Continuation records on disk are complete and faithful',
  'The saved solution file holds exactly the points handed to the saving callback, in order and bit for bit, accumulating over calls and restarts without loss of earlier rows, also when a run is interrupted between callbacks. The statistics files hold one header and one line per reported point, whose columns hold the values their labels name: the harmonic amplitudes (at the requested derivative order and coordinate), frequencies, forces, damping and amplitudes of exactly that point. Combined callbacks run every function once, in order, with unmodified arguments.',
  [H, I], 'sequences of callbacks, vector sizes, restarts with existing files, combined callbacks',
  'tests write one short file; append order and restart behaviour needs histories',
  [CU, CON], [('append to archive', CU + ': continuation_save'), ('text statistics', CU + ': print_*'), ('combination', CU + ': combine_callback_funs')],
  'offline log checker: recorded callback events against file contents', NOTE)

P('C21', 'Interpolation along solution branches reproduces nodes and slopes',
  'Interpolating a continuation branch reproduces the stored solutions at the stored points, is exact for data that the interpolant order can represent (linear, or cubic with tangents of any scaling), and equals the piecewise Hermite or linear interpolant in between, for every query in range; upsampling keeps the stored points and adds the requested number between them. Linear interpolation outside of the range gives undefined values and branches without increasing parameter are refused; inputs are not modified.',
  [I], 'branches (monotone and not), derivative data, query sequences',
  'tests use one smooth curve',
  ['tmdsimpy/postprocess/continuation.py'], [('Hermite and linear interpolation', 'tmdsimpy/postprocess/continuation.py')],
  'reference-model monitor', NOTE)

P('C22', 'Harmonic utilities preserve the motion they re-express',
  'Phase rotation of harmonic solutions represents exactly the time-shifted motion (any row phases, reference harmonic, extra trailing columns), and phase wrapping maps any angle to an equivalent one in the principal interval. Zero-crossing detection finds each sign change of the sampled series, and harmonic-wise conditioning returns one positive scale for each unknown that depends only on its own harmonic, bounded below by the given (scalar or per-harmonic) threshold, with every extra unknown scaled by its own magnitude bounded likewise. None of them modifies its input.',
  [I], 'harmonic vectors, lists, angles, amplitudes',
  'tests use fixed short vectors',
  [HU], [('rotation, wrapping, crossing, conditioning', HU)],
  'reference-model monitor + metamorphic relations', NOTE)

P('C23', 'Predicted harmonic solutions solve the linearized problem',
  'For proportionally damped systems and lists that contain the first harmonic, the predicted solution for each supported equation (frequency, amplitude control, amplitude and phase control, superharmonic resonance with amplitude and phase control) is, with all modes retained and no nonlinear elements, a root of that equation: it has the requested force or amplitude and phase, the static solution of static forces, and the force unknowns that produce it. With fewer modes it is the truncated modal sum, and the superharmonic prediction is the linear response to the nonlinear force of the predicted lower-harmonic motion. Unsupported equations or inconsistent options are refused.',
  [I, C_], 'residual forms, systems, harmonic lists',
  'tests use one predictor on one system',
  [HU], [('prediction', HU + ': predict_harmonic_solution')],
  'reference-model monitor', NOTE)

P('C24', 'Single-mode reduced models are exact where the mode is exact',
  'At every point of an amplitude-dependent mode backbone, the constant-force reduced model returns exactly the positive-frequency roots of the complex single-mode equation with that frequency, damping and modal force, in branch order (none lost or invented, down to very low damping), and reconstructs all harmonics with consistent amplitude and phase; for a linear mode this is the forced response of the full system. The constant-displacement model returns the force magnitude that gives the controlled amplitude at each frequency, the mode interpolated linearly in amplitude, and undefined values outside of the backbone; both models invert each other. Alternative frequency, damping and modal-force inputs replace the backbone values, and inconsistent force inputs are refused.',
  [I, C_], 'backbones, force vectors, harmonic lists, filters',
  'tests compare plots of one system',
  ['tmdsimpy/roms/epmc.py'], [('force and displacement response from backbone', 'tmdsimpy/roms/epmc.py')],
  'reference-model monitor: closed-form modal response', NOTE)

P('C25', 'Superharmonic reduced model joins tracked and modal responses',
  'The superharmonic reduced model returns, for the tracked point interpolated at the requested fundamental amplitude, the fundamental motion of constant amplitude in phase with the tracked solution, plus the modal superharmonic response whose peak has the amplitude, phase and frequency of the tracked superharmonic, at all roots of the single-mode equation, over the union of the harmonic lists. The force is that of the fundamental reduced model, optionally corrected (in proportion to the superharmonic amplitude) to equal the tracked force at the tracked point. Requested extra frequencies are added as interpolated rows with undefined superharmonics outside of the computed range, the result does not depend on the phase reference of either backbone, and it works for any amplitude scale and light damping.',
  [I, C_], 'tracked branches, superharmonics, harmonic lists',
  'tests compare one system',
  ['tmdsimpy/roms/vprnm.py'], [('constant displacement response', 'tmdsimpy/roms/vprnm.py')],
  'reference-model monitor', NOTE)

P('C26', 'Post-processed local forces are those used by the harmonic analysis',
  'The local harmonic and time histories of displacement and force produced for inspection at a harmonic solution are those of each element along that motion, one entry per element in order, for every element type that supports it, start option and sample count. Projecting the returned local forces and mapping them to global coordinates gives the harmonic force the analysis uses, element by element and in total. Inspection changes neither arguments nor later results, and elements that cannot be inspected raise an error.',
  [I, C_], 'elements, start options, harmonic solutions',
  'tests plot one element type',
  ['tmdsimpy/postprocess/harmonic.py', 'tmdsimpy/nlforces', 'tmdsimpy/jax/nlforces'], [('local force reconstruction', 'tmdsimpy/postprocess/harmonic.py: local_harmonic_forces...')],
  'cross-path monitor: inspection path against analysis path', NOTE)

P('C27', 'Independent routes to the same motion agree',
  'A converged harmonic-balance solution with enough harmonics is the periodic motion of the system: for memoryless elements the time integration of the equation of motion from its initial state reproduces it, shooting finds the same orbit and the stability verdict equals the growth of perturbations observed over a period on stable and unstable branches; for Jenkins, Iwan and elastic dry friction elements the step-by-step friction law started in the steady state stays on it. At any common motion and load all residual forms (frequency, force, amplitude, amplitude and phase, phase resonance, nonlinear mode, base motion) express the same balance, and the zeroth harmonic alone is the static residual. Every point of a frequency response traced by continuation is the solution a separate solve finds there, and interpolation between points gives solutions.',
  [I, C_, H], 'systems, elements, forces, frequencies on all branches; continuation runs in both directions',
  'unit tests check each analysis on its own against stored values; disagreement between analyses shows only when their results are fed into each other',
  [VS, NLF, SOL, CON, 'tmdsimpy/postprocess/shooting.py', 'tmdsimpy/postprocess/continuation.py'],
  [('residual forms', VS + ': *_res'), ('stability', 'tmdsimpy/postprocess/shooting.py: time_stability'), ('branch tracing', CON + ': continuation')],
  'end-to-end monitor: solved motions marched by an independent integrator, analyses cross-checked on one motion', NOTE)

P('C28', 'Results do not depend on how the same mechanics is described',
  'Describing one mechanical problem differently changes results only by the corresponding transformation: numbering or rotating or scaling coordinates (residuals, derivatives, static residuals and linear frequency responses), assembling uncoupled systems in one model (each part unchanged, no cross coupling), units of force and time, and for the steady state of memoryless, Jenkins and Iwan elements the origin of time and a multiple of the period as fundamental period. Harmonics of zero amplitude added to the list leave the equations of the others unchanged, mirrored loads and motions of symmetric elements give mirrored residuals, and conservative elements commute with time reversal.',
  [I, C_], 'systems, elements, harmonic lists, coordinate maps, sample shifts, period multiples',
  'tests use fixed diagonal systems with one element at one degree of freedom; index and scaling mistakes that cancel there break the symmetries',
  [VS, HU, NLF, NL, JNL], [('assembly in harmonic coordinates', VS + ', ' + HU + ': harmonic_stiffness'), ('coordinate maps of elements', 'Q and T of each element')],
  'metamorphic monitor: paired evaluations without a reference model', NOTE)
