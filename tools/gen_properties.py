#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json, os
C='src/main/cxx/core/'; A='src/main/cxx/apps/'; U='src/main/cxx/util/'; S='src/main/scripts/'
P=[]
def p(id,title,statement,over,text,why,files,mech,observe):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None)))

p('C01','Same seed and inputs give a bit-identical run',
 'Running a fitting program (azafran, curcuma, oregano, mascada) twice with the same seven arguments, the same model definition and the same data files writes byte-for-byte identical output (log, result values, uncertainties, data block) and the same exit status, whatever the number of processors, the machine load or the thread schedule. Optimizers built with equal settings and given the same problem likewise return identical results; a different random seed leads to a different search path.',
 ['schedules','inputs'],
 'all thread schedules, processor counts and load levels, for all models, seeds and strategy settings',
 'The flavour tests run one seed and compare one printed cost; nothing compares two runs, and no test varies the schedule although every generation evaluates its individuals on concurrently running threads.',
 [C+'optimize.h',C+'optimizer.h',C+'runner.h',C+'random.h',C+'model.h'],
 [('individuals are drawn sequentially, evaluated on one thread each into their own slot, and joined before ranking','optimize.h optimize()'),('model evaluation is const','model.h cost()')],
 ['standard output and exit status of the fitting programs','Optimizer::Result'])
p('C02','Extraction tools return exactly the tagged lines of a result file',
 'For every input text, ecom, edat, elog, emes and emod print exactly those lines that lie after an opening line and before the matching closing line of their element (command; data; log; message; model), unchanged and in order, and nothing else, with exit status 0. A tag counts only if it makes up the whole line; the elements of former versions (mesg for message; job and input for model, see each tool) are accepted as well (a text using one version of an element throughout), and repeated elements are all extracted.',
 ['inputs'],'all texts, with tags at any position, repeated, missing, unterminated, nested or embedded in longer lines',
 'The feature and flavour tests only pipe a few well-formed result files through the tools and look at one number in the end.',
 [A+'ecom.cxx',A+'edat.cxx',A+'elog.cxx',A+'emes.cxx',A+'emod.cxx'],
 [('line-by-line scan with a found flag','each tool main()')],['standard output of the five tools'])
p('C03','A result file contains all that is needed to repeat the run',
 'The result file of any run contains the exact command line and the verbatim model definition (comments and blank lines included), so that emod piped into the command printed by ecom writes the identical result file again; the log, message and data elements extracted from it are those of the run. erun does this in one step: it stores the new result file in its target, prints its log, and succeeds if and only if every value given on its command line appears as a section cost in the new result file.',
 ['inputs','programs'],'all model definitions (any text before, between and after sections, any comments), all argument lists, all flavours, all lists of expected values',
 'The tests run erun on six stored result files whose expected values are all present; they never compare the recovered command or model with the original.',
 [C+'runner.cxx',C+'model.h',A+'ecom.cxx',A+'emod.cxx',S+'erun'],
 [('command line and model are echoed before anything is parsed','runner.cxx write_command_line(), model.h get()'),('erun pipeline','erun')],['result files, erun exit status, output and target file'])
p('C04','Doppler absorption lines have the physical optical depth',
 'In the data block of curcuma and azafran results, the optical depth at each data point equals the sum over the lines of its section of a Gaussian with central wavelength (rest wavelength)(1+z)(1+v/c), 1/e half-width b/c times the central wavelength, and wavelength-integrated optical depth e^2/(4 eps0 m_e c^2) times f times N times (rest wavelength)(central wavelength), to within 1e-6 of the line-centre value, and the true transmission column equals exp(-optical depth). azafran first shifts the rest wavenumber k to k+q((1+da)^2-1), where q is the line\'s relativistic coefficient and da its (1e-6) variation of the fine-structure constant; the optical depth is never negative and is unaffected by the order of the lines.',
 ['inputs'],'all line lists with physical parameter values (wavelength, f, z, v, b, log N, q, da) and all data grids',
 'The unit tests check one parameter set per profile at the line centre and its equivalent width; superposition, redshift/velocity combinations, wings, and the dependence on each parameter are not sampled.',
 [C+'profiles.cxx',C+'profiles.h',C+'section.h',C+'base.h'],
 [('Intergalactic_Doppler and Many_Multiplet constructors and operator()','profiles.cxx'),('Superposition','profiles.h')],['optical depth and transmission columns of the data block','profile classes'])
p('C05','Voigt lines follow the published pseudo-Voigt approximations',
 'In oregano results the optical depth of a line is the area-normalised pseudo-Voigt approximation, and in mascada results the extended pseudo-Voigt approximation, of Ida, Ando and Toraya (2000) to the convolution of the Doppler profile (1/e half-width b) with a Lorentzian (half-width at half-maximum G l0 lc / (4 pi c), G the damping constant in 1/s, l0 and lc rest and central wavelength), with position and integrated optical depth as for Doppler lines. The line profiles are symmetric, non-negative and integrate to the same total optical depth for every ratio of the widths, including G = 0 (pure Doppler), and deviate from the exact Voigt profile by no more than 1.5 per cent (pseudo-Voigt) or two per mille (extended) of the line centre value; agreement with the published approximations is to 1e-4 of the line centre value and, in the wings beyond eight widths, to one per cent of the value there.',
 ['inputs'],'all Doppler and Lorentz widths, from pure Doppler to Lorentz-dominated, all other line parameters, all offsets from the line centre',
 'The unit tests sample the approximations at the line centre for two width ratios.',
 [C+'profiles.cxx',C+'profiles.h'],
 [('Pseudo_Voigt, Extended_Pseudo_Voigt','profiles.cxx'),('Intergalactic_Voigt','profiles.h')],['optical depth column of oregano and mascada data blocks','profile classes'])
p('C06','The instrumental profile is convolved accurately',
 'The convoluted transmission column is the transmission convolved with a Gaussian of full width at half maximum (section centre wavelength)/(resolution times 1000), computed exactly for the piecewise linear interpolant of the transmission sampled with a spacing not wider than the half-width at half-maximum of the profile and truncated near four times that half-width; beyond the ends of the section its outermost sampling interval is repeated (a section of a single data point is not convolved). Irregularly spaced data are treated as samples of their mean spacing, with further samples taken in equal parts of each interval. It therefore lies between the extremes of the sampled transmission (to 0.1 per cent), equals one far away from lines, preserves the equivalent width of lines that lie well inside the section, is linear in the absorbed fraction, and approaches the unconvolved transmission as the resolution grows.',
 ['inputs'],'all equidistant grids, sampling from heavily oversampled to heavily undersampled instrument profiles, all resolutions and line lists',
 'No unit test covers Section; the flavour tests sample three data sets at one resolution each.',
 [C+'section.h',C+'section.cxx'],
 [('semi-analytic convolution with supersampling','section.h convolute(), section.cxx primitive(), supersample()')],['convoluted transmission column of the data block'])
p('C07','The background continuum is the best weighted least-squares fit',
 'For the absorption spectrum at hand, the continuum column is the polynomial in wavelength of degree p-1 (p = number of Legendre basis polynomials stated in the section head) that minimises the cost over the valid data points of the section, and is identically one for p = 0. Hence adding a basis polynomial never increases the cost of fixed lines, scaling fluxes and uncertainties together scales the continuum and leaves the cost alone, and data that are a polynomial of lower degree times the absorption are reproduced exactly.',
 ['inputs'],'all sections, all p that the data determine, all uncertainties, masks and line lists',
 'No unit test covers the continuum; the flavour tests see it only through a total cost at two decimals.',
 [C+'section.cxx',C+'section.h'],
 [('normal equations in a Legendre basis solved by Cholesky decomposition','section.cxx continuum()')],['continuum column and section cost'])
p('C08','Result tables, data block and cost agree with each other',
 'In every result file each data row is self-consistent: transmission times continuum, convoluted transmission times continuum, residual = (flux - fit)/uncertainty, normalised flux and uncertainty = flux and uncertainty divided by the continuum; rows are the section\'s data points in file order, sections in definition order separated by one blank line. Each section row in the table shows the first and last wavelength, number of basis polynomials, resolution, number of valid points, half the sum of squared residuals of the valid points and that cost per point; each line row shows the parameters used, the observed wavelength (rest wavelength)(1+z)(1+v/c), with an uncertainty only where a parameter was optimised; the uncertainty of the observed wavelength follows from those of rest wavelength, redshift and velocity by the propagation of errors.',
 ['inputs','histories'],'all models and data, all flavours, all ways a run can end (fixed parameters, stopped, underflow, optimised)',
 'The tests grep one cost value out of a handful of result files; no test reads the rest of the tables or the data block.',
 [C+'model.h',C+'section.cxx',C+'section.h'],
 [('set() then put()','model.h'),('Section::put, Section::cost','section.cxx')],['result HTML tables and data element'])
p('C09','Excluded data points never influence a fit',
 'Data points inside an exclusion interval of the section head (bounds included), or with a zero in the fourth data column, contribute neither to the cost, nor to the number of valid points, nor to the continuum, nor to the optimisation: whatever (finite) flux they carry, the run takes the identical course and yields the identical parameters, uncertainties, costs and model columns. They remain in the data block with mask 0, and points outside every interval remain valid; the intervals may overlap and come in any number.',
 ['inputs'],'all exclusion interval lists and mask columns, all replacement values in excluded points',
 'Only one of the example models uses an exclusion interval, and no test perturbs the excluded data.',
 [C+'section.cxx',C+'section.h',C+'model.h'],
 [('mask()','section.cxx'),('msk tests in cost and continuum','section.cxx, section.h')],['cost, tables, data block'])
p('C10','Parameter references tie parameters exactly',
 'A parameter that names another line (or, for a resolution, another section) takes the value, uncertainty and free-or-fixed state of the same parameter of that line or section, regardless of definition order, of the section it lives in and of the number of references in between, and its own value, bounds and flag are ignored; tied parameters count as one free parameter. A model in which a reference is replaced by the referenced (fixed) specification gives the same result, and a reference to an unknown identifier, to itself or along a cycle is rejected with exit status 16 and a message naming it instead of being evaluated.',
 ['inputs','programs'],'all reference graphs over lines and sections: chains, trees, forward and backward, across sections, dangling, self-referencing and cyclic',
 'Two of the example models use single-step references; chains, forward references and erroneous graphs are never run.',
 [C+'model.h'],
 [('index of unique parameters and dereferencing loops','model.h get()')],['result tables, data block, number of parameters, exit status'])
p('C11','The meaning of a model definition is independent of its layout',
 'Comments (from % to the end of the line), blank lines, text outside the braces, extra white space, the order of the two bounds, and the initial value of a free parameter have no influence on a run; renaming lines and sections only renames and reorders table rows. Free parameters start at the middle of their bounds and fixed parameters keep their stated value exactly, and reordering lines within a section or adding a line of zero absorption or an independent section leaves every other result of a fixed or stopped-at-start model unchanged.',
 ['programs','inputs'],'all model definitions and all layout-preserving rewritings of them',
 'The tests run seven fixed model files; none compares two layouts of one model.',
 [C+'model.h',C+'readline.h',C+'readline.cxx'],
 [('readline with comment mark, section parsing, bounds swap','model.h get(), readline.cxx')],['standard output except the echoed model'])
p('C12','Spectra are read completely and within the stated window only',
 'A section uses exactly the data rows of its file whose wavelength lies in the stated interval (bounds included), in file order, up to the first empty line, ignoring lines that start with #, % or !; a missing third column means unit uncertainty and a missing fourth column means valid, further columns are ignored. The first four columns of the data block repeat wavelength, flux, uncertainty and validity to nine significant digits, so that using an extracted data block as input yields the same fit again; a file without any row in the interval or with a malformed row is rejected with exit status 16.',
 ['inputs'],'all data files: any number of columns, comments, blank lines, white space, number formats, and any wavelength window',
 'The tests read six clean data files; neither comments, missing columns nor window edges are sampled.',
 [C+'section.cxx',C+'model.h'],
 [('Section::get and Section::put','section.cxx')],['data block, exit status'])
p('C13','Invalid input is rejected cleanly, never with a crash or hang',
 'Whatever the arguments, model definition, data files or standard input are (resolving powers, populations and numbers of polynomials and generations of a practicable size provided), every program terminates by itself with one of the documented exit statuses (0 success; 1 underflow; 2 stopped; 8 invalid argument; 16 invalid input or numerical failure; 64 other), never with a signal or an endless loop, and without memory errors. Input that cannot be interpreted (wrong number of arguments, non-numeric or impossible strategy settings, missing files, syntax errors, exclusion intervals which are not pairs of numbers, duplicate identifiers, missing values, no section at all, no data to determine the continuum) yields a message on standard error (naming the file or identifier that is missing or duplicate) and status 8 or 16, not a result that looks like success.',
 ['inputs','fault_sequences'],'all byte strings as model, data or spectrum, all argument vectors, all missing or unreadable files',
 'No test supplies invalid input to any program.',
 [C+'runner.h',C+'model.h',C+'section.cxx',C+'dataio.cxx',C+'optimize.h',C+'exitcodes.h',A+'azafran.cxx',A+'ezip.cxx',U+'helicorr.cxx'],
 [('exceptions mapped to exit codes in each main()','apps, util'),('stream state checks','model.h, section.cxx, dataio.cxx')],['exit status, standard error, sanitizer reports'])
p('C14','The search never leaves the parameter bounds',
 'During an optimisation with bounds the objective function is only evaluated at points inside the bounds (bounds included) until the search has ended, and reported parameter values of free parameters always lie within their bounds, also when the optimum lies on or outside a bound, when the start lies near a bound and when the initial step is much larger than the bounds. Each generation evaluates exactly the stated population and the reported fitness is the value of the objective function at the reported parameters.',
 ['inputs','histories'],'all bounds, start points, step sizes, seeds, dimensions, population sizes and objective functions, over every generation',
 'The unit tests never use a constraint; the flavour tests look at the final cost only.',
 [C+'optimize.h',C+'optimizer.h',C+'model.h'],
 [('coordinate-wise resampling until the constraint holds','optimize.h optimize()'),('Bounded_Constraint','model.h')],['evaluation trace of the objective function, reported values'])
p('C15','Optimisation converges to the optimum and reports it honestly',
 'On smooth unimodal objective functions (ill-conditioned and rotated quadratics included) and on noise-free synthetic spectra with adequate settings (a population of at least the default size, a start step comparable to the distance of the optimum, an accuracy goal fine enough for the conditioning), the search ends as optimised with parameters equal to the true optimum to an accuracy consistent with the accuracy goal. At any time exactly one of optimised, underflow and stopped holds: a run flagged optimised fulfils the accuracy goal on every parameter, a run that is not flagged optimised or underflow has used exactly the maximum number of generations, and generation numbers never exceed that maximum.',
 ['inputs','histories'],'all dimensions, condition numbers, rotations, start points, scales, population sizes, seeds and accuracy goals',
 'The unit tests run five standard functions in ten dimensions with one seed each.',
 [C+'optimize.h',C+'optimizer.cxx',C+'optimizer.h'],
 [('CMA-ES adaptation and termination criteria','optimize.h'),('strategy parameter settings','optimizer.cxx')],['Optimizer::Result','result tables'])
p('C16','Optimisation obeys its exact invariances',
 'Maximising a function takes exactly the same course and returns bit for bit the same parameters, step sizes and uncertainties as minimising its negative. The search depends on the objective function only through the ranking of individuals: any strictly increasing transform that keeps all values distinct changes neither the sequence of evaluated points nor the resulting parameters, and scaling all parameters, start points, step sizes and the accuracy by powers of two scales the whole course exactly.',
 ['inputs','histories'],'all objective functions, dimensions, seeds, settings, over the whole evaluation history',
 'The unit tests only minimise and maximise fixed functions independently of each other; no relation between runs is tested.',
 [C+'optimize.h',C+'optimizer.h'],
 [('comparison functor used for ranking only','optimize.h, optimizer.h')],['evaluation trace and Optimizer::Result'])
p('C17','Reported uncertainties are the standard errors of the parameters',
 'For a quadratic cost function (half chi-square) with a diagonal curvature matrix, the uncertainty reported for an optimised parameter agrees with the exact standard error (inverse square root of the curvature) within the statistical scatter of the adapted covariance matrix, and in one dimension exactly; for correlated parameters it agrees likewise with the square root of the diagonal of the inverse curvature matrix. They are the square roots of the diagonal of the adapted covariance matrix, rescaled by one common factor to the curvature of the cost function along its principal axes. Uncertainties are positive numbers, also where the cost function is not defined (or infinite) beyond the bounds of the parameters, scale with the data uncertainties, are zero for fixed parameters and for runs that are not optimised, and do not depend on the sign (minimise or maximise) of the problem.',
 ['inputs'],'all quadratic objective functions, dimensions, correlations and scales, all seeds; synthetic spectra with known noise',
 'No unit test looks at uncertainties at all.',
 [C+'optimize.h',C+'optimizer.h',C+'model.h'],
 [('three-point parabola along the principal axes, rescaled covariance','optimize.h postopti()')],['Optimizer::Result uncertainties, result tables'])
p('C18','Random number generators produce their reference sequences',
 'For every seed, the generators (MELG19937-64, MT11213a/b-32, MT19937-32, MT19937-64, PCG-32) produce exactly the sequence defined by their published algorithms with the documented seeding, for any length of the sequence, and the real-valued output is the integer output mapped to its documented interval without ever leaving it. Copies of a generator continue identically and independently, and seeds that differ (for the 32-bit Mersenne twisters, in their lower half) give different sequences.',
 ['inputs','histories'],'all 64-bit seeds and seed arrays, all positions in the sequence',
 'The unit tests compare the first numbers of each generator for one seed.',
 [C+'random.h'],
 [('recurrences, tempering, initialisation','random.h')],['operator(), rand() of the generator classes'])
p('C19','Normal deviates are standard normal and reproducible',
 'For every seed the normal deviates are independent draws of the standard normal distribution: mean, variance, skewness, kurtosis, tail frequencies, empirical distribution and serial correlation agree with it within sampling error, successive deviates follow from the uniform generator by the polar method and both values of a pair are used in turn. No deviate is ever infinite or not a number, and equal seeds give equal sequences.',
 ['inputs','histories'],'all seeds and all sequence lengths',
 'No test covers the deviates directly.',
 [C+'deviates.h',C+'random.h'],
 [('polar Box-Muller method','deviates.h')],['Normal_Deviate::operator()'])
p('C20','The symmetric eigenvalue decomposition is correct',
 'For every real symmetric matrix of any dimension the decomposition returns eigenvalues in ascending order and orthonormal eigenvectors that reproduce the matrix to rounding accuracy relative to its norm, whichever of the three algorithms is used; all three return the same eigenvalues (the expert variant, dsyevx, may instead report failure for nearly multiple eigenvalues). Only the documented triangle of the input is referenced, the input is left unchanged, and the result of a decomposition does not depend on what the object decomposed before.',
 ['inputs','histories'],'all symmetric matrices: random, graded, singular, (nearly) degenerate, indefinite, diagonal, any scale, dimensions 1 to about 60',
 'The unit tests decompose two fixed matrices.',
 [C+'decompose.cxx',C+'decompose.h'],
 [('LAPACK drivers dsyevd, dsyevr, dsyevx with workspace queries','decompose.cxx')],['D_Decompose, R_Decompose, X_Decompose'])
p('C21','Numerical integration meets its accuracy goal',
 'For smooth integrands which the initial abscissae resolve the adaptive integrator returns the integral within the absolute accuracy goal (up to rounding), for finite intervals and for the semi-infinite and infinite ranges, with every pair of different quadrature formulas; polynomials of a degree within the order of the formula are integrated to rounding accuracy. For integrands with many features, which they do not resolve, the goal is missed only exceptionally (when two formulas agree by accident). The goal is absolute: integrand and goal multiplied by a power of two give exactly that multiple of the result. The integral is linear in the integrand, additive over adjacent intervals, changes sign when the bounds are swapped, is zero for equal bounds, and the integrand is evaluated inside the interval only.',
 ['inputs','configurations'],'all smooth integrands of the generated families, intervals, formula pairs and accuracy goals, with and without refinement',
 'The unit tests integrate a few fixed functions with the default formulas.',
 [C+'integrator.h'],
 [('nested quadrature formulas with reuse of abscissae on bisection, error heap','integrator.h')],['Integrator::integrate and its infinite variants'])
p('C22','Equivalent widths match the integrated absorption',
 'The equivalent width reported for a line is the rest-frame equivalent width, in milli-Angstrom, of that line alone: the integral of 1 - exp(-optical depth) over wavelength divided by the redshift factor (1+z)(1+v/c), to within the accuracy of the integration (0.5 per cent for nearly all lines, ten per cent for every line). It is proportional to f N lambda^2 for optically thin lines, grows monotonically with column density, and does not depend on redshift up to that factor, on data, resolution, continuum or other lines.',
 ['inputs'],'all line parameters in all flavours, from optically thin to saturated',
 'The unit tests check one line per profile.',
 [C+'profiles.h',C+'integrator.h',C+'model.h'],
 [('Equivalent_Width_Calculator','profiles.h')],['equivalent width column of the result table','Equivalent_Width_Calculator'])
p('C23','Air and vacuum wavelengths are converted consistently',
 'vactoair divides each wavelength (Angstrom) by the refractive index of standard air of Edlen (1966) at that vacuum wavelength, and airtovac inverts this, so that either order of the two conversions restores the original wavelength to the printed precision; vacuum wavelengths are longer than air wavelengths, and order is preserved. The refractive index formulas (Edlen 1953, Edlen 1966, Birch and Downs 1994) agree with the published dispersion equations, and the derivatives supplied with them are those of the function.',
 ['inputs'],'all wavelengths from the ultraviolet (2000 A) to the infrared, all table lengths and column counts',
 'No test runs the utilities or the equations.',
 [C+'equations.cxx',C+'equations.h',C+'base.h',U+'airtovac.cxx',U+'vactoair.cxx'],
 [('Equations','equations.h'),('Newton solver','base.h solve()')],['standard output of airtovac and vactoair','Equations, solve'])
p('C24','Heliocentric correction applies the relativistic Doppler factor',
 'helicorr multiplies every wavelength by sqrt((1+v/c)/(1-v/c)), v in m/s, and leaves flux and uncertainty columns alone. Hence correcting by v and then by -v restores the wavelengths to the printed precision, v = 0 changes nothing, positive velocities lengthen wavelengths, and successive corrections compose according to the relativistic addition of velocities; a velocity that is not below the speed of light is rejected with exit status 8.',
 ['inputs'],'all velocities and all spectra',
 'No test runs the utility.',
 [U+'helicorr.cxx',C+'base.h'],
 [('redshift()','base.h')],['standard output of helicorr'])
p('C25','Spectrum utilities preserve every row and column of a table',
 'airtovac, vactoair, helicorr and ezip write exactly one output row per input row after the skipped lines, in order, with the wavelength to six decimals and the flux and uncertainty to seven significant digits; a two-column table stays two-column and a three-column table keeps its uncertainties row by row. ezip combines the wavelengths and fluxes of the first with the uncertainties (second column) of the second file row by row (for tables that have their wavelengths in common), both after skipping the given number of lines, and rejects tables of different length; nothing is written when an input is rejected.',
 ['inputs'],'all tables with any number of rows, columns, header lines and number formats; all skip counts',
 'No test runs any of these utilities.',
 [C+'dataio.cxx',C+'dataio.h',A+'ezip.cxx',U+'airtovac.cxx',U+'vactoair.cxx',U+'helicorr.cxx'],
 [('get and put','dataio.cxx'),('row count comparison','ezip.cxx')],['standard output and exit status'])
p('C26','foreach never loses a file',
 'foreach applies the command (source path, target path) to every file in turn and replaces each file by the output of the command. If the command or any step fails at any point, foreach stops with a non-zero status and the original content of every file is still available, under its own name or as its .backup; when all succeed no backup is left behind and no other file is touched, for any distinct file names (spaces included) and any directories, provided that the names of backup and target are not in use; if only the final removal of backups fails, all files carry their new content.',
 ['fault_sequences','inputs','crash_points'],'all file lists, and a failure of the command at any file: before writing, after a partial write, or without writing',
 'No test runs the script.',
 [S+'foreach'],
 [('set -e, backup before command, backups removed at the end only','foreach')],['file system content after the script has ended'])
p('C27','Valid runs are free of memory errors, data races and undefined behaviour',
 'For every valid model, data set and setting, the fitting programs neither access memory out of bounds, after release or before initialisation, nor leak objects whose number grows with the run, nor execute undefined arithmetic, and no two threads access the same data without synchronisation.',
 ['inputs','schedules'],'all valid models, data and settings; all schedules',
 'The tests are built without sanitizers and observe only final results.',
 [C+'optimize.h',C+'model.h',C+'section.h',C+'section.cxx',C+'profiles.h',C+'integrator.h',C+'decompose.cxx'],
 [('each thread writes its own slot, index arithmetic guarded at section edges','optimize.h, section.h')],['sanitizer reports of instrumented builds'])
p('C28','Exit status, message, log and generation limits tell the truth',
 'The exit status of a fitting run is 0 if and only if the message element says the optimisation completed successfully, 1 if and only if it reports an underflow, and 2 if and only if it was stopped at the maximum number of generations, which is then the generation number reported. The log element has exactly one line for each completed generation divisible by the trace modulus (none for modulus 0) plus the final generation of an optimised run, with increasing generation numbers, positive minimum not above maximum step sizes, and a cost which for the final generation equals the sum of the section costs. A run with a smaller generation limit or another trace modulus takes the identical course as far as it goes.',
 ['inputs','configurations','histories'],'all argument combinations (stop generation, trace modulus, accuracy goal, population) and models',
 'The tests use one setting each and look at one value of the result table.',
 [C+'runner.h',C+'runner.cxx',C+'optimize.h',C+'exitcodes.h'],
 [('Tracer, write_result_messages, exit code selection','runner.h, runner.cxx')],['exit status, message and log elements'])
p('C29','Every generation is a step of the published CMA-ES with its default settings',
 'The search is the (mu/mu_w, lambda) evolution strategy with covariance matrix adaption of Hansen and Ostermeier (2001) and Hansen (2014, purecmaes): given the state after a generation (mean, global and local step sizes, axes, covariance, evolution paths) and the fitness values, the next state follows from the published equations: individuals are mean plus step size times axes times normal deviates taken in sequence from the seeded generator (a deviate that would violate the bounds is drawn again), the best are recombined with weights log(mu + 1/2) - log(i), both paths, the covariance (rank one and rank mu) and the step size are adapted with the published constants for the problem dimension and number of parents, axes and local step sizes are the eigenvectors and the square roots of the eigenvalues of the covariance, renewed every update modulus generations, (where a multiple of the identity is added to limit its condition to 4.5e13), and the search ends as optimised in the first generation where every standard deviation (global step size times square root of the variance) is less than the accuracy goal times the magnitude of the mean (to 1.5e-7 in absolute terms). Builder settings depend only on the last value set, the population size being twice the number of parents unless set afterwards, and the strategy parameters only on dimension and number of parents, in any order and repetition of the builder calls.',
 ['inputs','histories'],'all objective functions, dimensions, start values, step sizes, bounds, settings and numbers of generations; all histories of builder calls',
 'The optimizer test checks the optimum of a handful of functions at the end of the search, where nearly every evolution strategy arrives; no state on the way and no setting is looked at.',
 [C+'optimize.h',C+'optimizer.cxx',C+'optimizer.h'],
 [('sampling, recombination, adaption, termination','optimize.h optimize()'),('strategy parameters and builder','optimizer.cxx')],['Optimizer::Result state when stopped at successive generations','evaluated points','Optimizer::Builder getters'])
p('C30','Data sections are stored, written and restored without loss',
 'The data section class keeps exactly the data it is given: reading a list of sections from a stream yields one section for each block of data rows (blocks separated by an empty line, comment lines ignored) in order, a section read takes all rows up to the next empty line (only those inside the interval of wavelengths, bounds included, when there is one) and leaves the rest of the stream unread, and a section constructed from arrays holds these as valid data. Written and read again, every wavelength, flux and uncertainty (to nine significant digits) and validity is restored, whatever model was applied; writing with an interval writes exactly the rows inside. Masking an interval invalidates exactly the points inside (bounds included) and never validates any. Numbers of points and of valid points, bounds, centre and width are those of the data, reading damaged data (or none) sets the failure state of the stream and leaves the section as it was. Evaluating the cost of a model does not change the section and gives the same cost as applying the model, and neither depends on what the section held or was applied to before.',
 ['inputs','histories'],'all data blocks and lists of them, all intervals, all histories of reading, masking, evaluating, applying and writing',
 'No unit test covers the section class, and the programs read each section once into a new object and never read a list of sections.',
 [C+'section.h',C+'section.cxx'],
 [('get, put, mask, cost, apply','section.cxx, section.h'),('stream operators for lists of sections','section.cxx')],['Section and its stream operators'])
p('C31','Convolution by quadrature equals the convolution integral',
 'The convolutor returns the convolution of the absorption term exp(-f) of an optical depth function f with an instrumental profile g, the integral over all y of exp(-f(x-y)) g(y), to within the accuracy of the integration (one per mille for profiles with features not much narrower than a tenth of the unit and centred near zero), with every pair of quadrature formulas. Hence it is linear in the instrumental profile, equals the integral of the instrumental profile without absorption, lies between zero and that integral for non-negative f and g, and shifting the optical depth function shifts the result, also for profiles that are not symmetric.',
 ['inputs','configurations'],'all optical depth functions and instrumental profiles of the generated families, all abscissae and formula pairs',
 'No test and no program uses the convolutor.',
 [C+'profiles.h',C+'integrator.h'],
 [('Convolutor','profiles.h'),('integrate_infinite','integrator.h')],['Convolutor::convolute'])
p('C32','The cost of a model is a function of its parameter values alone',
 'The cost a model reports for a vector of free parameters depends on the model definition and on this vector only: not on earlier evaluations or their order, not on other threads evaluating the same model at the same time, not on parameters set or results written before, and not on the characters chosen to mark comments and sections in the definition. It is not negative, and equals half the sum of squared residuals of the unmasked points in the data block that the model writes when it is set to this vector; a model whose parameters are all fixed at these values has the same cost. There is one component for each free parameter, tied parameters have none; the start is the midpoint of the bounds with half their distance as step, and a vector is outside if and only if some component exceeds the closed interval of its bounds, in whatever order they are given.',
 ['inputs','histories','schedules','configurations'],'all model definitions with free, fixed and tied parameters, masks and windows, parameter vectors inside of the bounds, orders and threads, and marks',
 'Tests run complete fits of given models; they never evaluate one model twice in another order, nor with marks other than the default.',
 [C+'model.h',C+'section.cxx',C+'section.h',C+'profiles.h'],
 [('Model','model.h'),('Bounded_Constraint','model.h'),('Section::cost','section.cxx')],['Model::get','Model::set','Model::put','Model::operator()','Bounded_Constraint::is_violated'])
p('C33','Input primitives read all or nothing; equations are solved or refused',
 'Reading a number of rows of one to five numbers, or of four numbers and a text to the end of the line (of which the first word counts), succeeds if and only if the stream has that many complete rows: then the vectors hold these rows, after their former content if appending is requested and in place of it otherwise, and the stream continues after the last row read; otherwise the stream is in the failed state and no vector has changed. Reading lines yields the text up to each line end; with a comment mark, the text from the mark on is dropped, and lines with nothing left but white space are skipped. Numbers are converted to the nearest value, and text which does not begin with a number of the requested type, or one too large for it, is refused. The solver returns a value within the relative accuracy goal of the solution, of either sign, when the given number of steps is enough to reach it, and refuses otherwise. Norm, square and redshift agree with their formulas.',
 ['inputs','configurations'],'all tables, texts, numbers, equations on which Newton iterations converge, and vectors',
 'No test calls these procedures; the programs read single rows of four numbers and a text, two types of numbers, and solve one equation for positive solutions.',
 [C+'readline.h',C+'readline.cxx',C+'base.h'],
 [('read','readline.h'),('readline','readline.cxx'),('convert','base.h'),('solve','base.h'),('norm','base.h')],['read','readline','convert','solve','norm','redshift'])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+'\n')
print(len(P),'properties'); 
for x in P: assert len(x['title'])<=80,x['title']
