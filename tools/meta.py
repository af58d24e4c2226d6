"""One entry per property: the text of properties.jsonl, of MANIFEST.json and of DESIGN.md's table."""
PROPS = []


def P(id, title, statement, over, quant, why, files, mech, oracle, note, state=(), observe=()):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files,
                      mech=mech, oracle=oracle, note=note, state=state, observe=observe))


pp = 'pypower/'

P('P01', 'A converged AC power flow balances power at every bus',
  'Whenever an AC power flow reports success, the reported bus voltages and unit outputs satisfy the nodal complex power '
  'balance at every energised bus, with loads, shunts, taps, phase shifters, line charging and parallel circuits counted exactly as '
  'the case tables state them, to the accuracy implied by the convergence tolerance. This holds for Newton, both fast-decoupled '
  'variants and Gauss-Seidel, for any numbering and ordering of the tables.',
  ['inputs', 'configurations'], 'all cases, algorithms and tolerances for which the solve succeeds',
  'The tests compare stored solutions of a few unmodified cases; a sign or indexing error that only shows with shifters, parallel '
  'lines, several units per bus or non-consecutive numbers goes unseen.',
  ['runpf.py', 'newtonpf.py', 'fdpf.py', 'gausspf.py', 'makeYbus.py', 'makeSbus.py', 'pfsoln.py', 'bustypes.py'],
  [('power flow driver', 'pypower/runpf.py:runpf'), ('solution update', 'pypower/pfsoln.py:pfsoln')],
  'nodal balance recomputed bus by bus with scalar pi-model arithmetic from the returned tables only',
  'generated and built-in cases; 4 algorithms; balance in MVA within a bound derived from the tolerance')

P('P02', 'Power flow honours schedules and set-points, changes only results',
  'A power flow keeps the voltage set-point at every bus whose voltage is controlled by an in-service unit, the reference angle at '
  'the reference bus, the scheduled active output of every unit other than those at the reference bus, and the injection of units at load '
  'buses. Input columns of the result tables are those of the case given, row by row; out-of-service equipment is '
  'reported with zero flows and outputs.',
  ['inputs', 'configurations'], 'all cases and algorithms, converged or not',
  'Tests look at solved voltages of well-behaved cases only; none checks every input column, dead rows or set-points.',
  ['runpf.py', 'bustypes.py', 'pfsoln.py', 'int2ext.py'],
  [('bus typing', 'pypower/bustypes.py:bustypes'), ('result assembly', 'pypower/runpf.py:runpf')],
  'each returned table compared column by column with the case given; set-points and schedules re-derived from the input',
  'generated and built-in cases; 4 algorithms')

P('P03', 'Reported branch flows are those of the reported voltages',
  'The flows reported at the two ends of every in-service branch are exactly what the branch\'s impedance, charging, tap ratio and phase '
  'shift give for the reported bus voltages, and are zero for branches that are out of service, for every AC power flow result. '
  'Active losses of every branch with non-negative resistance are therefore non-negative.',
  ['inputs', 'configurations'], 'all branches of all AC results',
  'A few stored flows of unmodified cases are tested; off-nominal taps at both directions, shifters and dead rows are not.',
  ['pfsoln.py', 'makeYbus.py', 'runpf.py'],
  [('flow update', 'pypower/pfsoln.py:pfsoln')],
  'scalar pi-model flow of each branch row from the reported voltages', 'generated and built-in cases; converged and cut-short solves')

P('P04', 'Units sharing a bus split reactive output by range; slack balance absorbed once',
  'When several in-service units sit at one bus, a power flow divides the reactive output of the bus among them in proportion to their '
  'reactive ranges, every unit at the same relative position between its limits, and the unit outputs add up to the bus total. The '
  'active imbalance of the system is absorbed by one unit at the reference bus while the other units there keep their schedule.',
  ['inputs', 'configurations'], 'all assignments of units with finite reactive ranges to buses',
  'No test has several units at a bus with different or zero ranges.',
  ['pfsoln.py', 'runpf.py', 'rundcpf.py'],
  [('reactive sharing', 'pypower/pfsoln.py:pfsoln')],
  'sharing rule and bus totals recomputed per bus from the returned tables', 'finite reactive ranges; zero and one-sided ranges included')

P('P05', 'AC power flow algorithms agree, and the success flag is honest',
  'All AC power flow algorithms that converge from the same data return the same operating point, and it is the one an independent '
  'Newton solution finds. Success is reported exactly when the returned state meets the requested tolerance, also when iterations run out, '
  'when the tolerance is unusual or when no solution exists.',
  ['inputs', 'configurations'], 'all cases, tolerances and iteration limits',
  'Tests exercise one algorithm at default settings on solvable cases; no test looks at failures.',
  ['newtonpf.py', 'fdpf.py', 'gausspf.py', 'runpf.py', 'makeB.py', 'dSbus_dV.py'],
  [('convergence tests', 'pypower/newtonpf.py:newtonpf'), ('half iterations', 'pypower/fdpf.py:fdpf')],
  'pairwise comparison with a dense independent Newton; flag compared with recomputed mismatch', '4 algorithms; forced iteration caps, loose tolerances and overload')

P('P06', 'Reactive limit enforcement leaves no violation and freezes units at limits',
  'With reactive limits enforced, a successful power flow has no unit outside its reactive limits, every unit that was taken off voltage control sits exactly '
  'at its violated limit, and every other controlled bus keeps its set-point; the power balance still holds and the reference angle is unchanged. '
  'Loads, bus types and unit data other than results come back as they were given.',
  ['inputs', 'configurations'], 'all patterns of binding limits, both enforcement modes, including limits at the reference bus',
  'No existing test turns the option on.',
  ['runpf.py'], [('limit enforcement loop', 'pypower/runpf.py:runpf')],
  'limits, set-points and balance of the returned case checked unit by unit, plus a replay of the enforcement rule with an independent Newton solver',
  'both modes, 4 algorithms, slack moves included')

P('P07', 'DC power flow solves the linear network exactly',
  'A DC power flow returns the angles and flows that exactly solve the linear lossless network of in-service branches with taps and '
  'phase shifters, loads and shunt conductances; flows are antisymmetric, voltages are nominal and reactive results zero. The unit '
  'at the reference bus takes up the remaining balance.',
  ['inputs', 'configurations'], 'all connected networks',
  'Tests check stored results of a few cases.',
  ['rundcpf.py', 'runpf.py', 'dcpf.py', 'makeBdc.py', 'makeSbus.py'],
  [('DC solution', 'pypower/dcpf.py:dcpf'), ('DC branch', 'pypower/runpf.py:runpf')],
  'dense element-by-element DC solution', 'single-reference connected networks')

P('P08', 'Results do not depend on how the same system is written down',
  'Rewriting a case without changing the physical system (renumbering buses, permuting table rows, another system base with '
  'per-unit data converted, swapping the ends of an untransformed line) gives the same power flow, DC power flow, AC and DC optimal '
  'power flow results, row for row.',
  ['inputs', 'configurations'], 'all equivalent rewritings of a case',
  'Tests solve each case in one form only.',
  ['ext2int.py', 'int2ext.py', 'runpf.py', 'opf.py', 'makeYbus.py'],
  [('internal ordering', 'pypower/ext2int.py:ext2int'), ('external ordering', 'pypower/int2ext.py:int2ext')],
  'metamorphic comparison of two runs mapped row by row', 'power flow, DC, AC OPF and DC OPF with strictly convex costs')

P('P09', 'Out-of-service equipment and isolated buses never matter',
  'Units and branches out of service, isolated buses and everything attached to them have no influence on any power flow or optimal '
  'power flow: results equal those of the same case with the rows deleted, and the dead rows come back in place with zero outputs and flows.',
  ['inputs', 'configurations'], 'all placements of dead rows in the tables',
  'Tests contain almost no dead equipment.',
  ['ext2int.py', 'int2ext.py', 'runpf.py', 'runopf.py', 'opf.py'],
  [('dead row removal', 'pypower/ext2int.py:ext2int')],
  'metamorphic comparison with the pruned case', 'power flow, DC, AC and DC OPF')

P('P10', 'Runs are repeatable and a solution re-solves to itself',
  'Running the same study twice on the same data gives identical numbers regardless of anything run in between, and feeding '
  'a solved case back in reproduces the same operating point.',
  ['histories', 'inputs'], 'all sequences of runs in one process',
  'Each test runs in isolation, once.',
  ['runpf.py', 'rundcpf.py', 'runopf.py', 'opf.py', 'loadcase.py'],
  [('case copying', 'pypower/loadcase.py:loadcase')],
  'bit comparison of repeated runs; comparison of re-solved results', 'power flow, DC, OPF')

P('P11', 'No study or utility modifies the case data it is given',
  'No solver run, conversion, cost or matrix utility or printing routine that returns its result changes the caller\'s case, tables or options in any way, '
  'nor returns tables that share memory with those of the caller, so that two studies on the same data cannot interfere.',
  ['inputs', 'histories'], 'all public entry points on all cases',
  'Tests load a fresh case for every call.',
  ['runpf.py', 'opf.py', 'loadcase.py', 'ext2int.py', 'uopf.py', 'runcpf.py', 'printpf.py', 'scale_load.py'],
  [('copies on entry', 'pypower/loadcase.py:loadcase')],
  'deep snapshots of all arguments before and after each call, and memory-overlap checks', 'entry points that document in-place updates are excluded')

P('P12', 'Internal and external case forms convert back and forth without loss',
  'Converting a case to internal form keeps exactly the live buses, units and branches, consecutively numbered, with costs, area data and user '
  'constraint columns following their equipment; converting back restores every table, row and number. Results computed '
  'internally land in the rows of the equipment they belong to, and dead rows keep their data.',
  ['inputs', 'histories'], 'all cases and conversion sequences',
  'The round trip is never tested with dead equipment, arbitrary numbers or user data.',
  ['ext2int.py', 'int2ext.py'],
  [('to internal', 'pypower/ext2int.py:ext2int'), ('to external', 'pypower/int2ext.py:int2ext')],
  'internal tables re-derived from the external ones by an independent rule; full round trip comparison',
  'one-block costs and reactive costs; AC/DC user matrices, dense and sparse')

P('P13', 'User data and fields convert between orderings consistently',
  'Data attached to buses, units or branches (vectors, dense and sparse matrices along either dimension, concatenated blocks, extra '
  'rows, plain or nested fields) is converted between external and internal order so that every entry stays with its equipment, '
  'and converting back only changes the entries of live equipment.',
  ['inputs'], 'all shapes, block orderings and fields', 'No test converts block-structured, sparse or nested data.',
  ['e2i_data.py', 'i2e_data.py', 'e2i_field.py', 'i2e_field.py', 'get_reorder.py', 'set_reorder.py'],
  [('data conversion', 'pypower/e2i_data.py:e2i_data'), ('back conversion', 'pypower/i2e_data.py:i2e_data')],
  'element-by-element expected arrays built from the case tables', 'all forms listed in the statement')

P('P14', 'Loading a case yields the same data in every format, errors are reported',
  'A case given as a dictionary, as a function file returning a dictionary or a tuple, as a MAT-file, or by name without extension '
  'loads to the same tables; version 1 data is converted without loss; missing or malformed input yields the documented error code and '
  'never a silently wrong case. Every study gives the same result for a case given by name or as version 1 data as for its tables, and keeps '
  'the other fields of the case. The bundled cases are well formed, solvable and given out as fresh copies.',
  ['inputs', 'configurations'], 'all formats, names and malformed inputs',
  'Tests load a handful of well-formed bundled cases.',
  ['loadcase.py', 'opf_args.py'] + ['case%s.py' % x for x in ('9', '14', '30', '300')],
  [('loading', 'pypower/loadcase.py:loadcase'), ('OPF arguments', 'pypower/opf_args.py:opf_args2')],
  'loaded tables compared with the data written to the file; documented codes', 'python and MAT files, version 1 and 2')

P('P15', 'Saving a case and loading it back loses nothing',
  'A case saved to a function file or a MAT-file and loaded again has the same tables, costs, areas, solved results and user '
  'constraint data to the written precision (exactly, for MAT-files), and solves to the same answer; saving leaves the case unchanged.',
  ['inputs', 'configurations'], 'all cases, solved or not, both formats',
  'Tests save two unmodified cases.',
  ['savecase.py', 'loadcase.py'],
  [('saving', 'pypower/savecase.py:savecase')],
  'round-trip comparison and re-solving', 'infinite limits, mixed cost models, user data included')

P('P16', 'Network matrices equal the element-by-element model',
  'The bus and branch admittance matrices, the DC matrices and phase-shift injections, the bus injections and the fast-decoupled '
  'matrices equal, entry by entry, what the branch, shunt, load and unit data give in the documented model.',
  ['inputs'], 'all networks', 'Stored matrices of a single small case are compared.',
  ['makeYbus.py', 'makeBdc.py', 'makeSbus.py', 'makeB.py', 'makeAang.py', 'makeApq.py', 'makeAvl.py'],
  [('admittances', 'pypower/makeYbus.py:makeYbus'), ('DC matrices', 'pypower/makeBdc.py:makeBdc'), ('decoupled matrices', 'pypower/makeB.py:makeB')],
  'dense matrices accumulated branch by branch', 'consecutively numbered cases')

P('P17', 'First derivatives of network functions are exact',
  'The derivatives of bus injections, branch flows and branch currents with respect to bus voltage angle and magnitude equal the true derivatives at every '
  'voltage profile, for sparse and dense matrices alike, and so do those of the squared flows.',
  ['inputs'], 'all networks and voltage profiles', 'One voltage profile of one case is compared.',
  ['dSbus_dV.py', 'dSbr_dV.py', 'dIbr_dV.py', 'dAbr_dV.py'],
  [('injection derivatives', 'pypower/dSbus_dV.py:dSbus_dV')],
  'central differences of independent scalar formulas', 'random profiles')

P('P18', 'Second derivatives of network functions are exact',
  'The second derivatives of multiplier-weighted bus injections, branch flows, currents and squared magnitudes equal the true second derivatives at '
  'every voltage profile and for every multiplier.',
  ['inputs'], 'all networks, voltage profiles and multipliers', 'One profile of one case is compared.',
  ['d2Sbus_dV2.py', 'd2Sbr_dV2.py', 'd2Ibr_dV2.py', 'd2AIbr_dV2.py', 'd2ASbr_dV2.py'],
  [('second derivatives', 'pypower/d2Sbus_dV2.py:d2Sbus_dV2')],
  'central differences of independent first derivatives', 'random profiles and multipliers')

P('P19', 'The AC OPF hands its solver consistent functions and derivatives',
  'At every point the optimal power flow objective is the total cost of the dispatch plus user costs, its constraints are the nodal '
  'mismatches and the squared flow-limit excesses of the chosen limit type, and the gradients and Lagrangian Hessian it supplies '
  'are their exact derivatives.',
  ['inputs', 'configurations'], 'all points, cost models, limit types and user costs',
  'The callbacks are never examined; a wrong Hessian still converges, slower or to the wrong point only in unlucky cases.',
  ['opf_costfcn.py', 'opf_consfcn.py', 'opf_hessfcn.py', 'pipsopf_solver.py'],
  [('objective', 'pypower/opf_costfcn.py:opf_costfcn'), ('constraints', 'pypower/opf_consfcn.py:opf_consfcn'), ('Hessian', 'pypower/opf_hessfcn.py:opf_hessfcn')],
  'callbacks captured at the solver boundary of a real run, evaluated and differentiated numerically', 'polynomial, piecewise-linear, reactive and user costs',
  observe=['the call from the AC OPF to the interior-point solver'])

P('P20', 'Shift factors predict DC flows',
  'For every slack specification (default, a single bus, a distributed slack, one distribution per bus), shift factors times bus injections '
  'equal the flows of the DC network for any balanced injections, and are independent of slack choice for balanced injections.',
  ['inputs', 'configurations'], 'all networks, slack choices and injections', 'One case with default slack is tested.',
  ['makePTDF.py', 'makeBdc.py'], [('shift factors', 'pypower/makePTDF.py:makePTDF')],
  'dense DC solutions for random injections', 'connected networks')

P('P21', 'Outage factors predict post-outage flows',
  'For every branch whose loss leaves the network connected, outage factors give the flows of the DC network without that branch; a '
  'branch keeps a factor of minus one on itself.',
  ['inputs'], 'all networks and single outages', 'One stored matrix is compared.',
  ['makeLODF.py', 'makePTDF.py'], [('outage factors', 'pypower/makeLODF.py:makeLODF')],
  'DC solution of the network without the branch', 'connected networks, single outages')

P('P22', 'An AC OPF solution is feasible and its numbers agree with each other',
  'Whenever an AC optimal power flow reports success, the reported dispatch and voltages satisfy the nodal balance, the limits on '
  'voltages, unit outputs, branch flows (MVA, MW or current, as chosen) and angle differences, the capability curves and the constant '
  'power factor of dispatchable loads, and the reference angle; the objective is the cost of the dispatch; branch flows and named solution '
  'blocks agree with the tables; input columns are unchanged. Stopping early or having no solution is never reported as success, and the '
  'built-in cases are solved.',
  ['inputs', 'configurations'], 'all cases, both interior-point variants, limit types and options, solvable or not',
  'Tests compare stored solutions of two cases; a limit ignored for particular data (one-sided, parallel, end, limit type) passes them.',
  ['opf.py', 'opf_execute.py', 'opf_setup.py', 'pipsopf_solver.py', 'pips.py', 'makeAang.py', 'makeApq.py', 'makeAvl.py', 'makeAy.py', 'runopf.py'],
  [('AC OPF', 'pypower/opf.py:opf'), ('constraint set-up', 'pypower/opf_setup.py:opf_setup'), ('results', 'pypower/pipsopf_solver.py:pipsopf_solver')],
  'balance, limits and cost recomputed in independent polar arithmetic from the case given and the tables returned',
  'built-in and random networks; iteration caps and infeasible data included')

P('P23', 'AC OPF prices prove the solution is a first-order optimum',
  'Whenever an AC optimal power flow reports success, the reported nodal prices and limit multipliers satisfy the first-order optimality '
  'conditions of the stated problem: multipliers of inequalities are not negative and vanish where the limit is slack, every unit\'s '
  'marginal cost equals its nodal price net of its limit prices, and the Lagrangian is stationary in all voltages. Both interior-point '
  'variants give the same cost; named price blocks agree with the tables.',
  ['inputs', 'configurations'], 'all solved cases, cost models and limit types',
  'The tests compare prices of one or two cases; sign, unit or ordering errors in particular multipliers go unseen.',
  ['pipsopf_solver.py', 'opf.py', 'opf_consfcn.py', 'opf_hessfcn.py', 'pips.py', 'makeApq.py', 'update_mupq.py'],
  [('multipliers', 'pypower/pipsopf_solver.py:pipsopf_solver'), ('interior point', 'pypower/pips.py:pips')],
  'KKT conditions evaluated from the tables only, Lagrangian gradient by complex step over independent flow equations',
  'first-order conditions (the problem is not convex)')

P('P24', 'A DC OPF solution is feasible and optimal; infeasible data is reported',
  'Whenever a DC optimal power flow reports success the dispatch balances the DC network, respects unit, flow and angle limits, carries '
  'no reactive values, costs what is reported, and is a global optimum, with prices that prove it. Problems without a feasible '
  'dispatch are never reported as solved. The built-in cases are solved.',
  ['inputs', 'configurations'], 'all cases with convex costs, all DC algorithms',
  'One stored DC solution is compared; infeasible data, shifters, piecewise-linear costs and binding angle limits are not.',
  ['dcopf_solver.py', 'qps_pips.py', 'qps_pypower.py', 'pips.py', 'opf_setup.py', 'makeBdc.py', 'makeAy.py', 'makeAang.py', 'rundcopf.py'],
  [('DC OPF', 'pypower/dcopf_solver.py:dcopf_solver')],
  'feasibility and KKT conditions recomputed from the tables, and an independent linear program (HiGHS) for feasibility and linear costs',
  'a perturbed case that the solver reports as unsolved is not an alarm')

P('P25', 'The QP solvers are right and honest, whatever the calling form',
  'qps_pypower and qps_pips solve convex quadratic and linear programs: a reported solution satisfies all constraints and bounds, has '
  'non-negative multipliers of the right sign and size that vanish on slack or absent limits and make the Lagrangian stationary (so '
  'it is a global optimum), and its objective value is that of the solution. Infeasible and unbounded problems, and runs that hit the '
  'iteration limit, are reported as not converged rather than raising; well-posed problems with a bounded optimum are solved. Absent '
  'arguments, dict and positional calling forms mean the same, and inputs are not changed.',
  ['inputs', 'configurations'], 'all convex problems with any mix of equalities, one-sided, absent, fixed and very large limits; both PIPS algorithms',
  'The tests solve a handful of textbook problems.', ['qps_pypower.py', 'qps_pips.py', 'pips.py', 'pipsopf_solver.py'],
  [('QP interface', 'pypower/qps_pypower.py:qps_pypower'), ('QP by PIPS', 'pypower/qps_pips.py:qps_pips')],
  'KKT conditions of the problem as given, problems built with known endings, HiGHS on linear programs', 'up to 25 variables; scaled, redundant or '
  'rank-deficient problems may be reported unsolved, never wrongly solved')

P('P26', 'The interior-point solver gives true KKT points of nonlinear programs',
  'For smooth problems with nonlinear equalities and inequalities, linear rows and bounds, pips reports convergence only at a point that '
  'is feasible and satisfies the first-order conditions with the multipliers it returns (right sign, zero on slack or absent limits), '
  'within its tolerances; for convex problems no feasible point is better. It reports the objective there, respects the iteration limit, '
  'keeps one history record per iteration, and never reports success on infeasible problems. Step control and cost scaling do not change this.',
  ['inputs', 'configurations'], 'all smooth problems, starting points and options', 'Four fixed problems are tested.',
  ['pips.py'], [('interior point', 'pypower/pips.py:pips')], 'KKT conditions evaluated from independent derivatives of the generated problem, sampled feasible points',
  'up to 15 variables')

P('P27', 'Generator costs evaluate to their polynomial or piecewise-linear formula',
  'totcost, polycost and pqcost read every cost row as documented: a polynomial of the stated number of coefficients, highest order first, '
  'or a piecewise-linear curve through the stated number of points whose end segments continue beyond the ends; whatever stands '
  'after a row\'s data is ignored. Derivatives of any order are those of the polynomial. Real and reactive rows are split in halves, and the inputs '
  'are not changed.',
  ['inputs'], 'all cost tables and outputs', 'Tests evaluate small fixed tables, without mixed lengths or points outside the curve.',
  ['totcost.py', 'polycost.py', 'pqcost.py'], [('cost', 'pypower/totcost.py:totcost'), ('polynomials', 'pypower/polycost.py:polycost')],
  'row-by-row evaluation of the documented formulas', 'vectors of outputs')

P('P28', 'Cost transformations mean what they say',
  'modcost turns a cost F(x) into a*F(x), F(x/a), F(x)+a or F(x-a), as selected, for polynomial and piecewise-linear rows alike; poly2pwl gives '
  'a curve with the requested number of points between the output limits that lies on the polynomial at every break point. Other rows, '
  'the start-up and shut-down columns and the input tables stay as they were.',
  ['inputs'], 'all cost tables, parameters and outputs', 'Fixed tables only.',
  ['modcost.py', 'poly2pwl.py', 'totcost.py'], [('transformation', 'pypower/modcost.py:modcost'), ('conversion', 'pypower/poly2pwl.py:poly2pwl')],
  'costs before and after compared at transformed arguments', 'a > 0 for scaling')

P('P29', 'User-supplied OPF variables, constraints and costs are obeyed',
  'Linear constraints, extra variables with bounds and generalized costs (N, H, Cw, fparm), given as case fields, as arguments with a case '
  'or with separate matrices, in external order, or through formulation callbacks as several named blocks, enter AC and DC optimal power '
  'flow as documented: a reported solution satisfies every row and bound, its objective is the generation cost plus the documented user '
  'cost, each named cost, variable and multiplier block is reported under its name, and together with the reported multipliers it is '
  'a first-order optimum of the extended problem. Columns of dead equipment count for nothing.',
  ['inputs', 'configurations'], 'all cases, rows, costs and calling forms', 'No test passes user constraints to AC and DC OPF in external order with dead equipment, or a dead zone.',
  ['opf_args.py', 'opf_setup.py', 'opf_model.py', 'opf_execute.py', 'opf_costfcn.py', 'opf_hessfcn.py', 'dcopf_solver.py', 'pipsopf_solver.py', 'ext2int.py',
   'e2i_data.py', 'add_userfcn.py', 'run_userfcn.py'],
  [('arguments', 'pypower/opf_args.py:opf_args2'), ('model', 'pypower/opf_model.py:opf_model'), ('user costs', 'pypower/opf_costfcn.py:opf_costfcn')],
  'rows, user cost and KKT conditions of the extended problem recomputed from the result tables in external order',
  'DC: linear cost terms without dead zone; problems reported as unsolved are not alarms')

P('P30', 'Fixed zonal reserves are co-optimized as documented',
  'With reserves switched on (toggle_reserves or runopf_w_res), AC and DC optimal power flow meet every zone requirement from units in that zone, '
  'within the ramp and quantity limits and so that output plus reserve stays within capacity, at least total generation plus reserve cost. '
  'Reported reserves, limits, multipliers, unit prices and total cost are mutually consistent and in the order of the case; idle or '
  'non-participating units report zero; requirements that cannot be met are never reported as met. Printed totals and saved data agree with the '
  'results, and the case of the caller keeps its data.',
  ['inputs', 'configurations'], 'all cases, zones, requirements and data forms', 'One fixed 30-bus case with all units in service is tested.',
  ['toggle_reserves.py', 'runopf_w_res.py', 'opf_model.py', 'e2i_field.py', 'i2e_field.py', 'i2e_data.py', 'add_userfcn.py', 'remove_userfcn.py', 'savecase.py', 'printpf.py'],
  [('reserves', 'pypower/toggle_reserves.py:toggle_reserves'), ('entry point', 'pypower/runopf_w_res.py:runopf_w_res')],
  'constraints, prices, complementarity and KKT conditions of the extended problem recomputed from the results in external order',
  'the unit price is checked as the sum of its zone prices, which is what optimality requires; problems reported as unsolved are not alarms')

P('P31', 'Interface flow limits hold and are priced correctly',
  'With interface limits switched on (toggle_iflims), AC and DC optimal power flow keep the DC-model flow of every interface, summed over its '
  'in-service branches in the stated directions, within the stated limits, whatever the order and numbering of interfaces; the result is '
  'a first-order optimum with the reported shadow prices, which are non-negative and vanish on slack limits. The reported interface flow is the '
  'sum of the branch flows. Impossible limits are never reported as met. Printed and saved data agree with the results; the map and '
  'limits come back as given and the case of the caller keeps its data.',
  ['inputs', 'configurations'], 'all cases, interfaces and limits', 'One fixed 30-bus case with all branches in service is tested.',
  ['toggle_iflims.py', 'makeBdc.py', 'opf_model.py', 'add_userfcn.py', 'remove_userfcn.py', 'savecase.py', 'printpf.py'],
  [('interfaces', 'pypower/toggle_iflims.py:toggle_iflims')],
  'interface flows, limits, prices and KKT conditions of the extended problem recomputed branch by branch from the results',
  'prices are taken per unit of flow, as the existing tests do, not per MW; problems reported as unsolved are not alarms')

P('P32', 'DC transmission lines are modelled exactly in power flow and OPF',
  'With DC lines switched on (toggle_dcline), AC and DC power flow and OPF treat every in-service line as power withdrawn at its from bus and, less '
  'its constant and linear losses, delivered at its to bus: a power flow keeps the scheduled flow, holds the terminal voltages at their set-points and '
  'balances every bus; an OPF keeps flows and reactive injections within the limits of the line (whatever the sign of the limits), minimises unit cost plus '
  'line cost, and reports consistent prices. Lines out of service have no influence; all input columns, cost tables and the units of the case come back as '
  'given, as many rows as went in; printed tables and saved files agree with the results, a solved case solves again to the same state, '
  'and the case of the caller is unchanged.',
  ['inputs', 'configurations'], 'all cases, line data and costs', 'Only one small case with five DC lines and one cost table is tested.',
  ['toggle_dcline.py', 'idx_dcline.py', 'loadcase.py', 'ext2int.py', 'int2ext.py', 'runpf.py', 'pfsoln.py', 'opf.py', 'savecase.py', 'printpf.py'],
  [('DC lines', 'pypower/toggle_dcline.py:toggle_dcline')],
  'an explicit equivalent case with a pair of units per line, on which balances, limits, losses, cost and KKT conditions are recomputed independently',
  'lines between isolated buses and terminals with differing voltage set-points are not generated; terminal buses are reported as PV')

P('P34', 'Continuation power flow follows the solution curve',
  'Every point a continuation power flow reports (runcpf) solves the power flow equations at its loading, base + lambda x (target - base), with the set-points of '
  'the base case; the first point is the base solution, predictions lie on the tangent and steps have the length the options ask for. A requested '
  'loading that the solution branch reaches is reached exactly, whatever the step; to the nose, the largest loading reported is that of the '
  'branch; a full curve returns to zero loading. Result tables hold the last point, balance, and follow the order and numbering of the case; user '
  'callbacks see every point once; plots asked for show the points of the bus asked for; the cases of the caller are unchanged; failure, of the base case too, is reported as failure.',
  ['inputs', 'configurations'], 'all base and target cases and options', 'Two small cases are traced in one or two ways.',
  ['runcpf.py', 'cpf_predictor.py', 'cpf_corrector.py', 'cpf_p.py', 'cpf_p_jac.py', 'cpf_callbacks.py', 'newtonpf.py', 'pfsoln.py', 'i2e_data.py'],
  [('entry point', 'pypower/runcpf.py:runcpf'), ('corrector', 'pypower/cpf_corrector.py:cpf_corrector'), ('predictor', 'pypower/cpf_predictor.py:cpf_predictor')],
  'a dense model of the same equations evaluates every point, tangent and step, and traces the branch independently to bound the nose from below',
  'generator status and topology are the same in base and target; natural parameterization near the nose may report failure')

P('P35', 'Load scaling hits its target and nothing else',
  'scale_load multiplies the fixed and/or dispatchable loads of every zone by the zone factor, or brings the total of the zone to the requested '
  'quantity by scaling only the kinds of load selected; reactive power follows when asked and keeps its power factor; loads out of service, '
  'generators, buses in no zone and every other column stay exactly as they are, a quantity that cannot be reached is refused, and the tables of '
  'the caller are unchanged. total_load reports, per zone and kind, the sums over exactly those loads.',
  ['inputs', 'configurations'], 'all cases, zones, factors, quantities and option combinations', 'One 30-bus case with fixed zones is tested.',
  ['scale_load.py', 'total_load.py', 'isload.py'],
  [('scaling', 'pypower/scale_load.py:scale_load'), ('totals', 'pypower/total_load.py:total_load'), ('which rows are loads', 'pypower/isload.py:isload')],
  'an explicit loop over buses and units predicts every scaled column and zone total',
  'dispatchable loads with constant power factor only')

P('P36', 'Unit commitment never loses to its own alternatives',
  'Unit-decommitment OPF (uopf, runuopf, runduopf) only takes units out of service, and only ones with a positive minimum output; minimum outputs left in service '
  'fit under all load there is; the reported dispatch is a feasible optimum of the units left in service, costs no more than with all units on, and shutting down any '
  'further unit held at its minimum would not lower the cost. Loads and units out of service stay as they are, other input columns come back as given, ties are broken '
  'over all candidates, printed and saved results agree, and the case of the caller is unchanged.',
  ['inputs', 'configurations'], 'all cases with minimum outputs', 'No numeric result of unit commitment is tested.',
  ['uopf.py', 'runuopf.py', 'runduopf.py', 'fairmax.py', 'opf_args.py'],
  [('commitment loop', 'pypower/uopf.py:uopf'), ('tie breaking', 'pypower/fairmax.py:fairmax')],
  'the OPF optimality and feasibility monitors run on the units left, plus a fresh OPF of every alternative the algorithm promises to have beaten',
  'the search is greedy: global optimality over all commitments is not promised')

P('P37', 'Printed reports show the results',
  'The report of a power flow or OPF (printpf, and the runners) prints every bus, unit, dispatchable load and branch of the case once, in order and with the numbers of the '
  'caller, with the values of the solution to the printed digits; totals, extremes, area sums, tie-line flows, largest losses and counts equal what '
  'the tables give; constraint tables list exactly the binding limits, with their prices, of the kind the options ask for. Options select '
  'exactly the sections documented, all-off prints nothing, failed runs never print as solved, and printing leaves the results unchanged.',
  ['inputs', 'configurations'], 'all results, areas and printing options', 'No test looks at a printed number.',
  ['printpf.py', 'runpf.py', 'runopf.py', 'rundcpf.py', 'rundcopf.py', 'isload.py', 'ppoption.py'],
  [('report', 'pypower/printpf.py:printpf')],
  'a parser reads every line of the report back and compares it with values computed from the result tables row by row',
  'values are compared to the printed digits; wording outside tables and totals is not checked')

P('P38', 'Options do what they say and nothing else',
  'ppoption returns the documented defaults, overridden exactly where asked, without sharing state between vectors; solving never changes the options of '
  'the caller. Raising an iteration limit beyond the number of iterations needed, or changing limits of another method, changes nothing, while a lower limit gives a reported failure; '
  'tolerances are met and looser ones never take longer; verbosity and printing never change results and silence is silent; every documented algorithm code is known, codes that '
  'exclude each other agree on the optimum, unknown ones are never reported as solved. The raw derivatives returned on request are those of the problem.',
  ['inputs', 'configurations'], 'all options on all cases', 'Tests fix one handful of option vectors.',
  ['ppoption.py', 'runpf.py', 'opf_execute.py', 'pipsopf_solver.py', 'dcopf_solver.py', 'newtonpf.py', 'fdpf.py', 'gausspf.py', 'uopf.py', 'rundcpf.py', 'rundcopf.py', 'dcopf.py', 'qps_pips.py'],
  [('options', 'pypower/ppoption.py:ppoption'), ('options of the OPF', 'pypower/opf_execute.py:opf_execute')],
  'differential runs of the same case under varied options, iteration counts by bisection, numeric derivatives of the problem at the reported point',
  'solvers that need packages which are not installed (IPOPT, CPLEX, MOSEK, GUROBI) only have their codes checked')

P('P39', 'The OPF model keeps its blocks straight',
  'An OPF model (opf_model) built by any history of adding variables, linear and nonlinear constraints, costs and user data, in any order and over all or some of the '
  'variable sets, reports at any time index ranges that tile without gap or overlap in order of addition, bounds, starting points and limits as given or defaulted, '
  'and assembles the linear constraints and costs so that every block acts on the variables it names, including variables added later; '
  'values of the caller are never changed, wrong sizes and unknown names are refused.',
  ['histories'], 'all construction histories', 'One fixed history is exercised through the OPF.',
  ['opf_model.py'],
  [('model', 'pypower/opf_model.py:opf_model')],
  'a dictionary-based model of the same history gives every range, bound and the action of every block on random vectors',
  'adding a name twice is under P42')

P('P40', 'User functions are called exactly when promised',
  'User functions added with add_userfcn are called once each, in order of addition, with the arguments given with them, at their stage (ext2int, formulation, int2ext, printpf, savecase) '
  'and at no other; adding one twice and removing one never added are handled as documented, removing takes away the last one added; results of one '
  'are handed to the next. Through every entry point functions are called only where there is such a stage, on the network of in-service elements in internal '
  'order inside and on the case in the order of the caller outside, and functions that do nothing do not change results.',
  ['histories', 'inputs'], 'all histories of callbacks, on all entry points', 'Callbacks are only tested through the reserve market.',
  ['add_userfcn.py', 'remove_userfcn.py', 'run_userfcn.py', 'ext2int.py', 'int2ext.py', 'opf.py', 'opf_setup.py', 'printpf.py', 'savecase.py'],
  [('registration', 'pypower/add_userfcn.py:add_userfcn'), ('calls', 'pypower/run_userfcn.py:run_userfcn')],
  'recording callbacks whose log is checked against a list-based model of the registrations',
  'functions are called with a copy of their arguments, as cases are copied')

P('P41', 'The command line does what the functions do',
  'The pf and opf commands solve the named built-in case or case file with the options given, in any order and spelling, exactly as the corresponding function call would: '
  'the same report on the screen or in the output file, the same solved case saved, exit status 0 exactly when the solution was found. Invalid options, values, cases and '
  'arguments end with a non-zero status and are never run with something else; help names the options there are.',
  ['inputs', 'configurations'], 'all command lines', 'Command lines are not tested.',
  ['main.py', 'ppoption.py', 'loadcase.py', 'savecase.py', 'runpf.py', 'runopf.py', 'runuopf.py', 'runopf_w_res.py'],
  [('entry points', 'pypower/main.py:pf'), ('options', 'pypower/main.py:parse_options')],
  'every command line is run in process and some as programs, next to the API call it stands for, and all outputs are compared',
  'run times in reports are masked; unit commitment, whose ties are broken at random, is compared in process under a fixed seed')

P('P43', 'Linear limits of the OPF leave exactly the region the data describe',
  'The constraints made for capability curves, constant power factor loads, branch angle differences and piecewise linear costs admit exactly the points the data of units, '
  'branches and costs describe - for each unit, branch and cost row, on the variable and with the sign, unit and normalisation documented - name the rows they stand for, '
  'are left out only where they do not restrict anything, and do not depend on whether tables hold whole or fractional numbers.',
  ['inputs'], 'all tables', 'Tests only reach them through one OPF with curves and loads at fixed values.',
  ['makeApq.py', 'makeAvl.py', 'makeAang.py', 'makeAy.py', 'hasPQcap.py', 'isload.py'],
  [('capability curves', 'pypower/makeApq.py:makeApq'), ('power factors', 'pypower/makeAvl.py:makeAvl'), ('angle limits', 'pypower/makeAang.py:makeAang'), ('cost basins', 'pypower/makeAy.py:makeAy')],
  'distances from curves, power factor lines, angle limits and cost segments, computed from the data at sampled points, against the rows and limits returned',
  'curves that widen with output are errors, under P42')

P('P44', 'Studies running at the same time do not disturb each other',
  'Studies and utilities run in several threads of a process at once - on different cases, on similar ones or on the very same case and options - return exactly the results each returns '
  'alone, whatever the interleaving, and leave the data they share unchanged.',
  ['schedules', 'inputs'], 'all interleavings of studies', 'Tests run one call at a time.',
  ['runpf.py', 'runopf.py', 'opf.py', 'runcpf.py', 'newtonpf.py', 'fdpf.py', 'gausspf.py', 'pips.py', 'opf_consfcn.py', 'opf_hessfcn.py', 'pfsoln.py', 'ppoption.py', 'savecase.py', 'loadcase.py'],
  [('power flow', 'pypower/runpf.py:runpf'), ('OPF', 'pypower/opf.py:opf'), ('interior point', 'pypower/pips.py:pips')],
  'every study is run alone first and then next to others under forced thread switches and random pauses between lines; all numbers and texts returned or written are compared',
  'Python threads under the interpreter lock; studies that draw random numbers (unit commitment) are left out')

P('P42', 'Data that breaks a requirement is called out, good data is not',
  'When data breaks a consistency requirement that a function checks - internal bus order for the network matrices, case state for conversions, valid bus types, stages, dimensions, '
  'cost models and degrees, algorithm codes, capability curves, power factors of dispatchable loads, the fields and sizes of reserves, interfaces, DC lines, user costs, constraints and '
  'model blocks, names used twice, load scaling options and impossible targets, missing cases and files that cannot be written - the call raises an exception or says so on standard error; '
  'the same call with data that meets the requirement does neither, and valid studies leave standard error empty.',
  ['inputs'], 'all checked requirements, each over random cases and positions of the fault', 'Tests give the utilities good data only.',
  ['ext2int.py', 'int2ext.py', 'e2i_data.py', 'i2e_data.py', 'get_reorder.py', 'set_reorder.py', 'makeYbus.py', 'makeBdc.py', 'makePTDF.py', 'makeAvl.py', 'hasPQcap.py', 'polycost.py',
   'pqcost.py', 'modcost.py', 'add_userfcn.py', 'toggle_reserves.py', 'toggle_iflims.py', 'toggle_dcline.py', 'scale_load.py', 'total_load.py', 'opf_args.py', 'opf_setup.py',
   'opf_model.py', 'opf_execute.py', 'qps_pypower.py', 'dcopf_solver.py', 'runpf.py', 'runopf.py', 'savecase.py', 'loadcase.py'],
  [('model blocks', 'pypower/opf_model.py:opf_model'), ('user data', 'pypower/opf_args.py:opf_args'), ('capability curves', 'pypower/hasPQcap.py:hasPQcap')],
  'a catalogue of about 100 pairs of a faulty and a good call, planted at random places of random cases; exceptions, warnings and everything written to standard error are observed',
  'what the message says is not judged')
