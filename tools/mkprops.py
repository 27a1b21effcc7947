"""Writes properties.jsonl (kept as a script so the texts stay reviewable)."""
import json
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=hook)))

T = 'The repository tests run two pipe-with-pump cases and the settings functions; '
p('C01', 'Mass flow network: continuity at every part, link, split and pump',
  'In every step of every simulation the mass flows of a hydraulic network satisfy continuity: what leaves a port enters the port connected to it, inflow equals outflow for every part, a mixing/splitting valve divides the flow in the proportion of its port openings, and the pump carries exactly its commanded flow. The solution follows every change of pump flow or valve opening within the same step and holds for reversed and zero flow.',
  ['configurations', 'histories'], 'all networks built from pipes, storages, pumps, three-way connectors and valves, every sequence of pump flows and valve openings',
  T + 'no branched network is ever simulated.',
  ['multisim/simenv.py', 'multisim/parts/connector_3w.py', 'multisim/parts/mixingvalve.py', 'multisim/parts/pipe_with_valve.py', 'multisim/parts/pump.py', 'multisim/parts/tes.py', 'multisim/precomp_funs.py'],
  [('topology construction', 'multisim/simenv.py:_get_topology / part _get_flow_routine'), ('flow update each step', 'multisim/simenv.py:_update_FlowNet')],
  [('part mass flows', 'flow per port/cell', 'part.dm, part.res_dm')], ['stored mass flow of every part after every step'])
p('C02', 'Adaptive step control: accept, reject, grow and shrink as configured',
  'A tried time step is accepted exactly if its tolerance-weighted error is below one (or the minimum step size is reached); otherwise it is repeated with a smaller step, never shrinking faster than the minimum factor, and after acceptance the step grows by at most the maximum factor, damped during recovery from an instability. Step sizes stay within the configured minimum and maximum (only instability may force smaller steps), steps exceeding the stability limit are never accepted, and the recorded time advances by exactly the accepted step until the timeframe is reached.',
  ['inputs', 'configurations', 'histories'], 'every sequence of local errors and instabilities and every setting of tolerances, factors and step size limits; also constant step mode',
  T + 'no test observes tries, rejections or step sizes.',
  ['multisim/simenv.py', 'multisim/precomp_funs.py'],
  [('adaptive step loop', 'multisim/simenv.py:_heun_adaptive'), ('stability check', 'multisim/precomp_funs.py:_vonNeumann_stability_*'), ('error norm', 'multisim/precomp_funs.py:_heun_corrector_adapt')],
  [('new step size', 'next attempted step', 'SimEnv'), ('steps since fail', 'recovery counter', 'SimEnv')], ['derivative evaluations of user-defined parts', 'time vector'])
p('C03', 'Rejected tries leave no trace; accepted rows are exact Heun steps',
  'Every accepted result row is the Heun (predictor-corrector) combination of derivatives evaluated, for all parts simultaneously, at the last accepted row and at the predicted state, with the accepted step size. A rejected try (error too large or unstable) changes nothing: the repetition starts from the same state and the same values at every connected port, and each stage sees the neighbouring parts at that same stage.',
  ['histories', 'configurations'], 'every interleaving of accepted, rejected and unstable tries over every coupling of parts',
  T + 'results are compared only against a single stored number.',
  ['multisim/simenv.py', 'multisim/precomp_funs.py'],
  [('port backup/restore', 'multisim/simenv.py:_heun_adaptive'), ('port updates', 'multisim/precomp_funs.py:_upddate_ports_interm/_upddate_ports_result')],
  [('port array', 'temperatures at all ports', 'SimEnv.ports_all')], ['state and derivative at every evaluation', 'result rows'])
p('C04', 'Saving to disk in chunks never changes results',
  'The results available after a run (time, temperatures, mass flows, heating and electric power of every part) are identical whether the run was held in memory or flushed to disk every n steps, for every n, including runs ending exactly on, just before or just after a chunk boundary and runs outgrowing the preallocated memory. No row is lost, duplicated, reordered or altered, and controllers, boundary series and plant states continue seamlessly over a chunk boundary.',
  ['configurations', 'histories'], 'every chunk length, run length and kind of part',
  'The disk saving tests only call the settings function; no simulation is run with disk saving.',
  ['multisim/simenv.py', 'multisim/parts/heated_pipe.py', 'multisim/parts/chp_plant.py'],
  [('chunk flush', 'multisim/simenv.py:_free_memory'), ('final merge', 'multisim/simenv.py:_finalize_sim'), ('part specific flush', '_special_free_memory of parts')],
  [('row buffer', 'rows since the last flush', 'part.res'), ('temporary store', 'flushed rows', 'HDF file')], ['result arrays after the run'])
p('C05', 'Stored result files hold exactly the selected results on the right time axis',
  'The result file written at the end of a run contains, for every part selected for storing and only for those, the selected cells of the temperature results and the flow results, row by row equal to the simulated values on the time axis start date plus elapsed simulation time. With resampling each stored value is the mean of the values in its interval (interpolated over empty intervals), the content does not depend on compression, and loading the file returns what was stored.',
  ['configurations', 'inputs'], 'every store selection (all, none, single cell, list, slice), start date, compression level, resampling frequency and chunk length',
  'The disk saving tests never write or read a result.',
  ['multisim/simenv.py', 'multisim/utility_functions.py'],
  [('final store', 'multisim/simenv.py:_compress_store'), ('loading', 'multisim/simenv.py:load_sim_results / return_stored_data')],
  (), ['HDF5 result file', 'return value of the loading functions'])
p('C06', 'Time series boundary conditions are applied at the right time and value',
  'A boundary temperature or actuator value given as a time series has its first value at the start and after every step equals the series interpolated linearly at the reached time if the step is not longer than the sampling interval; for longer steps it is the average over the samples passed in the step, weighted with the interpolated end value, and never leaves the range of those samples. This holds for every sequence of step sizes, sampling intervals and any number of series, which never affect one another.',
  ['inputs', 'schedules', 'histories'], 'every time series, sampling interval and sequence of step sizes (sub-sample, sample-aligned and multi-sample)',
  T + 'no test uses a time series.',
  ['multisim/simenv.py'], [('series assignment', 'multisim/simenv.py:assign_boundary_cond'), ('per step update', 'multisim/simenv.py:_update_dyn_BC')],
  [('series position', 'fractional sample index reached', 'SimEnv')], ['boundary port temperature and actuator value in every step'])
p('C07', 'Two-point controllers switch exactly at their thresholds and hold in between',
  'A two-point controller switches its actuator on when the process value falls below setpoint minus half the hysteresis, off when it rises above setpoint plus half the hysteresis, and keeps its state in between (negative hysteresis: reversed action). A two-sensor controller switches on only by its activation sensor and threshold and off only by its deactivation sensor and setpoint, with switching off taking precedence.',
  ['histories', 'inputs'], 'every sequence of process values over any setpoint, hysteresis and direction, including values exactly on a threshold',
  'No test contains a controller.',
  ['multisim/parts/controllers.py', 'multisim/controls.py'], [('two-point rule', 'multisim/parts/controllers.py:BangBang.run_controller'), ('two-sensor rule', 'multisim/parts/controllers.py:TwoSensors.run_controller')],
  [('control value', 'last commanded state', 'controller')], ['actuator value after every step'])
p('C08', 'PID control law with saturation, anti-windup and slope limits',
  'For every sequence of process values and step sizes the control value follows the configured control law: velocity form in discrete time, position form with a limited integral in continuous time, only the configured terms, optional derivative filtering and direction inversion, always relative to the current setpoint (fixed or following a reference part with an offset). It never leaves the saturation limits and never changes faster than the configured slope.',
  ['inputs', 'histories', 'configurations'], 'every history of process/reference values and step sizes, every choice of terms, domain, gains, inversion, saturation, anti-windup and slope',
  'No test contains a controller.',
  ['multisim/controls.py', 'multisim/parts/controllers.py'], [('PID law', 'multisim/parts/controllers.py:PID.run_controller'), ('error, slope and actuator processing', 'multisim/controls.py:Controls.ctrl')],
  [('errors and integral', 'controller memory', 'controller')], ['actuator value after every step'])
p('C09', 'Dependent controllers obey their master in every step',
  'A controller declared concurrent with a master controller or master part is at its off state in every step in which the master is off, and one declared sequential is at its off state in every step in which the master is not off; otherwise it acts by its own control law, restarting without accumulated integral.',
  ['histories', 'configurations'], 'every history of master states and process values, every controller type and dependency kind',
  'No test contains a controller.',
  ['multisim/controls.py', 'multisim/parts/controllers.py'], [('interlock', 'multisim/controls.py:Controls._subcontroller_check')],
  (), ['actuator values of master and dependent controller after every step'])
p('C10', 'Controller dead time delays the process value by exactly the dead time',
  'With a dead time D a PID controller acts at time t on the process value of time t-D, obtained by linear interpolation between the recorded steps, and on the rest value 25 before any value that old exists. This holds for every dead time and every sequence of step sizes, shorter or longer than the dead time.',
  ['schedules', 'histories'], 'every dead time and every sequence of step sizes and process values',
  'No test contains a controller.',
  ['multisim/controls.py', 'multisim/precomp_funs.py'], [('delay line', 'multisim/controls.py:_ctrl_deadtime')],
  [('delay line', 'recorded process values and ages', 'controller')], ['actuator value of a proportional controller after every step'])
p('C11', 'Results do not depend on the order or orientation of model construction',
  'Building the same plant by adding parts, open ports, connections and controllers in a different order (a master controller before its dependents), by naming the two ends of a connection in the opposite order, or by using different part names gives the same results. Two simulation environments in one process never influence one another.',
  ['programs', 'configurations'], 'every permutation of construction calls and orientation of connections',
  T + 'always in one fixed order.',
  ['multisim/simenv.py'], [('postponed construction', 'multisim/simenv.py:_call_postponed'), ('port linking', 'multisim/simenv.py:connect_ports/_connect_ports'), ('topology', 'multisim/simenv.py:_get_topology')],
  (), ['all result arrays'])
p('C12', 'Only complete and valid models run; failed runs are reported as failed',
  'A simulation starts only after timeframe, disk saving and solver are set, every port is connected exactly once, every part is initialized and every actuator that needs control is controlled; otherwise construction, initialization or start is refused with an exception, whatever the order of the calls. A run producing invalid values is stopped at once and reported as failed, never as successful; the written report agrees with the run.',
  ['programs', 'fault_sequences'], 'every sequence of set-up calls with omissions, duplicates and wrong references, every step at which invalid values appear',
  'The tests check single invalid settings; no call sequences and no failing run.',
  ['multisim/simenv.py', 'multisim/controls.py'], [('set-up checks', 'multisim/simenv.py:_build_simenv/connect_ports/initialize_sim/start_sim'), ('nan stop and report', 'multisim/simenv.py:start_sim/_write_report')],
  (), ['exceptions', 'simulation report'])
p('C13', 'Resetting and rerunning reproduces the run exactly',
  'After a run, resetting the simulation environment and starting it again gives exactly the results of a freshly built environment: no temperature, mass flow, actuator, controller, boundary series, plant or storage state of the earlier run survives. Repeating a run in a new environment also gives identical results.',
  ['histories', 'configurations'], 'every plant and every number of resets',
  'No test resets a simulation.',
  ['multisim/simenv.py', 'multisim/controls.py', 'multisim/parts/controllers.py', 'multisim/parts/chp_plant.py'], [('reset', 'multisim/simenv.py:_reset_simenv and _reset_to_init_cond of parts and controllers')],
  (), ['all result arrays of both runs'])
p('C14', 'Actuators stay within their limits and valve openings are complementary',
  'Whatever a controller demands, a controlled pump, valve, heater or plant never leaves its lower and upper limit and inside the limits takes exactly the demanded value (scaled to the part range in part-specific mode). The two openings of a three-way valve are always complementary, between 0 and 1.',
  ['inputs', 'histories'], 'every sequence of demanded values including far outside the limits, every actuator type, limit pair and control value mode',
  'No test contains a controlled actuator.',
  ['multisim/controls.py', 'multisim/parts/pump.py', 'multisim/parts/pipe_with_pump.py', 'multisim/parts/mixingvalve.py', 'multisim/parts/pipe_with_valve.py', 'multisim/parts/heated_pipe.py'],
  [('limit processing', '_process_cv of the parts, multisim/controls.py:_process_cv_direct')], (), ['actuator value after every step'])
p('C15', 'Heat transport obeys bounds, equilibrium, direction and energy balance',
  'Without heat sources no temperature leaves the range spanned by the initial, boundary and ambient temperatures, a plant in thermal equilibrium stays there, and heat only flows from warm to cold. Fluid advects temperature in flow direction only, reversing the flow mirrors the result, and a closed plant insulated from ambient keeps its energy; streams mix in proportion to their flows, up to the documented approximation with mean heat capacities.',
  ['inputs', 'configurations', 'histories'], 'every initial temperature field, boundary temperature, flow direction and rate, discretisation and coupling of pipes, storages, branches and valves',
  T + 'two final temperatures are compared with stored numbers.',
  ['multisim/precomp_funs.py', 'multisim/simenv.py', 'multisim/parts/pipe.py', 'multisim/parts/tes.py'],
  [('differentials', 'multisim/precomp_funs.py:pipe1D_diff, tes_diff, ...'), ('port exchange', 'multisim/precomp_funs.py:_process_ports_collapsed')], (), ['temperature rows of all parts'])
p('C16', 'Meters report exactly what the parts did',
  'Temperature, mass flow, volume flow and heat meters report, for every stored time, the temperature and flow of the metered port or cell and the heat computed from flow and temperature difference, and the accumulated heat is the time integral of the reported heat flow. A meter never changes the simulation it observes.',
  ['histories', 'configurations'], 'every metered part, port and run',
  'No test contains a meter.',
  ['multisim/_utility/meters.py', 'multisim/simenv.py'], [('meters', 'multisim/_utility/meters.py:Meters')], (), ['meter data frames against part results'])
p('C17', 'CHP plants respect minimum times, ramps and temperature protection',
  'A CHP plant never stops before its minimum on time (except for overtemperature) and never restarts before its minimum off time or while overheated; while on, its modulation stays in the modulation range and follows the control no faster than the maximum slope (a stop requested too early holds it at its lowest modulation), and it shuts down when the inlet stays too hot for too long and at once above the emergency temperature. Electric power, gas power and heat are zero when it is off (heat decays after shutdown) and follow the modulation and start-up curve when it is on.',
  ['histories', 'inputs'], 'every history of requested modulation, temperatures and step sizes',
  'No test contains a CHP plant.',
  ['multisim/parts/chp_plant.py'], [('plant state machine', 'multisim/parts/chp_plant.py:CHPPlant.get_diff')],
  [('on/off state, start and stop times', 'plant protection', 'CHP plant')], ['stored plant state, electric power, gas and heat'])
p('C18', 'Heated pipes put exactly the commanded heat into the chosen cells',
  'A heated pipe distributes exactly its commanded heating power evenly over the configured cells (all, a single one or a range) and no other cell, and reports the power applied in every step. At or above the emergency temperature of 110 degrees no heat is applied.',
  ['inputs', 'configurations'], 'every commanded power history, cell selection and temperature',
  'No test contains a heated pipe.',
  ['multisim/parts/heated_pipe.py', 'multisim/precomp_funs.py'], [('heat allocation', 'multisim/parts/heated_pipe.py, multisim/precomp_funs.py:heatedpipe1D_diff')], (), ['derivatives and reported heat of every step'])
p('C19', 'Heat exchangers conserve energy and never cross temperatures',
  'The heat given off by the warm side of a plate heat exchanger equals the heat taken up by the cold side, heat always flows from the warmer to the colder fluid, and no outlet temperature leaves the range of the two inlet temperatures. The entering port shows the temperature of the neighbour upstream (whichever way the side is passed); if one side is at rest the other passes its inlet temperature on unchanged and the resting side shows its neighbours; a trickle leaves with nearly the temperature of the other inlet. The result depends only on the present temperatures and flows (not on earlier ones), and swapping the two sides mirrors it. The discretised exchanger (HexNum) moves heat only from warmer to colder cells in contact and loses none.',
  ['inputs', 'configurations'], 'every pair of inlet temperatures and flows including zero, equal and reversed temperature order',
  'No test contains a heat exchanger.',
  ['multisim/parts/heatexchanger.py', 'multisim/parts/hex_num.py', 'multisim/precomp_funs.py'], [('effectiveness model', 'multisim/parts/heatexchanger.py'), ('numeric model', 'multisim/parts/hex_num.py')], (), ['port temperatures and flows after every step'])
p('C20', 'Compiled execution gives the results of the source code',
  'A plant simulated with just-in-time compiled numeric kernels (the default) gives, to rounding, the results the same source gives when interpreted (NUMBA_DISABLE_JIT=1): the same number of steps, step sizes, temperatures, mass flows, powers and plant states, or the same refusal. No kernel reads or writes outside of its arrays, uses values it has not set, or depends on the order of concurrent execution.',
  ['configurations', 'histories'], 'every plant and every history',
  'The tests run compiled code only, two plants, against stored values; accesses outside of arrays go unnoticed in compiled code.',
  ['multisim/precomp_funs.py', 'multisim/simenv.py', 'multisim/parts/hex_num.py'], [('compiled kernels', 'multisim/precomp_funs.py')], (), ['all result arrays of both executions'])
p('C21', 'Heat capacity, heat loss and conduction follow from geometry, materials and insulation',
  'Without advection (no flow, or a flow through parts of one temperature) every cell of a pipe, pump pipe, heated pipe, valve pipe, branched pipe or store changes its temperature at the rate that follows from its construction data alone: it stores heat in the water and in the wall it contains; it loses heat to the ambient through inner film, wall and insulation in series and free convection of air outside (horizontal cylinder for pipes; vertical cylinder plus the two lids for stores); it conducts heat to its neighbour cells through water and wall in parallel. All terms follow pipe specification, wall material, insulation thickness and conductivity, cell length, ambient temperature and the temperature of the cell.',
  ['inputs', 'configurations'], 'every geometry, material, insulation, ambient temperature and temperature profile',
  'The tests run one pipe geometry with one insulation and compare with numbers stored from the same code.',
  ['multisim/parts/pipe.py', 'multisim/parts/tes.py', 'multisim/precomp_funs.py', 'multisim/simenv.py'],
  [('geometry', 'multisim/parts/pipe.py, multisim/parts/tes.py'), ('loss and conduction', 'multisim/precomp_funs.py:UA_fld_wll_ins_amb_cyl, cylinder_alpha_inf, pipe1D_diff, tes_diff')], (), ['rates of temperature change from two rows'])
p('C22', 'Fluid properties and dimensionless numbers agree with reference data in every variant',
  'The property functions of water (density, heat capacity, conductivity, viscosity, Prandtl number, expansion coefficient), dry air (density, conductivity, viscosity) and humid air (saturation pressure, saturation water content) give the values of the reference tables at every temperature of their range of validity, within the accuracy of their fits. The variants of a function (scalar, array, strided view, writing into an array given, combined functions for several properties, and the public copies in pf, matprops and dimless_no) agree, write the result only where asked and leave the temperatures given unchanged. Reynolds and Rayleigh numbers follow their definition (never negative for reversed flow or heat flow), conductances in series add inversely, in parallel directly.',
  ['inputs'], 'every temperature, array layout, velocity, length and conductance',
  'The tests check single functions at single temperatures against stored values.',
  ['multisim/precomp_funs.py', 'multisim/_precompiled/material_properties.py', 'multisim/_precompiled/dimensionless_numbers.py'],
  [('property functions', 'multisim/precomp_funs.py, multisim/_precompiled/material_properties.py'), ('dimensionless numbers', 'multisim/_precompiled/dimensionless_numbers.py, multisim/precomp_funs.py')], (), ['returned and written values of every variant'])
p('C23', 'The heat a plate heat exchanger transfers follows from its geometry, flows and temperatures',
  'With flow on both sides a plate heat exchanger transfers the heat of a counterflow exchanger (effectiveness as a function of transfer units and capacity ratio) whose conductance follows from its data: the area of a plate (length, width, ports, corners, or as given), the number of effective plates and passes, film resistances of both sides from the flow per channel (laminar or turbulent, entrance effect, correction of the Reynolds number for profiled plates) and the resistance of the plate. The geometry may be given by channel width, depth per plate, mass per plate or channel volume: equal exchangers transfer the same heat however they are described and whichever way they are passed.',
  ['inputs', 'configurations'], 'every geometry, way of describing it, flow and temperature',
  'No test contains a heat exchanger.',
  ['multisim/parts/heatexchanger.py', 'multisim/precomp_funs.py'],
  [('geometry', 'multisim/parts/heatexchanger.py:get_plate_hex_geometry'), ('heat transfer', 'multisim/precomp_funs.py:solve_platehex, phex_alpha_i_wll_sep, UA_fld_wll_plate')], (), ['outlet temperatures of both sides'])
with open('/verif/properties.jsonl', 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
print(len(P))
