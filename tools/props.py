"""The properties, their checks, and the generation of properties.jsonl and MANIFEST.json (python3 tools/props.py write)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = {}          # id -> description

def prop(id, title, statement, over, text, why, files, mech, note, module, technique, assume=()):
    D[id] = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                 anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]), note=note, module=module, technique=technique, assume=list(assume))

PACKT = 'TLA+: PackMC model-checked with TLC, TLC-generated schedules run on the code, recorded executions validated against Pack.tla'
NUM = ['observations are scaled integers (1e-5 A, 1 uV, 1e-9 of charge): deviations below the resolution are not seen',
       'schedules are sampled by TLC simulation from the generator specification, exhaustive only in the model']

CELLS = ['src/cells/Cell.cpp', 'src/cells/Cell_ECM/Cell_ECM.hpp', 'src/cells/Cell_SPM/Cell_SPM.cpp', 'src/utility/free_functions.hpp']
MODS = ['src/modules/Module.cpp', 'src/modules/Module_s.cpp', 'src/modules/Module_p.cpp']

prop('P01', 'A refused command leaves a cell exactly as it was',
     'When a cell refuses a new current, voltage, charge level or complete state because a limit would be violated, every one of its states, its voltage and its counters are exactly what they were before. When it accepts, it has the value that was asked for.',
     ['inputs', 'histories'], 'for every sequence of commands on every type of cell, every value and both settings of the voltage check',
     'the tests check a few refused values right after construction; the guarantee is about every state a history can reach and every way to be refused',
     CELLS, [('current with rollback', 'src/cells/Cell_ECM/Cell_ECM.hpp:setCurrent, src/cells/Cell_SPM/Cell_SPM.cpp:setCurrent'), ('charge with rollback', 'src/cells/Cell.cpp, Cell_ECM.hpp:setSOC'), ('states with rollback', 'src/utility/free_functions.hpp:setStates, Cell_SPM.cpp:setStates')],
     'exhaustive on the model of one cell; on the code every recorded command of sampled histories is compared bit by bit (state fingerprints)', 'pack', PACKT, NUM)
prop('P02', 'Status codes say exactly what the limits say',
     'The status a cell returns is determined by its voltage, the direction of the current and its limits: within the operating limits (with the documented slack of 10 mV) success, past an operating limit in the direction of that limit a warning, past a safety limit in its direction a violation, and a code of its own when there is no valid voltage, an impossible charge level or an invalid state. Switching the voltage check off removes only refusals that come from the voltage.',
     ['inputs', 'histories'], 'for every cell type, state, current of either sign and threshold, from either side of every limit',
     'tests use values far from the thresholds and a single state; which side of which limit counts depends on direction and on voltage, which needs a sweep around every threshold',
     CELLS + ['src/types/Status.hpp'], [('classification', 'src/utility/free_functions.hpp:check_voltage'), ('checked commands', 'Cell_ECM.hpp and Cell_SPM.cpp:setCurrent, setVoltage, setSOC, setStates')],
     'the expected verdict is computed by the specification from recorded voltage, current and limits; values within 3 uV of a threshold may be classified either way', 'pack', PACKT, NUM)
prop('P03', 'Time, charge and energy counters of every cell are exact',
     'A time step of n times dt advances the time of every cell concerned by n dt, its charge throughput by |I| n dt and its energy throughput by the energy moved, and moves exactly the charge drawn out of (or into) its state of charge; zero duration changes nothing and a negative duration is refused without effect. Commands that set currents, voltages or temperatures move no counter and no charge, and cells elsewhere stand still.',
     ['inputs', 'histories'], 'for every cell type, current, step length and repetition, alone and at any depth of strings, blocks and batteries, with and without threads',
     'tests integrate a few constant currents over one cell; conservation must hold for every composition of steps, currents and nesting',
     CELLS + MODS, [('time step', 'Cell_ECM.hpp:timeStep_CC, Cell_SPM.cpp:timeStep_CC'), ('counters', 'src/types/State.hpp'), ('delegation', 'Module_s.cpp and Module_p.cpp:timeStep_CC')],
     'current, dt and n are arguments of the recorded event, so the expected increments are computed exactly in the specification; energy is bounded between the voltages at both ends of the step', 'pack', PACKT, NUM)
prop('P04', 'Voltage is a function of the state, never stale',
     'At every moment the voltage a cell or a composition reports is the one its present states imply; no sequence of commands, refused commands, restored states, temperature changes or copies leaves an outdated voltage behind.',
     ['histories'], 'for every sequence of commands addressed to a tree of storage units and every unit of it',
     'a stale cached voltage shows only after particular orders of commands (look, change, look again); tests look once',
     CELLS + MODS, [('voltage caches', 'Cell_SPM.cpp:V, Module_s.cpp:V'), ('invalidation', 'every setter of Cell_SPM, Module::setT/setStates')],
     'each recorded voltage is compared with that of a fresh object which received nothing but the states, and with the circuit law over the recorded children', 'pack', PACKT, NUM)
prop('P05', 'Saved states restore the unit completely; invalid states are refused',
     'Restoring a state that was saved earlier from the same unit brings every state back exactly, consumes exactly the part of the vector that belongs to the unit, and touches no other unit. A vector with an impossible entry is refused as a whole, leaving cells, modules and batteries exactly as they were; saving or looking changes nothing.',
     ['histories', 'inputs'], 'for every unit of every tree, every interleaving of saving, running, restoring, and every entry of the vector corrupted',
     'tests restore immediately after saving on one unit; partial failure deep inside a nested unit needs specific corrupted entries',
     CELLS + MODS + ['src/system/Battery.cpp'], [('save and restore', 'getStates/setStates of Cell_ECM, Cell_SPM, Module, Battery'), ('validity', 'validStates of the cells')],
     'state fingerprints over the exact bit patterns of all states; every recorded command observes the whole tree', 'pack', PACKT, NUM)
prop('P06', 'Equivalent-circuit cells obey their circuit equations',
     'The terminal voltage of an equivalent-circuit cell is its open-circuit voltage at the present charge level minus the drops over the series resistance and each RC branch; each branch current relaxes towards the cell current with its own time constant; a cell set to a voltage has that voltage, and there is no voltage outside the range of the curve.',
     ['inputs', 'histories'], 'for cells with no, one and two RC branches, any parameters, charge level, current and step',
     'tests check the sign and plausibility of voltages at a few points',
     ['src/cells/Cell_ECM/Cell_ECM.hpp', 'src/cells/Cell_Bucket.hpp'], [('voltage', 'Cell_ECM.hpp:V, getOCV'), ('relaxation', 'Cell_ECM.hpp:timeStep_CC'), ('voltage control', 'Cell_ECM.hpp:setVoltage')],
     'recomputed in integer arithmetic (64 bit, tolerance 4 uV and 1e-6) from recorded charge, currents and the parameters the harness asked for', 'pack', PACKT, NUM)
prop('P10', 'Series strings carry one current and add voltages',
     'All units of a series string carry the same current at all times, whatever was accepted or refused before, and the string voltage is the sum of its units minus the drop over each contact resistance. A string whose unit has no voltage has none.',
     ['histories', 'configurations'], 'for every string, length, contact resistances, nested units, and every sequence of commands to the root',
     'tests use two or three equal cells and commands which succeed; equality after a failure half way through the string is what matters',
     ['src/modules/Module_s.cpp', 'src/modules/Module_s.hpp'], [('unit by unit with rollback', 'Module_s.cpp:setCurrent'), ('sum', 'Module_s.cpp:V')],
     'evaluated on every snapshot of every recorded execution', 'pack', PACKT, NUM)
prop('P11', 'Parallel blocks share the current and equalise their voltages',
     'After every accepted current and every time step the branch currents of a parallel block add up to the block current and all branches give the same terminal voltage through their contact resistances; redistribution never changes the total. The equalisation may only fail outside the operating region.',
     ['histories', 'configurations'], 'for blocks of one to four branches with different cells, capacities, states and resistances, nested in each other and in strings',
     'tests check equal cells and small imbalances; the total must be kept for every imbalance, history and nesting',
     ['src/modules/Module_p.cpp', 'src/modules/Module_p.hpp'], [('equalisation', 'Module_p.cpp:redistributeCurrent'), ('current', 'Module_p.cpp:setCurrent'), ('step', 'Module_p.cpp:timeStep_CC')],
     'evaluated on every snapshot after an accepted current or step; in blocks whose branch voltages a child command has disturbed, only the sum is required', 'pack', PACKT, NUM)
prop('P12', 'A module reports the exact aggregate of its parts',
     'Number of cells, capacity, open-circuit voltage, operating and safety limits and total resistance of a string or block are exactly those implied by its units and contact resistances: sums for series quantities, tightest limit and added capacity in parallel, the smallest capacity in series, and the ladder network of contacts for a block.',
     ['configurations', 'histories'], 'for all shapes, parameters and nesting, at every point of every history',
     'tests compute them for one symmetric arrangement',
     MODS + ['src/modules/Module.hpp', 'src/modules/Module_s.hpp', 'src/modules/Module_p.hpp'], [('aggregates', 'Module_s.hpp/Module_p.hpp: Vmin, Vmax, VMIN, VMAX, Cap; getOCV, getRtot in Module_s.cpp/Module_p.cpp'), ('cells', 'Module.cpp:setSUs')],
     'recomputed from the recorded units on every snapshot', 'pack', PACKT, NUM)
prop('P13', 'A module takes a current as a whole or not at all',
     'A string, block or battery accepts a new current exactly when every cell below accepts its share with the voltage check; if one cell refuses, the unit refuses for that reason and all cells carry the current they had before. An accepted current is carried by the unit.',
     ['histories', 'configurations'], 'for every tree, which of its cells refuses, and every earlier history',
     'needs a failure at each position in turn (first, last, nested); the tests only have strings of equal cells which all fail together',
     MODS + ['src/system/Battery.cpp'], [('rollback in strings', 'Module_s.cpp:setCurrent'), ('rollback in blocks', 'Module_p.cpp:setCurrent'), ('battery', 'Battery.cpp:setCurrent')],
     'for pure strings the decision is predicted cell by cell from voltages found on copies; for blocks the contract is all-or-nothing', 'pack', PACKT, NUM)
prop('P14', 'Extremes and verdicts of a pack are those of its cells',
     'The highest and lowest cell voltage of a pack, its hot spot temperature and its safety classification are the maximum, minimum and most severe over all cells at any depth (the hot spot includes the modules themselves); they are never more favourable than those of the worst cell.',
     ['configurations', 'histories'], 'for all trees and states, including cells past their limits at any position',
     'tests look at packs whose cells are all alike',
     MODS + ['src/system/Battery.cpp', 'src/StorageUnit.hpp'], [('worst of the units', 'Module.cpp:checkVoltage'), ('extremes', 'getVhigh, getVlow, getThotSpot of Module, Battery and the cells')],
     'recomputed from the recorded children on every snapshot', 'pack', PACKT, NUM)
prop('P15', 'Every unit has one owner; copies are equal and independent',
     'Every unit of a tree has exactly the parent that contains it and a full identifier built from the path to it, a module refuses units that already belong to another, and fixed attributes never change. A copy equals its original in everything observable and from then on neither affects the other, also when either is destroyed.',
     ['histories', 'configurations'], 'for every tree and interleaving of commands on original and copies, copies of copies, destruction in any order',
     'tests copy one cell or module and compare once',
     MODS + ['src/StorageUnit.hpp', 'src/utility/units', 'src/system/Battery.cpp'], [('ownership', 'Module.cpp:setSUs, Battery.cpp:setModule'), ('copies', 'copy() of all units, copy constructors of Module and Battery'), ('identifier', 'StorageUnit.hpp:getFullID')],
     'every event records the whole tree it concerns and fingerprints of all other trees alive', 'pack', PACKT, NUM)
prop('P16', 'Threads change nothing but the speed',
     'A pack whose modules step their units in threads goes through exactly the same states, statuses and errors as the same pack without threads, bit by bit.',
     ['schedules', 'histories'], 'for every tree with threaded modules at any level and every sequence of commands',
     'the tests compare final voltages of one arrangement; sharing or a skipped unit may show only for some sizes, nestings or interleavings',
     MODS + ['src/utility/parallelisation.hpp'], [('parallel loop', 'src/utility/parallelisation.hpp:run'), ('threaded step', 'Module_s.cpp and Module_p.cpp:timeStep_CC')],
     'differential: both trees get the same commands, fingerprints of all states and voltages compared after each; interleavings are those the machine produces', 'pack', PACKT, NUM)
prop('P17', 'A battery scales its module exactly',
     'A battery that stands for series and parallel copies of one module multiplies voltage, limits and open-circuit voltage by the number in series, current, capacity and cell count by the right factors, resistance by their ratio, and passes each copy its share of any current; extremes of cell voltages are not scaled.',
     ['configurations', 'histories'], 'for all scale factors, modules and sequences of commands',
     'tests use one battery without scaling',
     ['src/system/Battery.cpp', 'src/system/Battery.hpp'], [('scaling', 'Battery.hpp, Battery.cpp: I, V, Cap, limits, setCurrent')],
     'recomputed from the recorded module on every snapshot', 'pack', PACKT, NUM)
prop('P18', 'Success in setting a voltage means the voltage is there',
     'When a string, block, battery or physics-based cell reports that it was set to a voltage, it has that voltage; when it reports failure (other than a parallel block) it carries the current it had before. It always comes to an end and never leaves an undefined current behind.',
     ['inputs', 'histories'], 'for every unit, target voltage inside and outside what can be reached, and earlier history',
     'tests set voltages close to the present one',
     ['src/utility/free_functions.hpp', 'src/modules/Module_p.cpp', 'src/StorageUnit.hpp'], [('search', 'free_functions.hpp:setVoltage_iterative'), ('blocks', 'Module_p.cpp:setVoltage')],
     'voltage compared within 100 uV after every recorded attempt', 'pack', PACKT, NUM)

# ---------------------------------------------------------------------------------------------------------------- cycler
CYCT = 'TLA+: CycMC (the cycler on an arbitrary unit) model-checked with TLC, TLC-generated schedules run on the code, every recorded call of the cycler validated against the monitor in Cyc.tla'
CYN = 'the cycler is observed through a recording proxy in place of the storage unit: what counts are the calls it makes and the result it returns; the proxy also makes units fail at chosen calls'
CY = ['src/procedures/Cycler.cpp', 'src/procedures/Cycler.hpp']
prop('P20', 'Constant current: the wanted current flows until the first limit, and the result says which',
     'During a constant-current phase the wanted current flows in every time step; no step is taken after the voltage has passed its limit in the direction of the current, and the total time never exceeds the time limit. The result is the time limit only if exactly that time has passed, the voltage limit only if the voltage passed it, and otherwise the status with which the unit refused the current or failed; a current refused at the start leaves the previous current flowing and no time passes.',
     ['inputs', 'histories', 'configurations'], 'for every storage unit, current of either sign (or zero), voltage and time limit, time step, data interval, diagnostic mode and failure of the unit at any call',
     'tests run a few charges and discharges of healthy cells; what happens when limits coincide, start beyond, or units refuse half way is a matter of every combination',
     CY, [('loop', 'Cycler.cpp:CC'), ('set with limit', 'Cycler.cpp:setCurrent')], CYN, 'cyc', CYCT, NUM)
prop('P21', 'Constant voltage: the voltage is set before every step and the phase ends for the stated reason',
     'A constant-voltage phase sets the wanted voltage before every time step and never another one; it ends as "current limit" only with the current below the limit and the voltage within its tolerance, as "small current" only below a tenth of the limit, as "time limit" only when that time has passed; it never continues beyond the current limit, the time limit or the safety limits, and it does not end with an exception while the unit works.',
     ['inputs', 'histories', 'configurations'], 'for every storage unit, set voltage, current and time limit and every time step, dividing the time or not',
     'tests use round steps and one cell; rounding of accumulated time and failures of the unit occur for particular values only',
     CY, [('loop', 'Cycler.cpp:CV')], CYN, 'cyc', CYCT, NUM)
prop('P22', 'CCCV goes towards the voltage, then holds it, within one time limit',
     'A CCCV command decides the direction by comparing the open-circuit voltage with the set voltage, applies the given current in that direction until the voltage is passed, then holds it; both phases together respect the time limit; a set voltage outside the limits of the unit is refused without touching it; all contracts of both phases hold.',
     ['inputs', 'histories', 'configurations'], 'for every storage unit, state, set voltage, currents, time limit and step',
     'tests charge one cell to one voltage; direction and hand-over between phases depend on the state before',
     CY, [('phases', 'Cycler.cpp:CCCV_with_tlim, CCCV')], CYN, 'cyc', CYCT, NUM)
prop('P23', 'Rest lasts exactly its time without current',
     'During a rest no current flows in any step, the steps add up to exactly the wanted time, and no current flows at the end; a unit which refuses zero current ends the rest with that status.',
     ['inputs', 'histories', 'configurations'], 'for every storage unit, duration, step and data interval', 'the number of steps taken at once adapts; tests check one duration',
     CY, [('adaptive loop', 'Cycler.cpp:rest')], CYN, 'cyc', CYCT, NUM)
prop('P24', 'The throughput handed back is exactly what happened',
     'Every command adds to the time, charge and energy of the throughput it is given exactly the time of all steps taken, the absolute charge, and the charge times the voltage, whatever ended the command and however many phases it had; earlier content is kept.',
     ['inputs', 'histories'], 'for every command, reason to stop (limits, refusals, failures, violated cells) and earlier content', 'tests compare throughputs of complete phases only',
     CY, [('accumulation', 'Cycler.cpp:rest, CC, CV, CCCV_with_tlim')], CYN + '; energy is bounded by the voltages at both ends of each step', 'cyc', CYCT, NUM)
prop('P25', 'Data points come at the start, every n-th step, and the end',
     'With a data interval of n steps, a data point is stored before the first step, after at most every n steps and (when a limit was reached) after the last step; with n = 0 none is stored at all.',
     ['inputs', 'histories'], 'for every command, interval, number of steps taken at once and reason to stop', 'several steps can be taken at once near no limit; tests count points of one run',
     CY + ['src/cells/Cell.cpp'], [('interval', 'Cycler.cpp:rest, CC, CV')], CYN, 'cyc', CYCT, NUM)
prop('P26', 'Diagnostic mode stops at the first violated cell, normal mode does not',
     'In diagnostic mode a constant-current phase takes no further step once the voltage check of any cell of the unit fails, and returns the status of that cell; without diagnostic mode such violations do not end the phase.',
     ['inputs', 'histories', 'configurations'], 'for every storage unit and every step at which a cell leaves its limits', 'needs unequal cells in a module which hit their limits before the module does',
     CY, [('diagnostic', 'Cycler.cpp:CC, setCurrent')], CYN, 'cyc', CYCT, NUM)
prop('P27', 'A capacity test measures the charge between the limits and leaves no trace',
     'A capacity test charges slowly (C/25) to the upper limit, discharges to the lower limit, returns the charge taken out in the discharge, reports time and throughput of both, stores no data, and afterwards every state of the unit is exactly as before, also when the test fails half way (which returns 0).',
     ['inputs', 'histories', 'configurations'], 'for every storage unit, state before, diagnostic mode and failure at any call', 'tests check the capacity of one cell; restoration after failures and of compositions is not tested',
     CY, [('test', 'Cycler.cpp:testCapacity')], CYN + '; the capacity of cells with a linear open-circuit voltage is known exactly', 'cyc', CYCT, NUM)

SPM = ['src/cells/Cell_SPM/Cell_SPM.cpp', 'src/cells/Cell_SPM/Cell_SPM_dstate.cpp', 'src/cells/Cell_SPM/Cell_SPM_degradation.cpp', 'src/cells/Cell_SPM/Cell_SPM_diffusion.cpp', 'src/cells/Cell_SPM/param/DEG_ID.hpp']
AGET = 'TLA+: AgeMC model-checked with TLC, TLC-generated lives (selections of mechanisms, currents, temperatures) run on the code, recorded executions validated against Age.tla'
AGEN = 'exhaustive on a model of a cell composed of mechanisms; on the code a sampled set of lives, single-mechanism twins started from the same state give the expected sums'
prop('P07', 'Lithium is neither created nor destroyed in a particle cell',
     'In every time step of a physics-based cell the charge which passes the terminals arrives in one electrode and leaves the other, and what side reactions lose leaves the anode: the lithium in the cathode changes by exactly the charge, the lithium in the anode by minus the charge minus the increase of the recorded lost lithium. Lost lithium never comes back. Without current the concentrations even out, with a constant small current they approach the profile of a sphere with constant flux. Commands without time move no lithium.',
     ['inputs', 'histories', 'configurations'], 'for every state, current, temperature, step, cell size and selection of ageing mechanisms', 'tests compare concentrations of one step; conservation is a relation between the transformed concentrations, the electrode parameters and the side reactions in every history',
     SPM, [('diffusion', 'Cell_SPM_dstate.cpp:dState_diffusion'), ('side reactions in the anode', 'Cell_SPM_dstate.cpp:dState_degradation'), ('concentrations', 'Cell_SPM_diffusion.cpp:getC, calcSurfaceConcentration')],
     AGEN + '; loss of active material removes the lithium of that material, so totals are compared only where no mechanism changes the amount of material', 'age', AGET, NUM)
prop('P08', 'Ageing is one-way, and blocked ageing is no ageing',
     'Film thickness, lost lithium, plated lithium and crack surface never decrease; electrode thickness, active material, its surface and the diffusion constant never increase (except the anode while charging when film growth acts on its porosity); resistances and the cathode diffusion constant stay. Nothing ages while degradation is blocked, without a selected mechanism, in a step of no duration, or by a command which is not a time step.',
     ['inputs', 'histories', 'configurations'], 'for every state, current of either sign, temperature, step and selection of mechanisms', 'tests look at the values after one step with one mechanism; the sign of every rate depends on current, potential, stress history and temperature',
     SPM, [('rates', 'Cell_SPM_degradation.cpp:SEI, CS, LAM, LiPlating'), ('integration', 'Cell_SPM_dstate.cpp:timeStep_CC, dState_degradation')], AGEN, 'age', AGET, NUM)
prop('P09', 'A cell ages by exactly the mechanisms selected for it, scaled with its factors',
     'The rate of every ageing state of a cell is the sum of the rates of the selected mechanisms (as cells with one mechanism show them in the same state), cracks multiplying the film growth, scaled by the film factor or the active-material factor of the cell; a mechanism which is not selected has no effect; an unknown mechanism is refused. The capacity factor scales capacity and electrode area (so the same current density gives the same concentrations), the resistance factor scales the resistance.',
     ['configurations', 'histories'], 'for every combination of mechanisms, factors, states and currents', 'the number of combinations of models is far beyond enumeration by hand; tests run single models',
     SPM, [('selection', 'param/DEG_ID.hpp, Cell_SPM_degradation.cpp'), ('factors', 'Cell_SPM.cpp constructor, Cell_SPM_degradation.cpp')], AGEN + '; mechanisms limited by a documented maximum speed are checked against the maximum', 'age', AGET, NUM)
prop('P19', 'The voltage of a particle cell is its equilibrium potential minus its losses',
     'The voltage of a physics-based cell is the difference of the equilibrium potentials of both electrodes at the concentrations on the particle surfaces, adapted to the temperature with the entropic coefficient, minus the kinetic losses 2RT/F asinh of both electrodes at the actual temperature, minus current times resistance; the resistance is that of film, electrodes and collector over their actual surfaces; the open-circuit voltage is the same without losses, and equals the voltage at zero current.',
     ['inputs', 'histories', 'configurations'], 'for every state, current, temperature, age, size and resistance factor', 'tests check signs and rough ranges; the composition must hold for every aged state',
     SPM, [('voltage', 'Cell_SPM.cpp:V, getOCV, getRdc'), ('kinetics', 'Cell_SPM_diffusion.cpp:calcOverPotential')], AGEN + '; argument of asinh and resistances come from recorded states and published constants of the cell', 'age', AGET, NUM)

COOL = ['src/cooling/CoolSystem.cpp', 'src/cooling/CoolSystem.hpp', 'src/cooling/CoolSystem_HVAC.cpp', 'src/cooling/CoolSystem_open.hpp', 'src/modules/Module.cpp', 'src/modules/Module_s.cpp', 'src/modules/Module_p.cpp', 'src/system/Battery.cpp', 'src/power_conversion/Converter.cpp']
COOLT = 'TLA+: CoolMC model-checked with TLC, TLC-generated histories of cooling systems and packs run on the code (also with the thermal models switched on), recorded executions validated against Cool.tla'
COOLN = 'exhaustive on a model of thermostats, accounts and pairwise heat exchange; on the code a sampled set of packs and histories'
prop('P30', 'Cooling is regulated as its strategy says',
     'A cooling system switches on, off or between according to its strategy only: always on; on from 35 degrees until 25 degrees of the hottest element it cools or of the whole pack; or proportional to how far that temperature is above 25 degrees. The air conditioning never cools below 20 degrees, never exceeds its design power and follows the thresholds of its strategy. The heat transfer belongs to the present flow; an open system has none. Flow changes at no other occasion, and copies continue like their original.',
     ['inputs', 'histories', 'configurations'], 'for every strategy, change of strategy, kind of system, size and history of temperatures', 'tests call the controls at a few temperatures; hysteresis depends on the whole history and on the order of calls inside nested packs',
     COOL, [('fan', 'src/cooling/CoolSystem.cpp:control'), ('air conditioning', 'src/cooling/CoolSystem_HVAC.cpp:control'), ('where it is called', 'src/modules/Module.cpp:thermalModel_coupled, src/system/Battery.cpp:thermalModel')],
     COOLN + '; at thresholds which cannot be represented exactly both sides are allowed', 'cool', COOLT, NUM)
prop('P31', 'A cooling system accounts for all heat and energy',
     'The heat a cooling system reports as taken from its units is the heat it was given, what its coolant takes up is that heat plus the exchange with the system around it minus what the air conditioning removed, the coolant warms by that amount over its heat capacity, time adds up, and the operating energy is that of the fan at the present flow plus that of the air conditioning. Temperatures out of range are refused without effect; the cooling load of a pack is the sum over all its systems, counted once.',
     ['inputs', 'histories', 'configurations'], 'for every kind, size and strategy of cooling system, every heat, duration and history', 'tests add up single calls on a lone system; accounts must be right after every history and in nested packs',
     COOL, [('accounts', 'src/cooling/CoolSystem.cpp:dstate, src/cooling/CoolSystem_HVAC.cpp:dstate'), ('cooling load', 'src/modules/Module.cpp:getCoolingLoad, src/system/Battery.cpp')],
     COOLN + '; no statement on the energy where the formula asks for air faster than 250 m/s', 'cool', COOLT, NUM)
prop('P32', 'Heat is conserved in a pack',
     'In every time step the heat leaving one element of a pack arrives in another one: every cell warms by the heat it gives off plus what it receives from its neighbours and its module over its heat capacity, every coolant by what its children give, the heat of the contact resistances and the exchange with its own surroundings; over the pack, stored heat is produced heat (cells, contacts, converter) minus what the air conditioning removed. Without thermal model, or while it is blocked, or in no time, no temperature changes; with the bulk model each cell exchanges heat with the environment only.',
     ['inputs', 'histories', 'configurations'], 'for every composition, temperature distribution, current, step and all thermal models', 'tests run with the thermal model switched off at compile time, or compare two temperatures of one pack',
     COOL + ['src/cells/Cell_SPM/Cell_SPM_thermal.cpp', 'src/settings/settings.hpp'], [('exchange between siblings and with the parent', 'src/modules/Module.cpp:thermalModel_coupled'), ('cells', 'src/cells/Cell_SPM/Cell_SPM_thermal.cpp:thermalModel_coupled, thermalModel_cell'), ('battery', 'src/system/Battery.cpp:thermalModel')],
     COOLN + '; temperatures between 14 and 45 degrees; the thermal models are selected with the macro SLIDE_VERIF_T_MODEL (hook)', 'cool', COOLT, NUM)
prop('P33', 'The converter loses what its formula says, and the losses are paid for',
     'The losses of a battery\'s power electronics over a time step are those of its converter at the present voltage and current (conduction with the knee at 30 A, switching, filter and capacitor, per inverter), for the whole duration and at least those of idling; they are added up, reset when read, and heat the container of the battery, whose air conditioning is designed for them.',
     ['inputs', 'histories', 'configurations'], 'for every battery, voltage, current of either sign, duration and history of readings', 'tests check a range of the total losses; the formula has regimes in current and voltage and several inverters for larger batteries',
     ['src/power_conversion/Converter.cpp', 'src/power_conversion/Converter.hpp', 'src/system/Battery.cpp', 'src/system/Battery.hpp'], [('formula', 'src/power_conversion/Converter.cpp:getLosses, getLosses_AC, getLosses_DC'), ('accounts', 'src/system/Battery.cpp:timeStep_CC, getAndResetConvLosses')],
     COOLN, 'cool', COOLT, NUM)

UTILN = 'Models of the algorithms (spec/UtilMC.tla) are checked exhaustively for small inputs against spec/Util.tla and rejected with each of several deliberate errors; calls generated by TLC from spec/UtilGen.tla run on the built library, and every recorded result is judged by the same specification (spec/UtilTrace.tla). Bounded by the generated calls; comparison to about 1e-6.'
UTILT = 'TLA+ specification of the utilities, model checked with TLC; results of generated calls validated against it (trace validation)'
prop('P51', 'Interpolation lies on the line between the neighbouring data points',
     'Linear interpolation of a curve at x, through linInt, linInt_noexcept or a curve object, gives the value of the straight line between the two data points around x, for any increasing data points (also a single one, a part of a longer array, a grid with fixed steps and data whose steps are nearly equal), exactly the data at a data point, and the value of the nearest end point outside the data when bounds are not enforced; when they are, x outside the data (or no number at all) is refused, and nothing else is; the variant without exceptions gives the same value and the side x is on.',
     ['inputs'], 'for every increasing grid of 1 to 121 points, values, x (on, one rounding beside and between data points, outside, not a number), kind of container and search', 'tests look at a handful of grids; the shortcut for fixed steps guesses the interval by a division whose rounding and whose drift only show for particular data',
     ['src/utility/interpolation.hpp', 'src/types/XYdata.hpp', 'src/utility/slide_aux.hpp', 'src/types/FixedData.hpp'], [('interpolation', 'src/utility/interpolation.hpp:linInt_noexcept, linInt'), ('curves', 'src/types/XYdata.hpp:interp, check_is_fixed')], UTILN, 'util', UTILT, NUM)
prop('P52', 'Histograms count every value once and in its bin',
     'A histogram over a range has as many bins as asked for, of equal width, with one more below and one above its range; its edges run from the lower to the upper end of the range; every value added, however large, infinite or on an edge, is counted exactly once, in the bin whose lower edge is not above it and whose upper edge is above it; what is printed are all the edges and all the counts.',
     ['inputs', 'histories'], 'for every range, number of bins and sequence of values', 'tests add a few values inside the range; edges, far values and infinities need conversions to integers which are undefined when out of range',
     ['src/types/Histogram.hpp'], [('histogram', 'src/types/Histogram.hpp:add, getEdgeValues, operator<<')], UTILN, 'util', UTILT, NUM)
prop('P53', 'Grids have the points they were asked for',
     'Equally spaced grids between two ends, with a given step, or over a range, and geometric grids, whether stored or computed on demand, have the requested number of points, the requested first and last point and the requested spacing (a range ends with its last step inside the range); reading them by position, by iterating or by front, back, next and prev agrees; and a grid which does not extrapolate refuses positions outside it and only those.',
     ['inputs'], 'for every pair of ends, step or ratio, number of points and kind of grid', 'tests compare a few grids of a fixed length',
     ['src/types/FixedData.hpp', 'src/utility/slide_aux.hpp', 'src/utility/array_util.hpp'], [('grids', 'src/types/FixedData.hpp:linspace_fix, linstep_fix, logstep_fix, range_fix'), ('stored', 'src/utility/slide_aux.hpp:linspace')], UTILN, 'util', UTILT, NUM)
prop('P55', 'Data are read from files as they are written there',
     'Reading one, two or many columns or a matrix from a CSV file gives the numbers of its rows in order, as many rows as were asked for (all for 0) and are there and fit, whatever the notation, line ends, a byte order mark, a missing or repeated final line end; an empty file gives nothing; a file which is not there is reported with the documented error; reading always ends, never goes beyond the destination, and reading the same file again gives the same. In the same way a cell takes as many ageing models as there is place for, keeps their order and refuses more.',
     ['inputs', 'histories'], 'for every table of numbers, style of file, loader, requested number of rows and history of reading', 'tests read one file in one style; the limits depend on the end of the file and on the size of the destination',
     ['src/utility/io/read_CSVfiles.hpp', 'src/types/matrix.hpp', 'src/types/SmallVector.hpp', 'src/cells/Cell_SPM/DEG_ID.hpp'], [('readers', 'src/utility/io/read_CSVfiles.hpp:loadCSV_mat, loadCSV_1col, loadCSV_2col, loadCSV_Ncol, ignoreBOM'), ('models', 'src/cells/Cell_SPM/DEG_ID.hpp')], UTILN, 'util', UTILT, NUM)
prop('P56', 'Open circuit voltage curves are checked, and derived cell curves follow from the electrodes',
     'Exactly the curves which start at 0, increase strictly, (if asked for) end at 1 and have voltages between 0 and 10 V are accepted as open circuit voltage curves, and the files of two electrodes and a cell are read or refused accordingly; the error between two curves is the root mean square of their differences at the points of the first; a slow discharge simulated from the electrode curves moves exactly the charge which leaves the one electrode into the other, reports the electrode potentials at those fractions and their difference as the voltage at equal steps of charge, ends at the end voltage or when an electrode is full or empty, and reports the fractions at full, half and no charge.',
     ['inputs', 'configurations'], 'for every pair of electrode curves, amounts of active material, start fractions, capacity and end voltage', 'the tests of this code are few and use one cell; the whole parameterisation of a user\'s own cell rests on it',
     ['src/procedures/determine_OCV.cpp', 'src/procedures/determine_OCV.hpp'], [('checks', 'src/procedures/determine_OCV.cpp:validOCV, readOCVinput, calculateError'), ('discharge', 'src/procedures/determine_OCV.cpp:discharge_noexcept, discharge')], UTILN, 'util', UTILT, NUM)

PROCT = 'TLA+: ProcMC model-checked with TLC, TLC-generated schedules run on the code, recorded executions validated against Proc.tla'
PROCN = 'ProcMC (model of the procedures: units whose phases come to their limits or not; planted mistakes) model-checked; schedules from ProcGen on units which record the instructions they are given (h_proc); instructions and files validated against Proc.tla.'
prop('P40', 'Balancing brings every cell to one voltage without ageing it',
     'Balancing, also inside modules and batteries, leaves every single particle cell at the balancing voltage with no current, does not change its ageing states or temperature, and does nothing to other kinds of cells or when the voltage is outside the limits of a cell; afterwards degradation and thermal models run again everywhere; without a request nothing is changed.',
     ['inputs', 'configurations', 'histories'], 'for every tree of cells with spread and degradation models, every state they are in and every balancing voltage', 'tests balance one module from one state and look at the average',
     ['src/procedures/Procedure.cpp'], [('balancing', 'src/procedures/Procedure.cpp:rebalance, balanceCheckup'), ('blocking', 'src/StorageUnit.hpp:setBlockDegAndTherm')], PROCN, 'proc', PROCT, NUM)
prop('P41', 'A check-up measures every cell on a copy and reports it once',
     'A check-up charges the unit slowly to three quarters of its voltage range and changes nothing else about it; it appends one block with one row for every cell of the unit in order: its full name, variation, the charge throughput and cycle number of the test, the throughput of the cell so far, its capacity as a test of a copy finds it, and its states. In an ageing procedure check-ups come at the cycles they are due and at the end.',
     ['inputs', 'configurations', 'histories'], 'for every tree of cells, mixture of cell types, state and history of earlier check-ups', 'tests write the files and do not read them',
     ['src/procedures/Procedure.cpp'], [('check-up', 'src/procedures/Procedure.cpp:checkUp, checkUp_prep, balanceCheckup'), ('capacity', 'src/procedures/Cycler.cpp:testCapacity')], PROCN, 'proc', PROCT, NUM)
prop('P42', 'The usage files of an ageing test account for every phase once and in order',
     'The file of throughputs begins with the test and gets, at every check-up and at the end, one row for every finished phase since then, in order: cumulative charge and energy through the unit in the phases of the test (not in balancing or check-ups), energy for cooling and losses of the converter since the row before, so that rows add up to the totals; the file of module usage has one row for every module and battery with its number of cells, time, and heat evacuated and absorbed; the state of the unit is written at the beginning of every cycle.',
     ['inputs', 'configurations', 'histories'], 'for every procedure, tree of cells, schedule of check-ups and balancing, and place where the test stops', 'tests write the files and do not read them',
     ['src/procedures/Procedure.cpp'], [('throughputs', 'src/procedures/Procedure.cpp:storeThroughput, writeThroughput'), ('modules', 'src/procedures/Procedure.cpp:checkMod'), ('state', 'src/procedures/Procedure.cpp:balanceCheckup')], PROCN, 'proc', PROCT, NUM)
prop('P43', 'Ageing procedures follow their schedule',
     'A cycle ageing test does, in every cycle: balancing and then a check-up if they are due, constant current charge to the upper voltage, constant voltage to the current limit if asked for, constant current discharge to the lower voltage, constant voltage if asked for; it stops cycling as soon as a phase does not come to its limit, and ends with a check-up and the data of the cells on disk. The use case test discharges the unit and then follows its daily schedule of rests and charges with the given lengths and currents.',
     ['inputs', 'configurations', 'schedules'], 'for every number of cycles, interval of check-ups and balancing, currents, voltage window, unit, and phase which fails', 'tests run the procedures and look at the end',
     ['src/procedures/Procedure.cpp', 'src/procedures/procedure_util.hpp'], [('cycle ageing', 'src/procedures/Procedure.cpp:cycleAge'), ('use case', 'src/procedures/Procedure.cpp:useCaseAge')], PROCN, 'proc', PROCT, NUM)
prop('P50', 'Every stored data point is in its file once and in order',
     'Every data point stored in a cell (current, voltage, state of charge, temperature, time, charge and energy throughput at that moment) is written exactly once, in order, to the file named after the test and the cell, also when the cycler writes because its buffer is full, when data are written several times, under several names, or from a copy (which has the data stored before it was made, and takes nothing from the original).',
     ['inputs', 'histories', 'configurations'], 'for every interleaving of phases with data at any interval, stores, writes under any name, and copies, with any size of buffer', 'tests store little and never fill the buffer, and do not read the files',
     ['src/types/data_storage/CellDataStorage.hpp', 'src/types/data_storage/CellDataWriter.hpp', 'src/utility/free_functions.hpp', 'src/procedures/Cycler.cpp'], [('storage', 'src/types/data_storage/CellDataStorage.hpp'), ('writer', 'src/types/data_storage/CellDataWriter.hpp, src/utility/free_functions.hpp:write_data, openFile'), ('buffer', 'src/procedures/Cycler.cpp:storeData, writeData')], PROCN, 'proc', PROCT, NUM)

NA = []        # (property, reason)

LEVEL = 'model_checking'
def lookup(p):
    d = D[p]
    m = __import__(d['module'])
    return m.run, LEVEL, d['assume']

def write():
    with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
        for k in sorted(D): f.write(json.dumps({x: D[k][x] for x in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}) + '\n')
    checks = [dict(property=k, quick_cmd=f'python3 tools/check.py {k}', thorough_cmd=f'VERIF_TIER=thorough python3 tools/check.py {k}', evidence_file=f'evidence/{k}.json',
                   technique=D[k]['technique'], level=LEVEL, level_note=D[k]['note']) for k in sorted(D)]
    import subprocess
    hook = [l.split()[0] for l in subprocess.run(['git', '-C', '/repo', 'log', '--format=%H %s'], stdout=subprocess.PIPE, text=True).stdout.splitlines() if ' hook:' in l]
    json.dump(dict(version=1, setup_cmd='python3 tools/setup.py', hooks=dict(guard='SLIDE_VERIF_HOOKS', enable='compiler define -DSLIDE_VERIF_HOOKS (with -DSLIDE_VERIF_T_MODEL=n and -DSLIDE_VERIF_NDATA_MAX=n), set by tools/buildlib.py for its t1 and t2 variants', source_commits=hook),
                   checks=checks, not_applicable=[dict(property=a, reason=b) for a, b in NA],
                   notes='TLA+ specifications in spec/, checked with TLC; tools/check.py runs one property (model, generated schedules on the code built from /repo, trace validation, self test).'), open(os.path.join(VERIF, 'MANIFEST.json'), 'w'), indent=1)
if __name__ == '__main__' and sys.argv[1:] == ['write']: write()
