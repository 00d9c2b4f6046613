#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from one table."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def P(id, title, statement, over, text, why, files, mech, observe, technique, level, note, state=None):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                mech=mech, observe=observe, technique=technique, level=level, note=note, state=state or [])

SE = "src/state_equations.rs"
SOLVER = "src/state_equations/solver.rs"
INTEG = "src/state_equations/integrator.rs"
CYCLE = "src/state_equations/cycle.rs"
FLOW = "src/state_equations/flow_direction.rs"
RUN = "src/engine/run.rs"
ENGINE = "src/engine.rs"
STATE = "src/engine/state.rs"
PERF = "src/performance.rs"
API = "src/api.rs"

PROPS = [
P("C01", "Mass and energy balance at every reported instant",
  "At every instant of a reported cycle, the four mass flows and three heat flows satisfy the mass and energy balances of all five control volumes for the reported pressure and temperatures. Gas that crosses a boundary carries the enthalpy of the side it comes from, for every combination of flow directions.",
  ["configurations", "inputs"],
  "every engine that can be configured (gas, drive, heat exchanger laws and volumes, thermal resistances, pressures and temperatures) and every instant of its cycle",
  "The unit tests solve two stored inputs and compare with stored outputs; they see one flow pattern each and never relate the numbers to a balance.",
  [SOLVER, FLOW, RUN, INTEG, ENGINE],
  [("10x10 system of balances with a flow direction stencil", SOLVER), ("flow direction iteration", SOLVER + " solve"), ("inputs of each control volume", RUN)],
  ["Engine.values.m_dot_*, Q_dot_*", "RunResults.values"],
  "bounded exhaustive exploration of the configuration space; every reported state checked against a closed-form reference model enumerated over flow directions",
  "model_checking",
  "Exhaustive within k field deviations of three base engines; reference model is an independent closed form. Trusts the numerical tolerance of 1e-8."),
P("C02", "The reported trajectory obeys the conservation laws between instants",
  "Between any two reported instants, pressure and working space temperatures evolve as the conservation laws prescribe, to the requested integration accuracy. The mass of gas in the engine is the same at every instant.",
  ["configurations", "inputs"],
  "every configurable engine, every consecutive pair of reported instants, every resolution and integration tolerance",
  "Existing tests check only that an integration of constant inputs reaches the final time; they never compare a trajectory with the equations.",
  [INTEG, SOLVER, RUN, CYCLE],
  [("adaptive Runge-Kutta integration with dense output", INTEG), ("flow direction hint carried between evaluations", INTEG)],
  ["Engine.values.P, T_c, T_e"],
  "bounded exhaustive exploration of the configuration space; every transition replayed on an independent reference integrator",
  "model_checking",
  "Every transition of every explored trace is replayed with an independent integrator; accuracy judged at 2e-5 (pressure), 2e-4 (temperatures at flow reversals), mass at 1e-6."),
P("C03", "A reported cycle closes on itself",
  "A successful run reports a cycle that starts at the given pressure and whose working space temperatures return to their initial values within both the absolute and the relative tolerance. The run reports the first such cycle of its iteration within the iteration limit, and an error if there is none.",
  ["configurations", "histories"],
  "every configurable engine, every tolerance pair, and every iteration limit",
  "One unit test checks that a result exists for one engine and tolerance; limits and the two tolerances are never varied.",
  [CYCLE, INTEG, ENGINE, "src/types.rs"],
  [("successive substitution with an iteration limit", CYCLE), ("convergence of both temperatures", INTEG + " is_converged")],
  ["Engine.values", "RunError::InnerLoop"],
  "explicit-state model of the cycle iteration, all limits enumerated and replayed on the implementation; closure monitored on every explored engine",
  "model_checking",
  "Reference transition system of the inner iteration with every limit from zero to beyond convergence; decisions closer to a tolerance than the integration error are skipped and counted."),
P("C04", "The temperature iteration stops exactly when it is self-consistent",
  "A run succeeds at the first iteration whose five heat exchanger temperatures are all reproduced within both tolerances, and reports the temperatures its cycle was calculated with. If the iteration limit comes first, the run fails; it never reports a cycle that belongs to other temperatures.",
  ["histories", "configurations"],
  "every behaviour of the three heat exchangers as functions of their state, every initial approach, tolerance and iteration limit",
  "The existing tests run fixed approaches, which converge at once, so no iteration of this loop beyond the first is ever exercised.",
  [ENGINE, STATE, "src/types.rs"],
  [("outer iteration", ENGINE + " Engine::run"), ("state update and convergence", STATE + " State::update")],
  ["Engine.state.temp", "Engine.values", "RunError::OuterLoop"],
  "explicit-state enumeration: all table-driven heat exchanger environments, replayed on the implementation and compared with the transition system",
  "model_checking",
  "All deterministic environments over 12 approach triples (tables depending on the component's own state and its neighbours), all limits; the implementation's end state must be the model's."),
P("C05", "Heat exchanger temperatures agree with the components' laws",
  "In a reported engine, the cold, hot and regenerator temperatures are those that the components' approach temperatures give for the reported cycle, within the requested tolerance. Sink, source and fixed approaches are met exactly.",
  ["configurations", "inputs"],
  "every heat exchanger law (fixed approach, fixed conductance, or any user-supplied dependence on temperature, pressure, density, heat capacity, mass flow or heat flow) in every configurable engine",
  "Unit tests use fixed approaches only, for which every state gives the same answer.",
  [STATE, ENGINE, "src/chx/fixed_conductance.rs", "src/hhx/fixed_conductance.rs", "src/regen/fixed_conductance.rs"],
  [("states handed to the components", STATE + " State::chx, regen, hhx"), ("temperatures from approaches", STATE + " Temperatures::from_approach")],
  ["Engine.state.temp", "RunResults.temperature"],
  "bounded exhaustive exploration over configurations and component laws; fixed point recomputed with a reference model on every result",
  "model_checking",
  "Exhaustive within k deviations, including one law per quantity shown to a component; agreement demanded within the outer tolerances."),
P("C06", "Reported averages and extremes are those of the reported cycle",
  "The average, maximum, minimum and initial pressure, the average mass and heat flows and the temperatures in the results describe the very cycle that the results contain. Heat exchanged by the working spaces with their walls is included in the heat flows of the cold and hot heat exchangers.",
  ["configurations"],
  "every configurable engine and resolution",
  "No unit test compares a summary with the series it summarizes.",
  [STATE, API, ENGINE],
  [("averages over the cycle", STATE + " from_values"), ("assembly of results", API)],
  ["Engine.state", "RunResults"],
  "bounded exhaustive exploration; every summary recomputed from the reported states by a reference model",
  "model_checking",
  "Exhaustive within k deviations of three base engines, and components whose behaviour depends on their state; recomputed with trapezoidal averages at 1e-11."),
P("C07", "Pressures, powers and torque follow from the reported cycle",
  "Working space pressures differ from the engine pressure by half the total flow resistance each, with the sign of the flow. Indicated, shaft and net power and the torque are the cycle work, with and without pressure drops, minus the mechanical losses of the components they pass, each counted once.",
  ["configurations"],
  "every configurable engine, hydraulic resistance and parasitic loss of each component, and resolution",
  "No unit test exercises performance; the arithmetic is reached by no test at all.",
  [PERF, API, "src/ws.rs"],
  [("pressure drops", PERF + " PressuresWithDrops"), ("powers", PERF + " Powers")],
  ["RunResults.power", "RunResults.values.P_c, P_e", "RunResults.shaft_torque"],
  "bounded exhaustive exploration over configurations and loss parameters; powers recomputed from the reported states and independent kinematics",
  "model_checking",
  "Exhaustive within k deviations, with all loss parameters as deviation fields and losses that depend on the state; equality at 1e-10 of the gross piston work."),
P("C08", "Heat accounts balance and efficiency is net power over heat input",
  "Heat input and rejection are the heat flows of the reported cycle plus the components' thermal losses, friction and pumping heat, each counted once. Over a cycle the gas gains no energy: heat input minus rejection equals shaft power plus regenerator heat, and the efficiency is net power divided by heat input.",
  ["configurations"],
  "every configurable engine and loss parameter",
  "No unit test exercises performance or an energy balance over a cycle.",
  [PERF, STATE, API],
  [("heat accounts", PERF + " Heats"), ("wall heat transfer", RUN + " comp_inputs, exp_inputs")],
  ["RunResults.heat_flow", "RunResults.efficiency"],
  "bounded exhaustive exploration; heat accounts recomputed from the reported states, first law evaluated on fine time grids",
  "model_checking",
  "Exhaustive within k deviations; accounts at 1e-10, first law at 1e-3 of the gross heat flow. Recorded finding for the built-in hydrogen."),
P("C09", "Drive volumes, rates and extremes are kinematically exact",
  "For every geometry, the volumes that a drive reports are those of its linkage at that crank angle, their rates are the time derivatives of the volumes, and both repeat with the engine's period. The smallest volume of each space is its clearance volume.",
  ["configurations", "inputs"],
  "every sinusoidal and rhombic geometry that can turn, every frequency and phase angle, every crank position",
  "Tests compare a drive with stored numbers for default parameters at a few times.",
  ["src/ws/sinusoidal_drive.rs", "src/ws/rhombic_drive.rs", "src/ws.rs"],
  [("sinusoidal kinematics", "src/ws/sinusoidal_drive.rs volumes"), ("rhombic kinematics", "src/ws/rhombic_drive.rs volumes")],
  ["WorkingSpaces::volumes, frequency, thermal_resistance, parasitics"],
  "exhaustive enumeration of a lattice of geometries and crank positions against an independent crank model",
  "model_checking",
  "Complete lattice of geometries x crank positions; built through the API and through configurations."),
P("C10", "Gas properties and their derivatives belong together",
  "For every built-in gas, density follows the gas law with the gas's own constant, heat capacity has its physical value, and each partial derivative is the derivative of the density or internal energy that the same gas reports. Enthalpy changes with temperature as the heat capacity says.",
  ["inputs"],
  "every temperature and pressure in the range of operation, for every built-in gas",
  "Tests compare with stored numbers at a few temperatures and never relate two properties.",
  ["src/fluid/ideal_gas.rs", "src/fluid.rs"],
  [("polynomial gas model", "src/fluid/ideal_gas.rs")],
  ["Fluid methods of IdealGas"],
  "exhaustive enumeration of a temperature-pressure lattice; each derivative compared with difference quotients and an independent gas model",
  "model_checking",
  "Complete lattice; recorded finding for the enthalpy of hydrogen (any other deviation is still reported)."),
P("C11", "Enthalpy exceeds internal energy by the flow work",
  "For every gas, temperature and pressure, enthalpy minus internal energy equals pressure divided by density. Otherwise energy would appear or vanish whenever gas moves between spaces.",
  ["inputs"],
  "every temperature and pressure in the range of operation, for every built-in gas",
  "Tests compare enthalpy and internal energy with stored numbers separately.",
  ["src/fluid/ideal_gas.rs"],
  [("internal energy", "src/fluid/ideal_gas.rs inte")],
  ["Fluid::enth, inte, dens of IdealGas"],
  "exhaustive enumeration of a temperature-pressure lattice against the thermodynamic identity",
  "model_checking",
  "Complete lattice; the recorded finding is the constant offset R*Tref, any other deviation is still reported."),
P("C12", "A configuration builds exactly the engine it describes",
  "Running a configuration gives the results of the engine assembled from the same numbers through the programming interface: every entry reaches the one parameter it names, and no other. Configurations with missing or misspelled entries, or with text in place of a number, are rejected rather than completed by guesses.",
  ["configurations", "inputs"],
  "every supported component, every entry of a configuration and pairs of entries, and every single damage to one",
  "Tests deserialize one example whose entries are mostly defaults and zeros, so swapped entries are invisible, and they never run a configuration.",
  ["src/config.rs", ENGINE, API, "src/types.rs", "src/lib.rs", "src/chx.rs", "src/hhx.rs", "src/regen.rs", "src/ws.rs"],
  [("conversion of configurations to components", ENGINE + " From<ComponentsConfig>"), ("solver and condition settings", "src/types.rs")],
  ["run_engine", "run_from_config output", "Config deserialization"],
  "exhaustive enumeration of configurations within two deviations and of all single damages; differential against engines assembled through the API",
  "model_checking",
  "Every field of every supported component, alone and in pairs; results must be equal bit for bit up to 1e-12."),
P("C13", "Results do not depend on the matrix decomposition",
  "An engine run with any of the offered matrix decompositions gives the same results within the requested accuracy. Where one of them finds a solution, so do the others.",
  ["configurations"],
  "every configurable engine and every offered decomposition",
  "The tests solve one stored, well-scaled system with each decomposition.",
  [SOLVER, ENGINE],
  [("LU, QR and SVD solution of the state equations", SOLVER)],
  ["Engine::run with LuSolver, QrSolver, SvdDefaultSolver"],
  "differential exploration of the configuration space with every decomposition",
  "model_checking",
  "All pairs of decompositions on every explored engine and on a lattice of engine sizes; results compared within the run's tolerances."),
P("C14", "Runs are deterministic and isolated from each other",
  "The result of a run depends on its arguments only: not on runs before it, on runs that failed, or on runs that take place at the same time in other threads. Equal arguments give results that are equal bit for bit.",
  ["schedules", "histories"],
  "every sequence of runs, and every interleaving of concurrent runs",
  "Tests run each engine once; nothing is repeated, sequenced or interleaved under control.",
  [ENGINE, INTEG, SOLVER, RUN, "src/lib.rs"],
  [("no shared state: everything is owned by the run", ENGINE), ("flow direction memory local to an integration", INTEG)],
  ["Engine::run from several threads", "RunResults"],
  "stateless exploration: all run sequences up to a length and all interleavings of two concurrent runs up to a preemption bound, under a controlled scheduler",
  "model_checking",
  "Scheduling points are the environment callbacks (fluid and drive); all schedules with up to two preemptions, all sequences up to length three."),
P("C15", "Failures are reported as errors, never as crashes, hangs or non-numbers",
  "Whatever goes wrong during a run of supported models (wrong numbers from a gas, drive or heat exchanger, unsolvable equations, impossible conditions or settings) it ends, and it ends with an error or with results that are finite numbers. It neither crashes nor goes on forever nor returns a result that contains a non-number; only the efficiency of an engine without heat input is undefined.",
  ["fault_sequences", "inputs"],
  "a fault of any kind at any single call to the gas, drive or heat exchangers, transient or persistent, and every extreme value of every setting",
  "Tests only run one well-behaved engine.",
  [ENGINE, CYCLE, INTEG, SOLVER, STATE],
  [("errors of the state equations", SOLVER + " solve"), ("errors of the integration", INTEG), ("iteration limits", CYCLE)],
  ["Engine::run return value", "run_engine return value"],
  "exhaustive fault enumeration: every environment call of bounded runs x every fault kind x transient/persistent, plus all extreme settings and pairs",
  "fault_enumeration",
  "Every call index of bounded runs is faulted; a watchdog turns hangs into violations."),
P("C16", "Results obey the similarity and symmetry laws of the equations",
  "Expressing an engine in other units of pressure, mass or temperature, or scaling its speed, size or charge together with the quantities that belong to them, changes every result by exactly the factor that the equations give. The choice of energy zero and of crank origin changes nothing, and the mirror image of an engine, with cold and hot sides exchanged, has mirrored results.",
  ["configurations"],
  "every configurable engine and every scale factor, shift and reflection",
  "Existing tests compare single engines with stored numbers; none relates two runs.",
  [RUN, SOLVER, STATE, PERF],
  [("scaling of every term of the balances", SOLVER), ("normalization of the energy balances", RUN)],
  ["RunResults of pairs of runs"],
  "exhaustive differential exploration: every engine within the deviation bound x every similarity or symmetry transformation",
  "model_checking",
  "Metamorphic relations on all explored engines; exactness judged at the accuracy of the integration."),
P("C17", "Heat exchanger components satisfy their heat balance",
  "The approach temperature of a fixed-conductance cold or hot heat exchanger is the one at which conductance times log-mean temperature difference equals the heat flow; that of a regenerator balances the gas's and the matrix's heat. A fixed approach is constant; volume, hydraulic resistance and losses are those the component was given.",
  ["inputs", "configurations"],
  "every component, conductance, capacity rate, heat flow of either sign and temperature",
  "Tests check one or two stored states.",
  ["src/chx/fixed_conductance.rs", "src/chx/fixed_approach.rs", "src/hhx/fixed_conductance.rs", "src/hhx/fixed_approach.rs", "src/regen/fixed_conductance.rs", "src/regen/fixed_approach.rs"],
  [("log-mean and effectiveness relations", "src/*/fixed_conductance.rs approach")],
  ["approach, volume, hydraulic_resistance, parasitics, initial_approach"],
  "exhaustive enumeration of a lattice of heat exchanger states against the heat balance",
  "model_checking",
  "Complete lattice, components built through the API and through configurations."),
P("C18", "Regenerator temperatures form a consistent profile",
  "The cold and hot ends of the regenerator lie one approach away from the neighbouring heat exchangers, and its average temperature is the log mean of the profile. The average lies between the ends and is finite and continuous everywhere, including where both ends are equal or exchange places.",
  ["inputs"],
  "every sink and source temperature and every combination of approaches, including equal ends",
  "Tests check two balanced profiles far away from the singular point.",
  [STATE],
  [("profile from approach and imbalance", STATE + " RegenImbalance::regen_temp")],
  ["RunResults.temperature"],
  "exhaustive enumeration of a temperature lattice including the singular set, each run on the implementation",
  "model_checking",
  "Complete lattice; log mean by an independent series near the singular point."),
P("C19", "The operating point is independent of the initial guess and correct",
  "The operating point that a run converges to does not depend on where the iteration of the approach temperatures starts. It agrees, within the tolerances, with the cyclic steady state found by an independent solution of the same engine.",
  ["configurations"],
  "every configurable engine and every initial guess of the three approaches",
  "No test has a second starting point or an independent solution.",
  [ENGINE, STATE, CYCLE],
  [("initial state", STATE + " State::new_hint"), ("outer iteration", ENGINE)],
  ["Engine.state, Engine.values"],
  "exhaustive exploration of configurations x initial guesses; results compared with each other and with a reference engine",
  "model_checking",
  "All explored engines x all guesses on a lattice; compared at the size of the loop tolerances, with an independently written engine as oracle."),
P("C20", "The time grid is complete and uniform",
  "A cycle is reported at exactly the requested number of equally spaced instants, from time zero to one full period of the drive, and all series have that length. The values at an instant do not depend on how many other instants were requested.",
  ["configurations", "inputs"],
  "every resolution, every frequency, every engine",
  "Tests check the number of points for one resolution and period; rounding drops points for others.",
  [INTEG, ENGINE, RUN],
  [("dense output of the integrator", INTEG + " try_from")],
  ["RunResults.values"],
  "exhaustive enumeration of resolutions and frequencies, and of all explored engines",
  "model_checking",
  "All resolutions up to a bound for several frequencies, and all explored engines. Includes drives whose frequency and resistances depend on the pressure."),
P("C21", "Configuration formats are equivalent, including the legacy format",
  "The same configuration written in any supported format yields the same engine. A legacy configuration yields the engine that its entries describe in the current format, with the documented defaults for settings that it cannot express; unknown models, gases and settings are rejected.",
  ["configurations", "inputs"],
  "every supported component and every entry of a legacy configuration, alone and in pairs, in every format",
  "Tests convert one legacy example whose entries are mostly zeros or equal to each other.",
  ["src/config.rs", "src/types.rs", "src/fluid.rs", "src/ws.rs", "src/chx.rs", "src/hhx.rs", "src/regen.rs"],
  [("conversion of legacy configurations", "src/config.rs From<Legacy>")],
  ["Config, Legacy deserialization and conversion"],
  "exhaustive enumeration of configurations within two deviations in every format, compared for equality",
  "model_checking",
  "Every field of every supported component alone and in pairs, in TOML, JSON and YAML."),
P("C22", "Only models that exist give results",
  "A configuration may name gas, heat exchanger, regenerator and drive models that cannot be run yet. Running an engine that contains such a model, alone or together with others, through either entry point, never gives a result: no other model silently takes its place. Every combination of models that exist gives a result, also after runs that could not take place.",
  ["configurations"],
  "every combination of the gas, drive, heat exchanger and regenerator models that a configuration can name",
  "Tests run one combination of models that exist; no test runs a model that does not.",
  ["src/api.rs", "src/lib.rs", ENGINE, "src/chx.rs", "src/hhx.rs", "src/regen.rs", "src/ws.rs"],
  [("choice of the gas model", "src/api.rs run_engine; src/lib.rs run_from_config"), ("choice of the component models", ENGINE + " From<ComponentsConfig>")],
  ["run_engine", "run_from_config"],
  "exhaustive enumeration of all combinations of configurable models, each run on the implementation",
  "model_checking",
  "Complete product of the models, including every material and correlation that they can be configured with."),
P("C23", "Components are shown the true state of the engine",
  "In every iteration the heat exchangers are asked in exactly the state that the engine is in: the temperatures that follow from their last answers, average pressure, mass flow and heat flow of the cycle at these temperatures, and density and specific heat of the gas there. The drive is asked with the pressures of the cycle before, at first with the starting pressure. Hydraulic resistance and losses are asked for in the state of the cycle that is reported.",
  ["histories", "configurations"],
  "every iteration of every engine, whatever the components answer",
  "Tests only use components that ignore the state they are shown.",
  [ENGINE, STATE, RUN, PERF],
  [("state shown to components", STATE + " ws, chx, regen, hhx"), ("update between iterations", STATE + " update")],
  ["arguments of the component traits' functions"],
  "stateful exploration of iteration histories: every component is monitored, each outer iteration is replayed by an engine with constant components",
  "model_checking",
  "All iterations of all explored engines, with heat exchanger laws and drives that depend on each quantity they are shown."),
]

NOT_APPLICABLE = []

def main():
    claimed = [p for p in PROPS if len(sys.argv) < 2 or p["id"] in sys.argv[1].split(",")]
    with open(f"{ROOT}/properties.jsonl", "w") as f:
        for p in PROPS:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "state": p["state"],
                            "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                            "observe_at": p["observe"], "hook_needed": None},
            }, ensure_ascii=False) + "\n")
    m = {
        "version": 1,
        "setup_cmd": "./run.sh --build",
        "checks": [{
            "property": p["id"],
            "quick_cmd": f"./run.sh {p['id']}",
            "thorough_cmd": f"VERIF_TIER=thorough ./run.sh {p['id']}",
            "evidence_file": f"evidence/{p['id']}.json",
            "technique": p["technique"], "level": p["level"], "level_note": p["note"],
        } for p in claimed],
        "not_applicable": [{"property": a, "reason": b} for a, b in NOT_APPLICABLE]
          + [{"property": p["id"], "reason": "check under construction"} for p in PROPS if p not in claimed],
        "notes": "No hooks in /repo: the checks use its public API only. Known findings and fixes are in known_findings.txt.",
    }
    json.dump(m, open(f"{ROOT}/MANIFEST.json", "w"), indent=1)

main()
