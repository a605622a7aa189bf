prop("C08", "Sparse transition matrices behave as the dense matrices they hold",
     "A sparse set of transition matrices built from its transitions in any "
     "order shows, by indexing (cyclic in time), iterating, assigning and "
     "saving then loading, exactly the dense matrices it holds. Sampling new "
     "states follows at each time the row of each given state, independently "
     "between households and without changing the given states; states "
     "without any transition are first moved to the assigned dead-state "
     "value. Inputs of mismatching sizes are refused.",
     ["inputs", "histories"],
     "all sizes, densities, transition orders, assignments and states",
     "Tests only build one matrix with a single transition and never sample.",
     [U + "sparse.py"],
     [("SparseTPM", U + "sparse.py")],
     ["SparseTPM indexing and sparse_monte_carlo"],
     "model-based Hypothesis PBT against dense matrices plus G-tests")

prop("C09", "First-order Markov simulators follow their transition matrices",
     "Each household starts in a state drawn from the given starting "
     "distribution and at each step moves independently of the others to a "
     "state drawn from the row of its current state in the matrix of that "
     "step, matrices being used cyclically, initialization steps included. "
     "Labels and counts per activity reported after any step are those of "
     "the reached states. Malformed matrices, labels or distributions are "
     "refused.",
     ["inputs", "histories"],
     "all matrices (incl. deterministic, absorbing, impossible rows), labels, "
     "starting distributions, initialization offsets and run lengths",
     "Tests check shapes and one-state chains, never the order in which the "
     "matrices are used or the frequencies.",
     [S + "activity_simulators.py"],
     [("MarkovChain1rstOrder", S + "activity_simulators.py")],
     ["current_states", "get_n_doing_activity"],
     "Hypothesis PBT: exact oracle on one-hot matrices, G-tests on marginals")

prop("C10", "Semi-Markov simulators hold each state for its drawn duration",
     "Each household stays in the state it entered for exactly the duration "
     "drawn from the duration distribution of that entry, then moves to a "
     "state drawn from the transition matrix of that time. Entry, duration "
     "and transition all use the time of the day at which the state is "
     "entered, cyclically, from the initialization on.",
     ["inputs", "histories"],
     "all transition and duration distributions (with or without dependence "
     "on the previous state), initialization offsets and run lengths",
     "Tests run the simulators on shipped data and only check shapes.",
     [S + "activity_simulators.py"],
     [("SemiMarkovSimulator", S + "activity_simulators.py")],
     ["current_states", "get_n_doing_activity"],
     "Hypothesis PBT: exact oracle on one-hot data, G-tests on random data")

prop("C11", "Households are made of their individually simulated residents",
     "In households simulated resident by resident, each resident follows the "
     "chain of his own subgroup (derived from household type and number, and "
     "from the current day type and quarter where asked), independently of "
     "the others. At every step the number of residents doing an activity "
     "sums over all activities to the size of the household, occupants are "
     "the residents not away, active occupants those also not sleeping, "
     "whatever the order of labels in the data, activities that only some "
     "residents or days have, the mix of subgroups and empty subgroups.",
     ["inputs", "histories", "configurations"],
     "all lists of subgroups with all household types, counts, data label "
     "orders, start times, day types and both chain kinds",
     "Tests use a handful of subgroups with shipped data and check shapes; "
     "attribution of residents to households or days is not observable there.",
     [S + "activity_simulators.py", U + "subgroup_handling.py"],
     [("SubgroupsIndividualsActivitySimulator",
       S + "activity_simulators.py")],
     ["get_n_doing_activity", "get_occupancy", "get_active_occupancy"],
     "differential Hypothesis PBT against a resident-by-resident model")

prop("C12", "Whole-household occupancy follows the model of its household type",
     "Households simulated as a whole move between the states of their own "
     "subgroup's model (household size, day type and quarter where asked) and "
     "never into a state that model does not allow at that time. When the day "
     "changes the new day's model applies from that step on and a household "
     "keeps its state label, falling to the first state only if the label no "
     "longer exists. Occupancy, active occupancy and activity counts always "
     "agree with the state label and never exceed the number of residents.",
     ["inputs", "histories", "configurations"],
     "all lists of household types and counts, label orders, matrices with "
     "dead ends, start times, step counts and day types",
     "Tests run shipped data for a few steps from one start and check shapes; "
     "the model of each type and day cannot be told apart there.",
     [S + "sparse_simulators.py", S + "crest_simulators.py"],
     [("SparseTransitStatesSimulator", S + "sparse_simulators.py"),
      ("Crest4StatesModel", S + "crest_simulators.py")],
     ["get_occupancy", "get_active_occupancy", "current_states"],
     "differential Hypothesis PBT against a household-by-household model")

prop("C13", "A sampled population follows the given distribution of subgroups",
     "Sampling a population returns one non-negative integer count per "
     "subgroup that sums exactly to the requested number of households, is "
     "zero for subgroups of probability zero and leaves its inputs alone. The "
     "deterministic method stays within rounding of the expected counts, the "
     "random method has the multinomial distribution. Distributions that do "
     "not sum to one, wrong sizes and unknown methods are refused.",
     ["inputs", "configurations"],
     "all subgroup distributions (with zeros, rounding errors, one subgroup) "
     "and numbers of households",
     "Tests sample one distribution and number; rounding failures depend on "
     "the cumulated distribution.",
     [S + "util.py", S + "crest_simulators.py"],
     [("sample_population", S + "util.py")],
     ["sample_population", "subgroup_list"],
     "Hypothesis PBT: exact-sum and rounding-band oracle, G-tests")

prop("C14", "State pattern metrics agree with the durations in the patterns",
     "Durations extracted from state patterns are the cyclic runs of each "
     "pattern with their state, one per run, so they add up to the size of the "
     "patterns and do not depend on where a pattern is cut. The errors in "
     "average state and in duration distribution compare exactly these "
     "between two sets for every state present in either, are symmetric and "
     "vanish for the same patterns. Counts, sparsity and graph metrics "
     "describe the observed states and transitions and ignore the order of "
     "subjects and the naming of states.",
     ["inputs"],
     "all integer, real or text state patterns, incl. constant patterns, "
     "states wrapping over the end, one row or one time, and states missing "
     "in one of two sets",
     "Tests use one or two hand-made patterns; wrong durations depend on how "
     "runs of neighbouring rows and the ends of rows meet.",
     [M + "states.py"],
     [("get_states_durations", M + "states.py"),
      ("state_duration_distribution_metric", M + "states.py")],
     ["get_states_durations", "graph_metrics"],
     "Hypothesis PBT against a pure-Python run-length reference")

prop("C15", "Transition models are the frequencies counted in the diaries",
     "The transitions extracted from diaries are exactly the changes of state "
     "of each person at their time, with the length until that person's next "
     "change, also when two simultaneous activities or whole households are "
     "grouped. The Markov and semi-Markov models estimated from diaries are "
     "the relative frequencies of these transitions and durations, always "
     "valid distributions, with never-seen states staying as they are. The "
     "given diaries and counts are not modified.",
     ["inputs", "configurations"],
     "all diaries, with and without transitions over the end of the day, with "
     "secondary activities, unvisited states and merged labels",
     "Tests check small hand-made diaries; wrong attribution of persons, "
     "times or durations needs particular combinations of diaries.",
     [U + "parse_helpers.py"],
     [("states_to_transitions", U + "parse_helpers.py"),
      ("states_to_tpms_with_durations", U + "parse_helpers.py")],
     ["states_to_transitions", "states_to_tpms"],
     "Hypothesis PBT against a pure-Python counting reference")

prop("C16", "Load metrics equal their textbook definitions",
     "For every set of load profiles the energy, similarity, variety, "
     "diversity, coincidence, coincident demand, load duration, distribution "
     "of demand changes and root mean square error equal their definitions, "
     "for any step size, thresholds or bins. Metrics that summarize a group "
     "do not depend on the order of profiles, ratios do not depend on the "
     "unit of power, and bins that do not cover the data are refused. The "
     "given profiles are never modified.",
     ["inputs", "configurations"],
     "all non-empty real or integer profiles (1-D where documented), step "
     "sizes, thresholds, bin counts and edges, incl. constant profiles",
     "Tests evaluate a few fixed profiles; errors at ties with thresholds or "
     "edges, constant or single profiles stay unseen.",
     [M + "loads.py", M + "errors.py", U + "converters.py"],
     [("cumulative_changes_in_demand", M + "loads.py"),
      ("load_duration", M + "loads.py")],
     ["diversity_factor", "load_duration"],
     "Hypothesis PBT against pure-Python definitions, metamorphic relations")

prop("C17", "Subgroups keep a consistent order, unique keys, persons and time",
     "Subgroups are totally ordered as documented (number of keys, then keys, "
     "then values), so that sorting and counting group exactly the equal ones, "
     "and their text keys are equal exactly for equal subgroups. A household "
     "subgroup splits into one person subgroup per resident with the positions "
     "of its household type. Adding time gives the day type and quarter of the "
     "given date for the chosen split, replaces any older ones, and refuses "
     "two splits at once, whatever the other keys.",
     ["inputs", "configurations"],
     "all subgroups over the documented keys and values, household types and "
     "sizes, dates (with time zones) and splits of the week",
     "Tests use a few subgroups of one kind; inconsistent orders or keys need "
     "particular pairs of subgroups.",
     [U + "subgroup_handling.py"],
     [("Subgroup", U + "subgroup_handling.py"),
      ("add_time", U + "subgroup_handling.py")],
     ["subgroup_string", "add_time", "subgroup_households_to_persons"],
     "Hypothesis PBT against a reference order and calendar")


prop("C18", "Households own appliances as their subgroup's data says",
     "Households own each appliance independently with the probability of the "
     "data: the common one, or that of their subgroup, found by the type or "
     "closest parent type and the count of appliances of that type; with a "
     "set per subgroup they own exactly that set. Splitting an average number "
     "owned gives probabilities within 0 and 1 adding up to that number, and "
     "merging two appliance lists keeps every appliance and common field. "
     "Mismatching subgroups, sets or algorithms are refused.",
     ["inputs", "configurations"],
     "all appliance types with any parents and repetitions, probability "
     "tables, averages, subgroup sizes and sets of appliances",
     "Tests use shipped tables and one set; attribution of probabilities to "
     "repeated or parent types and to subgroups is not compared.",
     [U + "appliances.py", S + "appliance_simulators.py"],
     [("get_ownership_from_dict", U + "appliances.py"),
      ("sample_available_appliances", S + "appliance_simulators.py")],
     ["available_appliances", "get_ownership_from_dict"],
     "Hypothesis PBT against reference tables, G-tests of frequencies")

prop("C22", "Consumption of appliances follows from their use",
     "At every step an owned appliance consumes its stand-by power when off, "
     "its mean power when on, or, if it has a load profile, the successive "
     "values of one profile of its type from the moment it starts, always the "
     "same profile; appliances nobody owns consume nothing and are never "
     "used. Household power, heat gains, water use and hot water heat are the "
     "sums over its appliances. Unknown or unavailable load profile methods "
     "are refused.",
     ["inputs", "histories", "configurations"],
     "all appliance sets, ownership, load profiles of all lengths, kinds of "
     "appliance simulation and histories of occupancy or activities",
     "Tests check shapes of the results for shipped appliances; nothing "
     "relates power to usage or to positions in a load profile.",
     [S + "appliance_simulators.py"],
     [("AppliancesSimulator", S + "appliance_simulators.py")],
     ["get_current_power_consumptions", "get_power_demand",
      "get_dhw_heating_demand"],
     "Hypothesis PBT with a consistency oracle over whole histories")

prop("C23", "Occupancy-driven appliances run full cycles at the right rates",
     "An available appliance is switched on with its switch-on probability "
     "times the probability of its activity for the household's subgroup, day "
     "type, ten-minute slot and number of active occupants; it then stays on "
     "for its whole duration (its mean, its load profile or the volume drawn "
     "for water) and cannot restart before its delay is over. Appliances that "
     "need occupants go off as soon as nobody is active. The run-in from the "
     "start of the day follows the same rules and inputs stay unchanged.",
     ["inputs", "histories", "configurations"],
     "all appliance sets, activity profiles, subgroups, start times, day "
     "changes, occupancy histories and delays",
     "Tests run shipped appliances with random numbers and check shapes; "
     "cycle lengths, slots and days are never compared.",
     [S + "appliance_simulators.py"],
     [("OccupancyApplianceSimulator", S + "appliance_simulators.py")],
     ["get_current_usage", "get_current_water_consumptions"],
     "model-based Hypothesis PBT with 0/1 probabilities, G-tests of rates")

prop("C24", "Activity-driven appliances are on exactly while used",
     "An appliance whose activity starts in a household is on from that step; "
     "one that switches off when inactive is on exactly while somebody does "
     "the activity, and permanently used appliances are always on. Its load "
     "profile starts over whenever the activity starts and repeats while it "
     "lasts; permanently used ones repeat theirs from any point. Appliances "
     "of other activities or used at random are left out, and the given "
     "activities are not changed.",
     ["inputs", "histories", "configurations"],
     "all appliance sets, activity histories, ownership and load profiles",
     "Tests step once or twice with shipped appliances and check shapes.",
     [S + "appliance_simulators.py"],
     [("ActivityApplianceSimulator", S + "appliance_simulators.py")],
     ["get_current_usage", "get_current_power_consumptions"],
     "model-based Hypothesis PBT over activity histories")

prop("C33", "Random appliance uses reach their yearly targets and conditions",
     "An idle appliance starts at each step of its activity with the "
     "probability that reaches the yearly target of its subgroup, or, if it "
     "follows an activity or another appliance, only when those end; it runs "
     "for its whole duration unless it switches off when its activity stops. "
     "Households and appliances they do not own never interfere, and the "
     "probabilities do not depend on the order of activities or on results "
     "having been read.",
     ["inputs", "histories", "configurations"],
     "all appliance sets with any followers, targets, activity statistics, "
     "subgroups and activity histories",
     "Tests run shipped data for few steps; which event started an appliance "
     "and how often is never observed.",
     [S + "appliance_simulators.py"],
     [("ProbabiliticActivityAppliancesSimulator",
       S + "appliance_simulators.py")],
     ["get_current_usage", "get_current_power_consumptions"],
     "model-based Hypothesis PBT with 0/1 probabilities, formula oracle and "
     "G-tests")

prop("C25", "Lighting follows presence, daylight and the bulbs installed",
     "Lights are off whenever nobody is active, start only as often as the "
     "number of active occupants, the bulb's own use, the calibration and "
     "the household's daylight threshold allow, and stay on for a duration "
     "drawn from the given intervals unless everybody leaves. The demand and "
     "heat gain of a household are the sum of its lit bulbs, which are drawn "
     "from the given configurations or statistics; the simple model gives "
     "the documented share of the power per active person.",
     ["inputs", "histories", "configurations"],
     "all bulb sets, duration intervals, thresholds, occupancy and "
     "irradiance histories",
     "Tests only step shipped data and check shapes; rates, durations and "
     "the record kept of each step are not observed.",
     [S + "lighting_simulators.py"],
     [("CrestLightingSimulator.step", S + "lighting_simulators.py"),
      ("FisherLightingSimulator", S + "lighting_simulators.py")],
     ["get_power_demand", "get_thermal_gains", "get_power_consumption"],
     "model-based Hypothesis PBT with certain/impossible switch-ons, G-tests "
     "of rates and durations")

prop("C26", "Building temperatures obey the heat balance of the house",
     "At each step the temperatures of walls, room, emitters and hot water "
     "cylinder change by exactly the heat exchanged with their neighbours, "
     "the outside, the sun, the gains, the heating and the hot water drawn, "
     "divided by their capacity, for any step size and building type. No "
     "heat appears or is lost, inputs are unchanged and temperatures read "
     "earlier keep their values. Initial temperatures lie around the targets "
     "and building types follow the given shares.",
     ["inputs", "histories", "configurations"],
     "all building and system parameters, step sizes, weather, gains, heat "
     "outputs and water draws",
     "Tests step a building once and compare no numbers; the balance must "
     "hold for every parameter and history.",
     [S + "heating_simulators.py"],
     [("BuildingThermalDynamics.step", S + "heating_simulators.py")],
     ["get_temperatures"],
     "Hypothesis PBT against an independent heat balance, energy "
     "conservation and equilibrium relations")

prop("C27", "Thermostats and heating controls switch as documented",
     "A thermostat that is on stays on until its temperature reaches the "
     "target plus the dead band, one that is off starts only at the target "
     "minus the dead band, for the targets set last. The heater is on for "
     "hot water (on demand with combi boilers and external cylinders, by "
     "thermostat otherwise) or for space heating, which needs room and "
     "emitter thermostats. Variable set points follow the documented pattern "
     "of their household on each arrival, departure, sleep, waking and time "
     "of the day.",
     ["inputs", "histories", "configurations"],
     "all histories of temperatures, target changes, demands, occupancies "
     "and all set point patterns",
     "Hysteresis and patterns depend on the history; tests check single "
     "steps.",
     [S + "heating_simulators.py"],
     [("Thermostats.step", S + "heating_simulators.py"),
      ("SystemControls.step", S + "heating_simulators.py"),
      ("VariableThermostatTemperatureSimulator",
       S + "heating_simulators.py")],
     ["get_thermostat_states", "get_controls", "get_thermostat_temperatures"],
     "model-based Hypothesis PBT over histories, G-tests of the random "
     "choices")

prop("C28", "Heating delivers the heat demanded within its capacity",
     "The demanded heat is the one that brings hot water and emitters (or "
     "room) to the end of their dead band in one step of any size; the "
     "heating system delivers it up to its capacity, hot water first, and "
     "consumes electricity and fuel in proportion. In the complete heating "
     "simulation every step combines thermostats, controls, demand, system "
     "and building this way; external targets, heat outputs and cylinder "
     "temperatures replace the simulated ones exactly for the households "
     "that give them, which then use no power of their own.",
     ["inputs", "histories", "configurations"],
     "all systems, buildings, step sizes, algorithms, weather, demands and "
     "external inputs given to some of the households",
     "Tests run few steps with shipped data; mixes of external inputs, "
     "other step sizes and capacity limits are not sampled.",
     [S + "heating_simulators.py", S + "util.py"],
     [("HeatDemand", S + "heating_simulators.py"),
      ("HeatingSystem", S + "heating_simulators.py"),
      ("FiveModulesHeatingSimulator.step", S + "heating_simulators.py")],
     ["get_heat_demand", "get_heat_outputs", "get_power_demand",
      "get_fuel_consumptions", "get_temperatures"],
     "model-based Hypothesis PBT against an independent model of the whole "
     "heating chain")

prop("C29", "The complete load simulation combines its parts consistently",
     "Each one-minute step of the complete simulation moves climate, "
     "appliances, lighting and heating exactly once and activities once "
     "every ten minutes, and gives each part the current values of the "
     "others or the external values given for them; all parts use the data "
     "set given. Its power demand is the "
     "sum of the demands of its parts for the same household, its heat "
     "demands and temperatures are those of the heating part, whole, for one "
     "household and in the log. A simulation without any climate refuses "
     "steps that do not give one.",
     ["inputs", "histories", "configurations"],
     "all numbers of households, start datetimes, selections of parts, "
     "external inputs and run lengths",
     "Tests run the complete simulation for a few steps in one "
     "configuration and compare no part with another.",
     [S + "load_simulators.py"],
     [("LoadSimulator.step", S + "load_simulators.py")],
     ["get_power_demand", "get_total_heat_demand", "get_temperatures",
      "SimLogger.get"],
     "Hypothesis PBT over histories with recorded inputs of the parts and a "
     "sum oracle")

prop("C19", "Datasets return the same data however often they are loaded",
     "What a dataset returns the first time, computed from its raw data, is "
     "returned unchanged by all the later loads, from the same or other "
     "loader objects and whatever users did with what was returned before, "
     "without computing it again. Data of different versions, activity "
     "types, subgroups (time attributes apart where they do not matter), "
     "population or profile types, countries and weightings are never taken "
     "for one another. A computation that fails leaves nothing behind, and "
     "clearing a version clears that version only, all of them only once "
     "confirmed.",
     ["histories", "inputs", "configurations"],
     "all kinds of data of the base loaders with generated contents, and all "
     "orders of loads, failures and clearings over versions and subgroups",
     "Tests load shipped data once; whether the data was computed or read "
     "back, and for whom, cannot be seen there.",
     [D + "base_loader.py", D + "tou_loader.py", D + "CREST/loader.py",
      D + "RenewablesNinja/loader.py", U + "parse_helpers.py",
      U + "subgroup_handling.py"],
     [("DatasetLoader.load_*", D + "base_loader.py"),
      ("LoaderTOU.load_*", D + "tou_loader.py")],
     ["load_* methods"],
     "model-based stateful PBT of loads with generated parsers")

prop("C32", "Raw data are downloaded when missing and used only if complete",
     "Creating or using a dataset whose raw data are missing downloads them "
     "once, from an address of the asked country, weighting or version, and "
     "then uses what was downloaded without asking the network again until "
     "an update is asked, or its parsed data alone are cleared, after which "
     "the new data are the ones loaded. A "
     "download that fails, at the start or part-way, is reported, is never "
     "taken for the complete data and is tried again next time; a failed "
     "climate update leaves the previous data usable.",
     ["fault_sequences", "histories"],
     "all sequences of creations, updates and loads with failures of the "
     "connection before or after any part of the file",
     "Tests never download: without network they fail, and with one they "
     "never see a failure.",
     [D + "RenewablesNinja/loader.py", D + "CREST/loader.py",
      D + "tracebase/loader.py", D + "Germany/loader.py",
      D + "DESTATIS/loader.py", D + "GermanTOU/loader.py"],
     [("_check_download_raw_file", D + "RenewablesNinja/loader.py"),
      ("Crest", D + "CREST/loader.py")],
     ["raw files and loaded data after each step"],
     "stateful PBT with a fake network injecting faults")

prop("C20", "Recorded climates give the values of the simulated time",
     "A recorded climate is given from the last recorded point at or before "
     "the asked start to its end, with all its quantities, in whatever time "
     "zone the start is told. Simulated step by step it gives at each time "
     "the values recorded for that time, and interpolated it gives the "
     "interpolation of all the recorded points at exactly that time, however "
     "small the step. A start or a step out of the recorded period is "
     "refused rather than answered.",
     ["inputs", "histories", "configurations"],
     "all recorded series (regular or with gaps), starts, step sizes, time "
     "zones, interpolation kinds and run lengths",
     "Tests start one simulator at the first point of the shipped data.",
     [D + "base_loader.py", S + "weather_simulators.py"],
     [("load_historical_climate_data", D + "base_loader.py"),
      ("RealInterpolatedClimate", S + "weather_simulators.py")],
     ["load_historical_climate_data", "get_irradiance",
      "get_outside_temperature"],
     "model-based Hypothesis PBT over generated climate series")

prop("C21", "The stochastic climate follows sun, clearness and season",
     "The simulated irradiance is the clear sky irradiance of the place, day "
     "and legal time (summer time included where used) times the current "
     "clearness, which follows its transition matrix from the given start, "
     "and is zero when the sun is down. Temperatures follow the yearly cycle "
     "of each day around the given mean, with daily deviations of the given "
     "autoregressive model, and within a day rise with the received sun. "
     "Times and steps carry on over midnight and new year.",
     ["inputs", "histories"],
     "all places, days of the year, starts, clearness matrices and values, "
     "temperature models, step sizes and run lengths",
     "Tests run one place for some steps and look at shapes only.",
     [S + "weather_simulators.py"],
     [("CrestIrradianceSimulator", S + "weather_simulators.py"),
      ("CrestClimateSimulator", S + "weather_simulators.py")],
     ["get_irradiance", "get_current_clearness", "get_outside_temperature"],
     "Hypothesis PBT against an independent solar model, plus distribution "
     "tests")

prop("C30", "Datasets give the numbers written in their raw files",
     "Loading a dataset without parsed data gives the numbers written in its "
     "raw files, each under its own quantity: every column of the climate "
     "exports, every row and column of the spreadsheets of appliances, "
     "buildings, heatings, lights and bulbs, the column of the asked "
     "households in the surveys, and the matrices and profiles of the asked "
     "number of residents and kind of day. Measured appliance cycles are the "
     "average power in each step of the measurements, cut to the time where "
     "the appliance is on. Values that are unknown are never replaced by "
     "those of another row, column or household.",
     ["inputs", "configurations"],
     "all contents of the raw files in their documented layout, households "
     "and step sizes",
     "Tests read shipped parsed data; the parsers of raw files run in none "
     "of them, or on one file without looking at the values.",
     [D + "tracebase/loader.py", D + "RenewablesNinja/loader.py",
      D + "OpenPowerSystems/loader.py", D + "CREST/loader.py",
      D + "Germany/loader.py", D + "DESTATIS/loader.py",
      D + "base_loader.py"],
     [("_parse_real_profiles_dict", D + "tracebase/loader.py"),
      ("_parse_tpm", D + "CREST/loader.py"),
      ("_parse_appliance_ownership_dict", D + "DESTATIS/loader.py")],
     ["load_* methods of a dataset with fresh raw files"],
     "Hypothesis PBT writing generated raw files and reading them back")

prop("C31", "Shipped data describe every household of the populations",
     "Without the raw surveys, every household of the shipped populations "
     "has, for weekdays and weekends and however its group is spelled, the "
     "transition probabilities, activity profiles and appliance ownership "
     "shipped for exactly that household. All of them are probabilities, and "
     "no household can reach a state without known transitions during the "
     "day. Parsing the shipped raw files again gives the shipped parsed "
     "data, and simulated days follow the shipped transition probabilities.",
     ["configurations", "inputs"],
     "all datasets, versions, population types, households, kinds of days, "
     "spellings of a group, days and times",
     "Tests load the data of a few households and look at shapes.",
     [D + "GermanTOU/loader.py", D + "tou_loader.py", D + "CREST/loader.py",
      D + "Germany/loader.py", D + "DESTATIS/loader.py",
      U + "subgroup_handling.py", U + "sparse.py"],
     [("load_sparse_tpm", D + "tou_loader.py"),
      ("load_tpm", D + "CREST/loader.py"),
      ("subgroup_string", U + "subgroup_handling.py")],
     ["load_* methods of the datasets", "states of the simulated households"],
     "PBT over the shipped households against an independent reader of the "
     "files, differential re-parsing, distribution tests")

prop("C34", "Survey tables are the statistics of the selected diaries",
     "A subgroup of a time-use survey selects exactly the diaries which meet "
     "all its criteria, lists and intervals included, and leaves out the "
     "households, days and diaries that are not completely recorded. A "
     "person is at home where the survey says so at the start of the day and "
     "after the last trip, away during trips, and in between where the "
     "activities can take place. Transition matrices, durations, start "
     "distributions, activity probabilities and activity profiles are the "
     "frequencies in these diaries, summed over the residents of a household "
     "for household models, with secondary activities standing in for main "
     "activities that have no name of their own.",
     ["inputs", "configurations"],
     "all surveys in the documented layout (households, residents, "
     "incomplete records, diaries of any activities), all subgroups",
     "The survey is confidential and not shipped, so no test can run the "
     "survey parser at all.",
     [D + "GermanTOU/parser.py", D + "GermanTOU/loader.py",
      D + "tou_loader.py", U + "parse_helpers.py"],
     [("get_mask_subgroup", D + "GermanTOU/parser.py"),
      ("states_to_occupancy", D + "GermanTOU/parser.py"),
      ("get_tpms_activity", D + "GermanTOU/parser.py"),
      ("get_data_sparse9states", D + "GermanTOU/parser.py"),
      ("create_data_activity_profile", D + "GermanTOU/parser.py"),
      ("get_states", D + "GermanTOU/loader.py")],
     ["load_* methods of the survey dataset with generated raw files"],
     "Hypothesis PBT writing generated surveys, counted by a reference model")

prop("C35", "Households draw independently of each other, of their place and past",
     "Whatever the households of one group draw at random - activities, "
     "residents, buildings, heating systems, set points, bulbs, daylight "
     "thresholds, appliances, load profiles and their phases, switch-ons, "
     "durations and volumes - each household draws for itself: two "
     "households, or two appliances of a household whose use has no common "
     "cause, are independent, and no household differs from the others "
     "because of its place in the list. Nor do draws remember: in the same "
     "state and conditions a household has the same chances again at every "
     "step, whatever it drew before.",
     ["inputs", "configurations", "histories"],
     "all simulators, sampling algorithms, load profile methods, "
     "distributions, numbers of steps",
     "Tests draw a few households once; dependence shows only in the "
     "statistics of many households and simulations.",
     ["demod/simulators/activity_simulators.py",
      "demod/simulators/sparse_simulators.py",
      "demod/simulators/appliance_simulators.py",
      "demod/simulators/lighting_simulators.py",
      "demod/simulators/heating_simulators.py", U + "monte_carlo.py",
      U + "sparse.py"],
     [("monte_carlo_from_cdf", U + "monte_carlo.py"),
      ("sample_available_appliances",
       "demod/simulators/appliance_simulators.py"),
      ("sample_bulbs_configuration", "demod/simulators/lighting_simulators.py"),
      ("attribute_patterns", "demod/simulators/heating_simulators.py")],
     ["getters of repeated simulations of many like households"],
     "Hypothesis PBT, tests of independence over repeated simulations "
     "(between simulations, positions, neighbours, appliances, steps)")

prop("C36", "Plots show exactly the data they are given",
     "Plotting a logger shows one panel per logged attribute with one named "
     "curve per recorded series - per household, summed over the households "
     "when aggregated, per entry of dictionary outputs - with exactly the "
     "recorded values over the step numbers or simulated times. Plots of "
     "household activities, stacked activities, stacked states and appliance "
     "consumptions show the given values at the given times in rows or "
     "layers carrying the right names, colours and legends, on the axes "
     "asked for, and change neither the logger nor the data.",
     ["inputs", "configurations"],
     "logged attributes, aggregation, households, steps, states, "
     "activities, appliances, time axes, orders, colours, step styles",
     "No test plots anything; a curve that is shifted, summed or named "
     "wrongly looks plausible.",
     ["demod/simulators/base_simulators.py", U + "plotters.py"],
     [("SimLogger.plot", "demod/simulators/base_simulators.py"),
      ("SimLogger.plot_column", "demod/simulators/base_simulators.py"),
      ("plot_household_activities", U + "plotters.py"),
      ("plot_stacked_activities", U + "plotters.py")],
     ["lines, points, polygons, labels and legends of the drawn figure"],
     "Hypothesis PBT, drawn artists read back and compared with the given "
     "data")

prop("C37", "Seeded simulations are reproducible and do not affect each other",
     "When numpy's random generator is seeded, building and running a "
     "simulation again gives exactly the same values at every step and "
     "leaves the generator in the same state - whatever was simulated or "
     "loaded before, and also in another process with another hash seed. "
     "Simulations that run side by side in one process give the values each "
     "gives alone with the same random numbers, and no simulator overrules "
     "the seed.",
     ["inputs", "configurations", "histories", "schedules"],
     "all simulators and the complete simulation, generated data and "
     "configurations, seeds, other simulations before and in between, "
     "processes with different hash seeds",
     "Tests run one simulation per process with one seed and do not compare "
     "runs; values that depend on a set's order, on another generator or on "
     "another simulation look right.",
     ["demod/simulators/base_simulators.py", U + "monte_carlo.py",
      "demod/simulators/activity_simulators.py",
      "demod/simulators/appliance_simulators.py",
      "demod/simulators/lighting_simulators.py",
      "demod/simulators/heating_simulators.py",
      "demod/simulators/weather_simulators.py",
      "demod/simulators/load_simulators.py"],
     [("cached_getter", "demod/simulators/base_simulators.py"),
      ("monte_carlo_from_1d_cdf", U + "monte_carlo.py"),
      ("AppliancesSimulator", "demod/simulators/appliance_simulators.py"),
      ("LoadSimulator", "demod/simulators/load_simulators.py")],
     ["all getters after every step and the state of the random generator"],
     "Hypothesis PBT, metamorphic comparison of runs: repeated, interleaved, "
     "in other processes")
