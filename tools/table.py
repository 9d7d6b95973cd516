prop("P01", "Two-layer ocean model conserves energy in every step",
     "For any parameters, forcing history and feedback updates, one annual step of the two-layer model changes mixed-layer heat by forcing minus radiative damping minus efficacy-weighted exchange, changes deep heat by exactly the exchanged flux, and a fresh model without forcing stays at zero. The reported imbalance, temperatures and heat contents follow from the same budget (global temperature is the ocean-fraction mean of the equilibrium land response and the mixed layer, total heat content is mixed plus deep). Volcanic forcing enters as the annual mean of the two hemispheric series' sum.",
     ["inputs", "histories", "configurations"], "all parameter sets, states reachable by any forcing/feedback history, all forcings and volcanic series",
     "Tests compare a few hand-picked states; the budget must close for every state, forcing and parameter value.",
     [S + "thermal_model/two_layer_ocean.py", S + "constants.py"],
     [("annual step", S + "thermal_model/two_layer_ocean.py:TwoLayerOceanModel.energy_budget")],
     VG, "Decides the budget identities on the value graph of three successive steps with symbolic parameters and forcing." + TRUST)
prop("P02", "Upwelling-diffusion ocean conserves heat and rests without forcing",
     "Without inter-hemispheric air exchange and with unit ocean efficacy, the heat gained by the ocean column over a year equals the air-to-sea heat flux of that year, so mixing, upwelling, polar sinking and hemispheric exchange only move heat. The year-mean forcing of each hemisphere is balanced by radiation to space plus the flux into the ocean. A fresh model without forcing reports zero for every output.",
     ["inputs", "histories", "configurations"], "all parameters, forcing histories, volcanic series; layer counts and sub-steps as instantiated",
     "Tests run default parameters against stored output; a leak that needs other depths, thresholds or asymmetric forcing stays invisible.",
     [S + "thermal_model/upwelling_diffusion_model.py"],
     [("banded implicit step", S + "thermal_model/upwelling_diffusion_model.py:UpwellingDiffusionModel.energy_budget"), ("coefficients", S + "thermal_model/upwelling_diffusion_model.py:UpwellingDiffusionModel.coeff")],
     VG, "Closure identity decided on the value graph of a step from a generic state for instantiated layer counts/sub-steps, symbolic everything else." + TRUST)
prop("P03", "Hemispheres are treated alike and global values are their means",
     "In the upwelling-diffusion model, relabelling the hemispheres (swapping forcing, volcanic series and ocean fractions, with the exchange coefficient rescaled by the ocean-fraction ratio) swaps all hemispheric outputs and leaves all global outputs unchanged. Every global temperature and imbalance is the arithmetic mean of the two hemispheric values.",
     ["inputs", "histories", "configurations"], "all parameters and forcing histories",
     "Tests use one asymmetric default set-up and stored numbers; a hemisphere mix-up that vanishes for symmetric or default input is not sampled.",
     [S + "thermal_model/upwelling_diffusion_model.py"],
     [("annual step", S + "thermal_model/upwelling_diffusion_model.py:UpwellingDiffusionModel.energy_budget")],
     VG, "Relational (two-copy) analysis: both value graphs are built and compared output by output." + TRUST)
prop("P04", "Ocean heat content covers exactly the upper 700 m / the whole column",
     "OHC700 is the heat content of exactly the upper 700 m and OHCTOT that of the whole column, computed from the reported layer temperatures, for every mixed-layer depth (below 700 m in the upwelling-diffusion model, any depth in the two-layer model).",
     ["inputs", "histories", "configurations"], "all mixed-layer and deep-layer depths, all states",
     "Tests use one or two depths; the partial-layer logic must hold for every depth, including multiples of 100 m and depths beyond 700 m.",
     [S + "thermal_model/upwelling_diffusion_model.py", S + "thermal_model/two_layer_ocean.py"],
     [("ocean heat content", S + "thermal_model/upwelling_diffusion_model.py:UpwellingDiffusionModel.ocean_temperature"), ("two-layer heat content", S + "thermal_model/two_layer_ocean.py:TwoLayerOceanModel.energy_budget")],
     VG, "Integral identity decided for symbolic depths and states." + TRUST)
prop("P05", "Upwelling-diffusion step solves the documented implicit scheme",
     "Each sub-step of the upwelling-diffusion model is the implicit finite-volume step of the hemispheric upwelling-diffusion equations: forcing ramps linearly from last year's to this year's value plus that sub-step's volcanic value, upwelling weakens with surface warming of its own hemisphere unless the threshold is zero, and efficacy scales the mixed layer's loss only. Annual outputs are sub-step means; imbalance is forcing minus feedback times temperature minus the efficacy correction.",
     ["inputs", "histories", "configurations"], "all parameters, two-year forcing histories, volcanic series of different lengths",
     "Stored-output tests cover default parameters (threshold on, efficacy one, no air exchange); other branches and parameter combinations are untested.",
     [S + "thermal_model/upwelling_diffusion_model.py"],
     [("annual step", S + "thermal_model/upwelling_diffusion_model.py:UpwellingDiffusionModel.energy_budget"), ("coefficients", S + "thermal_model/upwelling_diffusion_model.py:UpwellingDiffusionModel.setup_ebud2")],
     VG, "All outputs compared with an independently written finite-volume reference at random interpretations of the value graph." + TRUST)
prop("P06", "Effective feedback is the base feedback plus delta times the aerosol weight",
     "After any sequence of feedback updates both thermal models report and use exactly base feedback plus delta times the latest aerosol weight, in temperature, imbalance and all cached coefficients. Earlier weights leave no trace, and with zero delta the weight has no effect.",
     ["inputs", "histories", "configurations"], "all update sequences, parameters and forcings",
     "Tests check one update; stale cached coefficients or accumulation need a sequence of updates with non-zero delta to show.",
     [S + "thermal_model/upwelling_diffusion_model.py", S + "thermal_model/two_layer_ocean.py"],
     [("feedback update", S + "thermal_model/upwelling_diffusion_model.py:UpwellingDiffusionModel.set_feedback_gregory"), ("feedback update", S + "thermal_model/two_layer_ocean.py:TwoLayerOceanModel.set_feedback_gregory")],
     VG, "Value graphs after two updates per year over several years compared with the reference that uses the latest weight." + TRUST)
prop("P07", "Default carbon cycle follows the pulse-response scheme for any history",
     "For any emission and temperature history the default carbon cycle's concentration equals the pulse-response scheme: each sub-step adds emissions minus fertilisation uptake plus delayed respiration, air-sea flux follows the partial-pressure difference, and the mixed layer responds by convolution with the (default or user-supplied) response functions. The reported biosphere and ocean fluxes are annual means of the fluxes used in that integration, and zero emissions keep the pre-industrial concentration.",
     ["inputs", "histories", "configurations"], "all parameters, emission and temperature histories, response functions; sub-steps/years as instantiated",
     "Tests compare single default runs; index slips in the convolution, restart state or diagnostics only show for particular sub-step counts or histories.",
     [S + "carbon_cycle/carbon_cycle_mod.py", S + "carbon_cycle/rfuns.py"],
     [("annual step", S + "carbon_cycle/carbon_cycle_mod.py:CarbonCycleModel.co2em2conc"), ("diagnostics", S + "carbon_cycle/carbon_cycle_mod.py:CarbonCycleModel.get_biosphere_carbon_flux")],
     VG, "Value graphs of successive steps compared with an independent reference." + TRUST)
prop("P08", "Box carbon cycle conserves carbon mass",
     "In every step of the box carbon cycle the carbon in atmosphere, vegetation, soil, mixed layer and deep ocean together increases by exactly the emitted carbon, and the returned concentration is the atmospheric pool. The reported primary production and ocean uptake are the fluxes used in the step.",
     ["inputs", "histories", "configurations"], "all parameters, states, emissions and temperatures",
     "Tests check signs and shapes for a few values; conservation must hold in every branch including clipped production.",
     [S + "carbon_cycle/carbon_cycle_mod_box.py"],
     [("annual step", S + "carbon_cycle/carbon_cycle_mod_box.py:CarbonCycleModel.co2em2conc")],
     VG, "Mass identity on the value graph of successive steps with symbolic inputs." + TRUST)
prop("P09", "Carbon response functions are normalised and parameter forms agree",
     "The mixed-layer response is the coefficient-weighted sum of a constant and exponentials normalised to one at time zero, the biotic response is the normalised sum of delay kernels, both unchanged when all coefficients are rescaled, and the default responses equal the published fits. Indexed (flat) response parameters, in any order, give the same carbon cycle as the nested form.",
     ["inputs", "configurations"], "all coefficient/time-scale vectors, times and sub-steps",
     "Tests evaluate single points; normalisation and ordering must hold for every parameter vector.",
     [S + "carbon_cycle/rfuns.py"],
     [("response functions", S + "carbon_cycle/rfuns.py:rs_function2"), ("flat parameters", S + "carbon_cycle/rfuns.py:_process_flat_carbon_parameters")],
     VG, "Closed forms compared for symbolic coefficients and times." + TRUST)
prop("P10", "Carbon-climate feedbacks are neutral at zero warming and bounded",
     "Without warming the temperature feedbacks on primary production, solubility and mixed-layer depth are neutral, and omitting the temperature equals zero warming. For every warming the solubility factor stays between zero and its limit and the mixed layer never gets shallower than its minimum. The ocean partial pressure is a continuous function with continuous slope of the dissolved carbon.",
     ["inputs", "configurations"], "all parameters and temperatures, all dissolved carbon amounts",
     "Tests evaluate a few temperatures; neutrality and bounds must hold for all parameters.",
     [S + "carbon_cycle/carbon_cycle_mod.py"],
     [("feedbacks", S + "carbon_cycle/carbon_cycle_mod.py:CarbonCycleModel.solubility_temp_feedback"), ("chemistry", S + "carbon_cycle/carbon_cycle_mod.py:CarbonCycleModel._calculate_partial_pressure_mixed_layer")],
     VG, "Closed forms, bounds and junction conditions decided on value graphs." + TRUST)
prop("P11", "Emission back-calculation leaves the state of the accepted emission",
     "After emissions are inferred from prescribed CO2 concentrations, the carbon cycle is in exactly the state it would have after stepping once per year with the inferred emissions: rejected trial emissions leave no trace. When the search interval contains the solution, stepping with the inferred emission gives back the prescribed concentration within the search tolerance.",
     ["inputs", "histories"], "all concentration and temperature series, any number of rejected trials",
     "Tests check closeness for one series; an unrestored piece of state only shows for certain trial sequences.",
     [S + "carbon_cycle/carbon_cycle_abstract.py", S + "carbon_cycle/carbon_cycle_mod.py"],
     [("inversion", S + "carbon_cycle/carbon_cycle_abstract.py:AbstractCarbonCycleModel.back_calculate_emissions")],
     VG + "; loops as fixpoint terms", "Noninterference of trial steps decided on value graphs with the search loop as a fixpoint term." + TRUST)

CE = S + "concentrations_emissions_handler.py"
H = CE + ":ConcentrationsEmissionsHandler."
prop("P12", "Concentrations: prescribed, or the exact one-box response to emissions",
     "In a concentration run, and before the emissions start year for every gas but CO2, the reported concentrations are the prescribed ones of the same calendar year, whatever years the input tables cover. Otherwise each gas is the exact solution of its one-box budget after one year: last year's concentration decays with the gas's loss rate (for methane that of the chosen lifetime mode TAR, CONSTANT_12 or WIGLEY plus the two constant sinks) while that year's emissions plus natural emissions are added. Every year's CO2 emissions reach the carbon cycle as fossil plus land use plus natural emissions of that year.",
     ["inputs", "configurations", "histories"], "all emissions, concentrations, gas parameters; start, emission start and end years and table extents as instantiated",
     "Tests compare stored runs for two start years with files from 1750; padding, other emission start years, lifetime modes and per-gas slips need other configurations.",
     [CE], [("precalculated gases", H + "_precalculate_concentrations_vanilla_gases"), ("yearly gases", H + "emi2conc"), ("methane", H + "methane_lifetime")],
     VG, "Whole concentration table of an interpreted run compared cell by cell with an independent reference." + TRUST)
prop("P13", "Each component's forcing follows its documented formula from the base year",
     "The reported forcing of every component is its documented function of that run's concentrations and emissions: the Etminan expressions with overlap for CO2, CH4 and N2O, linear in concentration change for other gases, three-year lagged chlorine (to the power 1.7) and bromine loading with correct atom counts for stratospheric ozone, ozone scaled to its reference-year value, water vapour proportional to methane, aerosols linear in emission change with their own or the q-parameter factor, and no global SO2, BC or OC factor when regional ones are present. Each is zero in the first year of the run.",
     ["inputs", "configurations", "histories"], "all emissions, concentrations, gas and q parameters; year ranges as instantiated",
     "Stored-output tests fix one parameter set and gas table; a wrong term, year or species with small default factor (NOx, NH3, BMB, regional) passes them.",
     [CE, S + "pub_utils.py"], [("three main gases", H + "calculate_forc_three_main"), ("ozone", H + "tropospheric_ozone_forcing"), ("aerosols", H + "calc_aerosol_forcing"), ("halogens", H + "calculate_strat_quantities")],
     VG, "Whole forcing table of an interpreted run compared cell by cell with an independent reference." + TRUST)
prop("P14", "Total forcing is the sum of its components and hemispheres average to it",
     "For every year the total forcing equals the sum of all reported component forcings, and the mean of the northern and southern forcing equals total plus solar. Aerosols (SO2, SO4_IND, BC, OC, biomass burning), tropospheric ozone and land use are split between the hemispheres with factors 1.47, 1.45 and 1.42, all others evenly. With just_one the totals are those of that single component, for every component.",
     ["inputs", "configurations", "histories"], "all inputs and parameters, every year",
     "Tests check single numbers; a component counted twice, dropped, or split wrongly shows only when that component is non-zero.",
     [CE, S + "perturbations.py"], [("sum", H + "conc2forc"), ("split", S + "perturbations.py:calculate_hemispheric_forcing")],
     VG, "Sums and splits decided on the value graph of whole runs." + TRUST)
prop("P15", "Perturbations are added exactly once",
     "Every row of an emission perturbation adds its value once to that component's emissions of that year (CO2 rows to fossil CO2), and every row of a forcing perturbation adds its value once to that component's forcing of that year and, split like the component, to the totals, also when several rows hit the same component and year. Rows outside the years of the run and all other components, years and tables are untouched.",
     ["inputs", "configurations"], "all perturbation values, rows as instantiated over precalculated and yearly components",
     "Tests perturb one or two components in one year each; repeated rows, precalculated gases and years outside the run are not sampled.",
     [S + "perturbations.py", CE], [("emissions", S + "perturbations.py:perturb_emissions"), ("forcing", S + "perturbations.py:ForcingPerturbation")],
     VG, "Tables and totals of perturbed interpreted runs compared with the reference." + TRUST)
prop("P16", "The aerosol weight is the aerosols' share of forcing magnitudes",
     "The aerosol weight handed to the thermal model in emission and concentration runs is the sum of absolute aerosol forcings (SO2, SO4_IND, BC, OC, biomass burning, NOx, NMVOC, NH3, including regional ones and forcing perturbations) divided by the sum of absolute forcings of all components that are calculated year by year, and zero without forcing. It always lies between zero and one.",
     ["inputs", "configurations", "histories"], "all inputs and parameters, every year",
     "Tests look at one default run; perturbations, regional species and cancelling signs are not sampled.",
     [CE], [("weight", H + "conc2forc")],
     VG, "Definition and bounds decided on the value graph of whole runs." + TRUST)
prop("P17", "Result tables hold exactly the run's years, components and inputs",
     "The emissions, concentrations and forcing tables have one row per year of the run, indexed and labelled by that year, and one column per component (CO2 emissions as fossil plus land use, SO2 forcing labelled SO4_DIR). The emissions table holds the emissions used, whatever years the input covers. Asking for the results again gives the same tables.",
     ["inputs", "configurations"], "all inputs; year ranges and table extents as instantiated",
     "Tests read the tables of runs that start in the first year of the input files.",
     [CE], [("tables", H + "add_results_to_dict")],
     VG, "Tables of interpreted runs compared structurally and cell by cell." + TRUST)
DR = S + "ciceroscm.py"
IHF = S + "input_handler.py"
C_ = DR + ":CICEROSCM."
prop("P18", "Every model year is driven by its own year's inputs and reported at that year",
     "In an emission or concentration run each year's step gets that year's carbon and gas inputs, the feedback of the previous year's temperature, and passes that year's hemispheric, solar, volcanic and land-use forcing and aerosol weight to the thermal model, in year order. Every thermal result is reported at the index of the year it was computed for, whatever the first and last year of the run and the extent of the input tables.",
     ["inputs", "configurations", "histories"], "all inputs; year ranges and table extents as instantiated",
     "Tests run full default periods; an off-by-one that needs a run starting elsewhere than the input tables shows nowhere.",
     [DR, CE], [("year loop", C_ + "_run"), ("forcing of the year", C_ + "forc_set")],
     VG, "The year loop is interpreted with recording stand-ins for thermal model and handler; every argument and result cell compared." + TRUST)
prop("P19", "Forcing-driven runs use exactly the supplied forcing",
     "In a run driven by prescribed forcing the thermal model gets, for each year and hemisphere, that year's supplied hemispheric value (the single column, or the sum of the supplied components, for both hemispheres) plus that year's solar forcing, and that year's volcanic forcing. The reported total forcing is the supplied total (else the mean of the hemispheres or the sum of the components) plus solar. The aerosol weight is the supplied w_aero column, else the aerosols' share of the magnitudes of the components in the file, else zero.",
     ["inputs", "configurations"], "all forcing values; file layouts as instantiated",
     "Tests run one single-column file; hemispheric, component and array layouts and other start years are barely sampled.",
     [DR, IHF], [("forcing of the year", C_ + "forc_set"), ("forcing file", IHF + ":read_forc")],
     VG, "Forcing layouts interpreted end to end; every thermal argument and reported total compared." + TRUST)
prop("P20", "Runs leave the caller's data untouched",
     "Creating a model and running it any number of times leaves the caller's configuration, parameter dictionaries and data tables (gas parameters, emissions, concentrations, natural emissions, forcing, perturbations, solar, volcanic and land-use series) exactly as they were.",
     ["inputs", "configurations", "histories"], "all inputs, parameter values and sequences of runs as instantiated",
     "Tests build fresh input for each run, so a run that writes into its input goes unnoticed.",
     [DR, IHF, CE, S + "perturbations.py"], [("instance", C_ + "__init__"), ("run", C_ + "_run")],
     "effect analysis: abstract interpretation with a heap model, content of every caller-owned object compared before and after", "Alias-aware effect analysis of construction and runs." + TRUST)
prop("P21", "Results depend only on the inputs and parameters of that run",
     "A run's results are a function of its inputs and complete parameter set: they are the same after earlier runs with other parameters, when repeated, on another instance built from the same tables, and with runs of other instances in between. Results kept from an earlier run stay as they are.",
     ["inputs", "configurations", "histories"], "all parameter values; sequences of runs and run kinds as instantiated",
     "Tests run each instance once or twice with the same parameters; state leaking between runs needs specific sequences.",
     [DR, CE, S + "carbon_cycle/abstract_carbon_cycle_model.py"], [("run", C_ + "_run"), ("reset", H + "reset_with_new_pams")],
     "relational abstract interpretation (history versus fresh run), equality of value graphs by normal form / random interpretation", "Every result cell of a run in a history compared with the same run on a fresh instance." + TRUST)
prop("P22", "An input given as file or as data gives the same results",
     "Every input that can be given as file or as data (gas parameters, emissions, concentrations, natural emissions, forcing, perturbations, solar, volcanic and land-use forcing) gives the same results either way, for every year range within the data.",
     ["inputs", "configurations"], "all values; input kinds one at a time and together, year ranges as instantiated",
     "Tests compare a few of the inputs for full default periods; year alignment and units of the others are not sampled.",
     [IHF, S + "perturbations.py"], [("readers", IHF + ":InputHandler.get_data")],
     "relational abstract interpretation (virtual file versus table), equality of value graphs by normal form / random interpretation", "Symbolic file contents read by the modelled readers; every result cell compared." + TRUST)
prop("P23", "Missing inputs get documented defaults and unusable ones are refused",
     "Without sunvolc=1 solar and volcanic forcing are zero whatever else is given; with it a series that is not given is the packaged default, and a common volcano series drives both hemispheres and overrides hemispheric ones. Land use not given is the packaged series, and natural emissions not given are the gas table's value in every year. A missing input file, a unit differing from the gas table, an unknown model name, and an emissions or concentration run without gas, emissions or concentration data raise an error instead of giving results.",
     ["inputs", "configurations"], "all values; combinations of given inputs as files or data, as instantiated",
     "Tests build a handful of configurations; which series is used in the others, and whether bad input is refused, is not sampled.",
     [IHF, DR, S + "component_factory_functions.py"], [("defaults", IHF + ":InputHandler.set_sun_volc_luc_defaults"), ("checks", IHF + ":check_inputfiles"), ("units", IHF + ":InputHandler._check_gaspam_compatibility")],
     VG, "Every combination interpreted; the series reaching the model compared cell by cell, refusals as definite raises." + TRUST)
prop("P24", "Run parameters: documented defaults, numbers only, all of them effective",
     "Leaving out a run parameter, the whole parameter set, or giving something that is not a number (any real number, numpy's own included, is one) gives exactly the results of the documented default value (upwelling-diffusion and two-layer ocean, forcing, both carbon cycles; first and last year, emission start, sub-steps and model choice of the instance). Names that do not exist change nothing, and other values for start, end, emission start, sub-steps or kind of run in a run's parameters do not change the instance's. Every documented parameter influences the results, except the box model's ocean exchange rate and mixed-layer depth.",
     ["inputs", "configurations"], "all values of the other parameters and all inputs; each parameter in turn",
     "Tests use a few parameter sets; each parameter's default and routing must hold for every value of the others.",
     [S + "_utils.py", DR, CE, S + "thermal_model/abstract_thermal_model.py", S + "carbon_cycle/common_carbon_cycle_functions.py"], [("cut and check", S + "_utils.py:cut_and_check_pamset"), ("fixed settings", CE + ":check_pamset_consistency")],
     "relational abstract interpretation (parameter absent versus documented default), dependence of value graphs on each parameter", "Whole runs compared cell by cell for each parameter; dependence by value-graph evaluation." + TRUST)
prop("P25", "Result files hold what the same run reports as results",
     "A run not asked for results_as_dict writes, in the given or default folder and with the given or default prefix, exactly one tab-separated file per kind (heat content, imbalance, temperature, sun and volcanoes, and forcing, plus emissions, concentrations and, if asked, carbon cycle in emission and concentration runs). Each has a Year column with the years of the run (except the carbon cycle file), no other index, and in every column the values the same run reports under that name, with six significant digits. A run asked for results_as_dict writes no result file.",
     ["inputs", "configurations"], "all inputs and parameters; run kinds, models, folders and prefixes as instantiated",
     "Tests check that files exist and a few of their contents for the default model.",
     [DR, CE], [("thermal files", C_ + "write_data_to_file"), ("tables", H + "write_output_to_files")],
     "effect analysis: every write recorded with path and content by abstract interpretation, contents compared with the results", "Writes of interpreted runs compared cell by cell with the results of the same run." + TRUST)
PW = S + "parallel/"
prop("P26", "Parallel runs give what single runs give, however the work is split",
     "run_ciceroscm_parallel returns, for any number of scenarios, configurations and workers, exactly one row per scenario, configuration and available variable, ordered by scenario, configuration and variable and tagged with their names and unit, holding the values of a single run of that scenario with that configuration. Results of _parallel_process are in the order of its configurations whatever the completion order and share of serial runs, a failing run's error reaches the caller, and the caller's scenarios and configurations are left as they were.",
     ["inputs", "configurations", "schedules"], "all inputs and parameter values; scenario, configuration and worker counts and completion orders as instantiated",
     "Tests run one scenario with two configurations and compare shapes; batching, ordering and tagging for other counts are not sampled.",
     [PW + "cscmparwrapper.py", PW + "_parallel_process.py"], [("split", PW + "cscmparwrapper.py:run_ciceroscm_parallel"), ("rows", PW + "cscmparwrapper.py:CSCMParWrapper.run_over_cfgs"), ("pool", PW + "_parallel_process.py:_parallel_process")],
     "relational abstract interpretation (parallel versus single run) with a process-pool model (copied arguments, reversed completion order)", "Every row and cell compared with the single run's value graph." + TRUST)
prop("P27", "Sampled configurations respect their distribution and survive storage",
     "A sample of n values has n configurations with different indices and the given prefix (in chunks of at most the asked size, if asked), each holding every set value unchanged and, for every other parameter of the distribution (thermal ones only for forcing runs), a value of its own drawn from that parameter's interval (uniform within it from one latin hypercube, or normal with its midpoint and half width), in the parameter set of the model part that uses it. Written to any file name and read by DistributionRun, configurations and meta information come back the same and are what the runs get. The caller's dictionaries and the module's defaults are left as they were.",
     ["inputs", "configurations"], "all intervals, set values and random draws; parameter lists, sample and chunk sizes as instantiated",
     "Tests look at one distribution's shapes and a few names; misrouted or misdrawn parameters and lost chunks need other names and sizes.",
     [PW + "_configdistro.py", PW + "distributionrun.py"], [("sampling", PW + "_configdistro.py:_ConfigDistro.make_config_lists"), ("files", PW + "distributionrun.py:DistributionRun")],
     VG, "Random draws are symbols; every parameter of every configuration compared with the draw from its interval." + TRUST)
FT = S + "formattingtools/"
prop("P28", "Result variables are the documented content of the results",
     "Every variable read through get_variable_timeseries is, for exactly the run's years, the named component or its documented combination: F-gas, greenhouse-gas and aerosol totals sum all their components (regional ones too), total forcing adds solar and mean volcanic to anthropogenic forcing, heat content and uptake are in ZJ and ZJ/yr, and carbon pools are cumulative fluxes. Its unit is the documented one, the same for gas parameters from file or table. Variables that do not exist get no unit, and reading leaves the results unchanged.",
     ["inputs", "configurations"], "all inputs and parameters; run kinds and gas lists as instantiated",
     "Tests read a few variables of default runs; sums over gas lists and regional aerosols are not sampled.",
     [FT + "reformat_cscm_results.py", FT + "reformat_inputdata_to_cscm_format.py"], [("reader", FT + "reformat_cscm_results.py:CSCMREADER.get_variable_timeseries"), ("units", FT + "reformat_inputdata_to_cscm_format.py:COMMONSFILEWRITER")],
     VG, "Every variable's cells compared with the value graph of the same run's results." + TRUST)
PU = S + "pub_utils.py"
prop("P29", "Halogen counts and regional aerosol parameters follow from names and tables",
     "The chlorine and bromine atoms of a gas, used for stratospheric ozone loss, are those of the compound its name stands for (CFC, HCFC and halon numbering, or a formula naming the halogen once); gases with neither are not counted. A regional aerosol table has, for every region, the aerosol's row with the forcing per emission of that region times the unit conversion, all other rows unchanged, and the caller's tables unchanged. Coefficients and time scales of a response function are refused if their numbers do not fit or one is negative, and otherwise used as given.",
     ["inputs", "configurations"], "all compounds of the numbering rules up to three carbons; all forcing and gas parameter values; regions as instantiated",
     "Tests look at the gases of one list and two regions; other compounds and mappings are not sampled.",
     [PU], [("halogens", PU + ":make_cl_and_br_dictionaries"), ("regions", PU + ":make_regional_aerosol_gaspamdata"), ("response functions", PU + ":_check_array_consistency")],
     VG, "Every compound name interpreted and compared with the atoms given by chemistry; table cells compared." + TRUST)
prop("P30", "The coupled carbon cycle follows the run's emissions and temperatures",
     "In an emission run, CO2 of every year is what the chosen carbon cycle gives when stepped with that year's emissions (natural ones added, perturbations included) and the previous year's temperature of that run. If carbon cycle outputs are asked for, the table holds, by year, the biosphere and ocean fluxes, primary production, solubility and mixed layer depth of that run, and airborne fraction as the rise since preindustrial over cumulative emissions; in a concentration run the emissions inferred from its concentrations and temperatures. Without being asked for, there is no such table.",
     ["inputs", "configurations"], "all emissions, concentrations, temperatures and parameters; run kinds, steps per year and run lengths as instantiated",
     "Tests pin one scenario's numbers with default parameters; which year's temperature and which emissions enter is only visible when every input is free.",
     [S + "concentrations_emissions_handler.py", S + "ciceroscm.py", S + "carbon_cycle/carbon_cycle_mod.py", S + "carbon_cycle/carbon_cycle_mod_box.py"],
     [("coupling", S + "ciceroscm.py:CICEROSCM._run"), ("CO2", S + "concentrations_emissions_handler.py:ConcentrationsEmissionsHandler.emi2conc"), ("table", S + "concentrations_emissions_handler.py:ConcentrationsEmissionsHandler.get_carbon_cycle_data")],
     VG, "Whole runs are interpreted; every year's cells compared with a reference carbon cycle written from the model description." + TRUST)
prop("P31", "Plots show the run's results, and asking for them changes nothing else",
     "A run asked for plots has the same results and the same other files as one that is not, a run not asked draws none, and the tables handed to the plots stay as they are. With plots, every saved line is the result series its label or title names, against the run's years: ocean heat content, radiative imbalance and temperatures that the thermal model gives; emissions and concentrations of every component with a unit, labelled with that unit; forcing of every component and the total. Every such series is drawn, once per component figure panel, in a figure saved after drawing under a name of its own in the folder plots of the output folder, which is created if missing.",
     ["inputs", "configurations"], "all input values; run kinds, thermal models, folders and numbers of components (0-39 more gases) as instantiated",
     "Tests only look whether some files exist; mislabelled, missing or shifted curves depend on the models chosen and on how many components fill a figure.",
     [S + "make_plots.py", S + "ciceroscm.py", S + "concentrations_emissions_handler.py"],
     [("thermal figures", S + "make_plots.py:plot_output1"), ("component figures", S + "make_plots.py:plot_output2"), ("request", S + "ciceroscm.py:CICEROSCM._run")],
     VG, "Drawing calls are recorded as events of the interpretation and read back as figures, panels and lines; each line's values are compared with the result series of a run without plots." + TRUST)
S3 = [S + "thermal_model/upwelling_diffusion_model.py"]
na("P90", "Implicit diffusion step is numerically stable and free of round-off drift",
   "For any admissible thermal parameters and run length, the tridiagonal solution of the upwelling-diffusion step stays well conditioned, so rounding errors do not accumulate into the temperatures or the heat budget.",
   ["inputs", "configurations"], "all parameters and run lengths", "A property of floating-point error growth over arbitrarily many steps.",
   S3, [("solver", S + "thermal_model/upwelling_diffusion_model.py:_band")],
   "Needs bounds on runtime magnitudes (condition numbers over unbounded step counts); the analysis decides equalities over real arithmetic and has no sound floating-point error bound in reach.")
na("P91", "Bisection for inferred emissions converges to the prescribed concentration",
   "For every concentration path, the search for the emissions of a year keeps the solution inside its bracket and ends within the tolerance of the prescribed concentration.",
   ["inputs"], "all concentration paths and carbon parameters", "Convergence depends on the size and monotonicity of the carbon cycle response.",
   [S + "carbon_cycle/carbon_cycle_abstract.py"], [("bisection", S + "carbon_cycle/carbon_cycle_abstract.py:AbstractCarbonCycleModel.back_calculate_emissions")],
   "The number of iterations and the bracket depend on runtime values of a non-linear response, which no static argument in reach bounds; P11 decides the structural part (each probe starts from the same state, the accepted year is stepped once).")
na("P92", "Concentrations and carbon pools stay physical for every scenario",
   "For every emission scenario the user can give, concentrations and carbon pools remain finite and non-negative.",
   ["inputs"], "all emission scenarios", "Holds or fails by the magnitude of the inputs.",
   [S + "concentrations_emissions_handler.py", S + "carbon_cycle/carbon_cycle_mod_box.py"], [("box pools", S + "carbon_cycle/carbon_cycle_mod_box.py:CarbonCycleModel.co2em2conc")],
   "Not true without quantitative bounds on the inputs (strong uptake or negative emissions can empty a pool), and such bounds are runtime magnitudes no value-graph equality can state.")
na("P93", "Results agree with the original Fortran model",
   "With the documented inputs and parameters, results agree with those of the original Fortran CICERO-SCM within the documented tolerance.",
   ["inputs"], "all scenarios of the original model", "Only a few stored Fortran runs exist to compare with.",
   [S + "ciceroscm.py"], [("driver", S + "ciceroscm.py:CICEROSCM._run")],
   "The Fortran source is not in the repository; agreement with stored numbers is a runtime comparison, not a fact visible in the source.")
