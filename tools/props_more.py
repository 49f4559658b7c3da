IN, CF, HI = "inputs", "configurations", "histories"

p("C03", "Responses superpose and scale with the loads",
  "For every beam without prescribed settlements, the reactions, displacements and every diagram under the sum of two load sets are the sums of those under each, and under a scaled load set they scale by the same factor; with prescribed settlements the response is that of the settlements alone plus that of the loads alone. "
  "This holds for loads given in one table, added one at a time, or analysed again on the same object.",
  [IN, CF], "all lengths, stiffnesses, load magnitudes and positions and scale factors; all load kinds, releases, springs, settlements and imposed curvature",
  "linearity couples every load kind with every structure; tests check isolated sums at fixed numbers",
  ["analysis.py", "beam.py", "load.py", "results.py"],
  [("nodal force assembly", "analysis.py:_forces"), ("load-table algebra", "load.py:add_LM,factor_LM"), ("accumulation of load effects", "results.py:_member_values")],
  ["BeamAnalysis.analyze", "BeamResults.R", "BeamResults.D", "MemberResults"])

p("C04", "A load's end actions and its diagrams describe the same load",
  "For every load kind, magnitude and extent, the fixed-end forces and moments of a loaded member are the exact ones for that load, and the shear, moment and rotation it adds along the span are those of a simply-supported span under exactly the same load. "
  "A load that runs past the end of its member counts only on the member, one that lies beyond it has no effect, and releasing an end moment leaves a statically equivalent set of end forces.",
  [IN], "all span lengths, magnitudes, positions and extents of each load kind, evaluated across the span",
  "each load kind has its own hand-written formulas for end actions and for diagrams; tests compare them at a few points",
  ["load.py"],
  [("fixed-end forces", "load.py:LoadUDL,LoadPL,LoadPUDL,LoadML,LoadTrapez.get_cnl"), ("span diagrams", "load.py:get_mbr_results"), ("moment release", "load.py:Load.get_ref")],
  ["parse_LM", "Load.get_cnl", "Load.get_ref", "Load.get_mbr_results"])

p("C05", "A member's stiffness is exact, symmetric, and right for its releases",
  "For every length, bending stiffness, shear stiffness and end-release type the member stiffness is symmetric, resists no rigid-body movement, puts no moment at a released end, and inverts the member's flexibility obtained from beam theory. "
  "As the shear stiffness grows without limit it tends to the shear-rigid member, and a variable section that happens to be constant gives the prismatic member.",
  [IN, CF], "all lengths and stiffnesses; all four release types; prismatic, stepped and shear-flexible members",
  "tests check a few entries at fixed numbers; symmetry, rigid-body equilibrium and flexibility are identities over all of them",
  ["beam.py", "section.py"],
  [("member stiffness by release type", "beam.py:Beam.k_FF,k_FP,k_PF,k_PP"), ("flexibility integration", "beam.py:k_nonprismatic"), ("shear-flexible stiffness", "beam.py:k_timoshenko")],
  ["Beam.get_span_k"])

p("C06", "Unstable structures are refused and stable ones are not",
  "An analysis is refused with an error exactly when the supports and releases leave the structure a mechanism, whatever its dimensions and stiffnesses and the units they are in; a stable structure is analysed even when it is very flexible or very stiff in places. "
  "A movement prescribed at a spring that is itself loaded is refused too. A refused analysis leaves no results behind that could be mistaken for its own.",
  [IN, CF, HI], "all one-span and two-span support and release combinations and selected three-span ones; all lengths and stiffnesses within wide ratios",
  "whether a structure is a mechanism is combinatorial in the supports and releases and the numerical test must be right at every scale; tests name a handful",
  ["analysis.py", "beam.py"],
  [("stability test of the restrained stiffness", "analysis.py:_check_stability,analyze"), ("support restraints", "beam.py:Beam.restraints")],
  ["BeamAnalysis.analyze", "BeamAnalysis.beam_results"])

p("C07", "Results depend on the structure, not on how it is described",
  "Describing the same physical beam from the other end, with a member cut in two at a joint that carries nothing, or in other units of length and force - however far apart - gives the same reactions, displacements and diagrams after the obvious conversion, shear flexibility, foundations, varying stiffness and imposed curvature included. "
  "Stiffening all members by one factor divides load-induced displacements by it, a uniform rigid movement of all supports changes no force, and the displacement at one point due to a unit load at another equals the reverse.",
  [IN, CF], "all lengths, stiffnesses, loads and factors over the listed topologies and all pairs of loaded degrees of freedom",
  "these are relations between whole analyses that no table of expected values can express",
  ["analysis.py", "beam.py", "load.py", "results.py"],
  [("assembly", "analysis.py:_assemble,_forces"), ("release-dependent member behaviour", "beam.py:get_span_k,get_ref"), ("member recovery", "results.py:_member_values")],
  ["BeamAnalysis.analyze", "BeamResults"])

p("C08", "Imposed curvature acts as curvature that is free of force",
  "A prescribed free curvature along a member (temperature gradient, shrinkage) bends a statically determinate beam with no forces at all, and in an indeterminate one the total curvature is M/EI plus the imposed curvature with compatible, equilibrated reactions. "
  "Deflections and rotations along the member follow the total curvature, and the effect adds to that of other loads.",
  [IN, CF], "all lengths, stiffnesses and curvature coefficients up to cubic variation, with every release type and shear flexibility",
  "closed forms are tested for uniform curvature only; the varying coefficients and releases are combinations",
  ["load.py", "beam.py", "results.py"],
  [("fixed-end actions of imposed curvature", "load.py:LoadIC"), ("curvature in member recovery", "results.py:_member_values")],
  ["BeamAnalysis.analyze", "BeamResults.vRes"])

p("C09", "Shear-flexible members follow Timoshenko beam theory exactly",
  "With a shear stiffness given for a span (one number for all, or one per span), the reactions, displacements and diagrams are those of the exact Timoshenko solution for every load kind and release, spans without one staying shear-rigid. "
  "The deflection along the member includes the shear deformation, so that it meets the nodal displacements at both ends.",
  [IN, CF], "all lengths, bending and shear stiffnesses, load magnitudes and positions, releases and settlements over the listed topologies",
  "tests fix a few tabulated cases; load kinds, releases and mixed spans are combinations with separate code",
  ["beam.py", "results.py", "analysis.py"],
  [("shear-flexible stiffness and fixed-end forces", "beam.py:k_timoshenko,_ref_timoshenko"), ("shear deflection in recovery", "results.py:_member_values")],
  ["BeamAnalysis.analyze", "BeamResults.D", "BeamResults.vRes"])

p("C10", "Members of varying stiffness follow exact beam theory",
  "For members whose bending stiffness varies along the span in steps, linearly or along a polynomial, the end rotations and displacements, reactions and diagrams are those of the exact beam-theory solution with that variation, under every load kind, release and shear stiffness. "
  "Position along the span is measured from the member's left end, and deflections between the nodes follow the same curvature.",
  [IN, CF], "all load magnitudes (and positions where listed) over a table of stiffness variations, supports, releases and load kinds",
  "the integration is numerical and separate for every load kind; tests compare a few symmetric shapes",
  ["beam.py", "section.py", "results.py"],
  [("numerical flexibility and load integrals", "beam.py:k_nonprismatic,_ref_nonprismatic"), ("stiffness variation", "section.py:SectionEI"), ("curvature recovery", "results.py:_member_values")],
  ["BeamAnalysis.analyze", "BeamResults"])

p("C11", "Members on an elastic foundation follow the Winkler solution",
  "A span resting on a foundation modulus follows the closed-form solution of a beam on an elastic (Winkler) foundation to the accuracy of its automatic subdivision: displacements, reactions, shear and moment along it, next to ordinary spans and with any supports. "
  "Loads act only on their own extent, responses superpose, the member's stations stay inside the member, and combinations that are not supported are refused instead of ignored.",
  [IN, CF], "all load magnitudes (all positions in a cell for end displacements) over listed spans, stiffnesses, moduli and supports; fully symbolic for a member of two to four sub-elements",
  "the closed form must hold for each load position against the sub-element boundaries; tests use symmetric cases",
  ["foundation.py", "beam.py", "results.py"],
  [("sub-element condensation", "foundation.py:FoundationElement.__init__"), ("loads on sub-elements", "foundation.py:FoundationElement._subelement_loads"), ("recovery", "foundation.py:_concat_results")],
  ["BeamAnalysis.analyze", "FoundationElement"])

p("C12", "Influence lines give the effect of a unit load at every position",
  "The influence line of a moment, shear or support reaction at a place on the beam is, at every position of the unit load, that effect in the static analysis of the load there, and it has the shape the beam takes under the matching unit displacement (Betti and Mueller-Breslau). "
  "The ordinates do not depend on the magnitude of the load used, on which influence lines were asked for before, or on the restraints being fixed or sprung, and loads given as a combination of places and magnitudes act in sum.",
  [IN, HI], "all load magnitudes, stiffnesses and sampled spans over the listed topologies; every sampled position and requested place",
  "each ordinate is a full analysis and the sampling meets nodes and ends; tests look at a few ordinates of symmetric beams",
  ["inf_lines.py", "analysis.py"],
  [("unit load positions", "inf_lines.py:create_ils"), ("extraction of ordinates", "inf_lines.py:get_il"), ("reaction numbering", "analysis.py:BeamAnalysis")],
  ["InfluenceLines.create_ils", "InfluenceLines.get_il"])

p("C13", "An envelope bounds all its results, is attained, and keeps their history",
  "The envelope of any set of results of one beam is, at every station and support, exactly the largest and smallest of each effect among them, with the other effect of the very result that governs as its coincident value. "
  "Augmenting gives the envelope of the union, summing adds extremes and coincident values station by station, zeroing changes nothing else, and the order of results makes no difference to the bounds; each support's reaction history lists every result in order.",
  [IN, HI], "all values of the load effects of two to four results, and all orders of augmenting and summing of two or three envelopes",
  "which result governs can change from station to station; tests check one shape of traverse",
  ["results.py"],
  [("extremes and coincident values", "results.py:Envelopes.__init__"), ("union", "results.py:Envelopes.augment"), ("sum", "results.py:Envelopes.sum")],
  ["Envelopes", "Envelopes.augment", "Envelopes.sum", "Envelopes.zero_like"])

p("C14", "A vehicle crossing is the static analysis of its axles at each position",
  "For every front-axle position, from before the deck to past it, the result is that of the static loads plus a point load for each axle that stands on the deck, at its own distance behind the front axle, and a traverse is the list of these at evenly stepped positions with their envelope. "
  "The reported critical values are the extremes over all positions with the place, positions and coincident effect at which they occur and those of other runs are refused, ratios of two envelopes are theirs, and the bridge keeps its static loads and nothing of the vehicle.",
  [IN, HI], "all axle weights, front-axle positions, start positions and step lengths (in listed ranges), over listed bridges and axle spacings of up to three axles",
  "axles meet supports, ends and spans at arbitrary positions; tests use a few positions",
  ["bridge.py", "vehicle.py", "results.py"],
  [("axle loads", "bridge.py:_axle_LM"), ("traverse", "bridge.py:run_vehicle"), ("critical values", "bridge.py:critical_values")],
  ["BridgeAnalysis.static_vehicle", "BridgeAnalysis.run_vehicle", "BridgeAnalysis.critical_values"])

p("C15", "Lane loads cover the deck outside the clear zone; shear points give both sides",
  "A lane load accompanying a vehicle covers exactly the deck outside the stretch from the clearance behind the rear axle to the clearance ahead of the front axle, at every vehicle position, or the whole deck when no clearance is given; it acts together with the axles and the static loads. "
  "At every section where shear is asked for on both sides, on a node or inside a span, the two values are the shears just left and just right of it, in single positions, traverses and envelopes alike.",
  [IN, CF], "all lane intensities, axle weights, clearances and positions within each cell between nodes, over listed bridges and axle layouts; sections at every kind of place",
  "the clear zone's ends meet nodes, deck ends and each other; tests use one position and the middle of a span",
  ["bridge.py", "analysis.py", "results.py"],
  [("lane load layout", "bridge.py:_lane_LM"), ("shear sections", "results.py:shear_points"), ("traverse with lane load", "bridge.py:run_vehicle")],
  ["BridgeAnalysis.static_vehicle", "BridgeAnalysis.run_vehicle", "BeamAnalysis.analyze", "Envelopes"])

p("C16", "Vehicle data stay consistent when vehicles are turned round and joined",
  "A vehicle's axle positions, length and total weight follow from its spacings and weights; turned round it is its mirror image, in place or as a new vehicle, and twice turned it is itself; a train of vehicles is their axles one after the other with the given gaps, whatever the number of axles and gaps. "
  "A crossing by a vehicle turned round is the crossing of its mirror image, a train acts as its vehicles acting together, and the design vehicles have the axle weights and spacings of their definition.",
  [IN, CF], "all spacings, weights and gaps for one to four axles and one to three vehicles; crossings over listed bridges with all axle weights",
  "derived data are stored next to the data they come from; tests look at one vehicle each",
  ["vehicle.py", "bridge.py"],
  [("derived axle data", "vehicle.py:Vehicle.__init__"), ("turning round", "vehicle.py:Vehicle.reverse,reversed"), ("trains", "vehicle.py:make_train"), ("design vehicles", "vehicle.py:VehicleLibrary")],
  ["Vehicle", "Vehicle.reversed", "make_train", "VehicleLibrary"])

p("C17", "Combining load cases is combining their responses on the same beam",
  "Each load case is analysed on its own on exactly the beam it was defined for (stiffnesses, releases, springs, settlements and foundation included), and on a beam without settlements a combination with any factors gives the factored sum of its cases' responses, the same as analysing the factored loads together. "
  "Envelopes over selections of cases and combinations that target an effect at a place take exactly the adverse cases, a load spread over part of the beam covers just that part whatever spans it crosses, and neither the beam, the loads given nor the other cases are altered.",
  [IN, CF, HI], "all load magnitudes, factors, extents (in each cell between supports) and signs of the effects, over listed beams, two to four cases and listed target places",
  "superposition, selection by sign and partition of loads must hold for all values; tests use round numbers on one beam",
  ["load_cases.py", "load.py"],
  [("model of a load case", "load_cases.py:build_pycba_model"), ("factored loads", "load.py:factor_LM"), ("selection at a place", "load_cases.py:_make_target_combination,_response_at"), ("selections of cases", "load_cases.py:additive_envelope,sign_selective_envelope"), ("partial loads", "load_cases.py:_make_segment_udl,make_patterned_udl")],
  ["LoadCases", "LoadCombination", "additive_envelope", "sign_selective_envelope", "make_patterned_udl"])

p("C18", "Load patterns put the larger factor on exactly the spans they name",
  "Patterning dead and live loads gives one arrangement for each pair of adjacent spans, one for the odd spans, one for the even spans and one for all, in each of which every load on the named spans carries its larger factor and every other load its smaller one. "
  "The envelope is that of the analyses of just these arrangements on the very beam, may be asked for again with the same result, and leaves the loads given unchanged.",
  [IN, CF], "all load magnitudes and factors and every load kind, on beams of one to five spans",
  "the arrangement depends on the number of spans and each load kind is factored by its own rule; tests compare one beam",
  ["pattern.py", "load_cases.py", "load.py"],
  [("arrangements", "pattern.py:LoadPattern.to_load_cases"), ("choice by span", "load_cases.py:_choose_max_by_span"), ("factored loads", "load.py:factor_LM")],
  ["LoadPattern.analyze", "LoadPattern.to_LM"])

p("C19", "A tendon's equivalent loads give its force times its eccentricity",
  "On a statically determinate beam the moment due to the equivalent loads of a tendon is minus its force times its eccentricity at every section, and on a continuous beam it differs from that only by moments due to the support reactions: straight in each span, continuous over supports and zero at free and pinned ends. "
  "This holds for every profile kind, with its high points at or inside the supports, on spans and cantilevers, across joints of members between supports and over springs, with unstressed spans and with force or eccentricity changing between spans; impossible profiles are refused.",
  [IN, CF], "all span lengths, forces, eccentricities (in listed sign ranges) and positions of bends, low points and curvature changes within each quarter of the span, over listed beams",
  "profile geometry, distributed loads, kinks and anchorages must fit together for all dimensions; tests use a few symmetric profiles",
  ["prestress.py"],
  [("profile geometry", "prestress.py:Parabola,CompoundParabola,Harp,DoubleHarp"), ("equivalent loads and anchorages", "prestress.py:equivalent_loads")],
  ["equivalent_loads", "BeamAnalysis.analyze"])

p("C20", "Free vibration answers the eigenproblem of the beam, its mass and its supports",
  "Each natural frequency and mode shape satisfies the equations of motion of the finite element model of the beam with its stiffness, distributed mass, fixed supports and springs, span by span, with no displacement where the beam is held; frequencies ascend, periods are their inverses and shapes are reported at their places along the beam, scaled to a largest value of one. "
  "The answer does not depend on loads or earlier analyses, and what the analysis does not cover (shear flexibility, releases, foundations, varying stiffness, masses not one per span) is refused.",
  [IN, CF], "all stiffnesses, masses, span lengths, spring stiffnesses and every pair of frequency and shape, over one to three spans divided into one to three elements",
  "one wrong entry of a mass matrix moves frequencies by little; tests compare first frequencies of textbook beams with tolerance",
  ["modal.py", "analysis.py"],
  [("element matrices", "modal.py:_k_ebeam,_m_consistent"), ("assembly, supports and solution", "modal.py:solve_modal"), ("reported modes", "modal.py:ModalResults"), ("masses", "modal.py:_broadcast_mass")],
  ["BeamAnalysis.modal", "ModalResults.mode_shape"])

p("C21", "Plastic redistribution carries the load up to a true collapse mechanism",
  "At every load step the reported moments balance the load, and each step is compatible with the stiffness left by yielding as documented: hinges form exactly where and when the moment reaches the plastic moment of the weaker member, and collapse is reported exactly when the hinges formed make a mechanism, never below the load of plastic theory. "
  "A moving vehicle gives the elastic answer until first yield, is followed position by position with hinges and collapse reported where they happen, and leaves nothing behind on an elastic beam; members and loads outside the method are refused.",
  [IN, CF, HI], "all load magnitudes in listed ranges (stiffnesses and plastic moments in the elastic range and at supports), with and without hardening, over listed beams of two to six elements, load and vehicle arrangements",
  "redistribution is a history of hundreds of steps whose order depends on the load; tests compare collapse factors of a few textbook beams",
  ["nonlinear.py"],
  [("stiffness after yield", "nonlinear.py:_assemble_from_elem_R,_update_R"), ("collapse", "nonlinear.py:_is_mechanism,_cluster_hinges"), ("load history", "nonlinear.py:analyze"), ("moving loads", "nonlinear.py:analyze_moving"), ("mesh and loads", "nonlinear.py:_build_mesh,_build_force_vector")],
  ["NonlinearBeamAnalysis.analyze", "NonlinearBeamAnalysis.analyze_moving", "NonlinearResult"])

p("C22", "A beam described by text, names or piece by piece is the beam it says",
  "A beam string gives exactly the spans and terminals written in it - held, built in, free, hinged, with the reactions and continuity these words mean - and text that is not such a description is refused, as are unknown support names, member types and lists of the wrong length. "
  "Supports by name or raw pair, member types by number, name or constant, and loads given at once, one by one or replaced, all give the same answer, and a place on the beam is found in the right span at the right distance along it.",
  [IN, CF], "all span lengths (as numbers and as text), load magnitudes and places along the beam, over listed descriptions of one to four spans and every way of writing a support or member type",
  "each spelling is its own path to the same model; tests try a few strings",
  ["utils.py", "types.py", "beam.py", "load.py", "analysis.py"],
  [("beam strings", "utils.py:parse_beam_string"), ("supports by name", "utils.py:supports_to_R"), ("member types", "types.py:MemberType"), ("span coordinates", "beam.py:get_local_span_coords"), ("building loads", "analysis.py:add_udl,add_pl,add_pudl,add_ml,add_trap,add_ic,set_loads")],
  ["parse_beam_string", "supports_to_R", "BeamAnalysis", "Beam.get_local_span_coords"])

p("C23", "Values read back from results are those computed at that place",
  "A result asked for at a position along the beam - one effect or all, from an analysis or an envelope - is the computed value there, interpolated between the stations of the member that holds it (the left one at a joint); deflection curves, tables, CSV files and per-span values hold just the computed stations and values. "
  "The values at a member's two ends are those its nodes and end forces have, and asking before an analysis is refused or answered with nothing, never with wrong numbers.",
  [IN, CF], "all load magnitudes and query positions within each cell between stations, over listed beams of one to three spans and analyses and envelopes of them",
  "span-joint bookkeeping and interpolation between stations differ at every station; tests query a few places",
  ["results.py", "analysis.py", "bridge.py"],
  [("values at a position", "results.py:BeamResults.at"), ("values of an envelope", "results.py:Envelopes.at,per_span"), ("tables and files", "results.py:to_dataframe,to_csv")],
  ["BeamResults.at", "Envelopes.at", "BeamAnalysis.deflection_curve"])

p("C24", "A section built of segments has the stiffness entered, at every place",
  "The stiffness of a section built of constant, linear, piecewise, polynomial and computed segments is, everywhere along it, the one entered, with the value to the left at a step, its length and breakpoints are those of its segments, and it is constant exactly when all of it is. "
  "What is not a segment - gaps, overlaps, wrong order, wrong count, unknown kind, stiffness not positive - is refused and leaves the section as it was, and a section is used in a span only if it has the span's length, measured from the span's own left end.",
  [IN, CF], "all segment lengths, stiffnesses, query positions and misfits for one to five segments of every kind and combination listed, entered in four ways",
  "every position of every kind is its own formula, and the joints decide which segment answers; tests query a few points",
  ["section.py", "beam.py"],
  [("segments", "section.py:SectionEI.add_segment"), ("value at a place", "section.py:SectionEI.__call__"), ("fit to the span", "section.py:validate_length")],
  ["SectionEI", "BeamAnalysis"])

p("C25", "Diagrams drawn are those computed, with their places, in the units asked for",
  "Every diagram a user can draw - of an analysis, envelope, vehicle crossing, influence line, mode, nonlinear history, tendon, section, vehicle or load pattern - carries the values computed at their places along the beam, multiplied by the factors of the units in force and labelled with them, with sagging moments below the line. "
  "What is drawn is the same from either plotting backend and whichever overload asks for it, drawing changes neither the results nor the beam, and asking before there is something to draw is answered so.",
  [IN, CF, HI], "all load magnitudes, vehicle weights and spacings, tendon and section dimensions in listed ranges, over listed beams, vehicle positions, unit systems and both backends",
  "a curve drawn of the wrong member, at the wrong place or in the wrong unit passes every test that only checks a figure came back",
  ["plotting.py", "analysis.py", "results.py", "bridge.py", "inf_lines.py", "nonlinear.py", "section.py", "vehicle.py", "prestress.py", "modal.py", "load_cases.py", "units.py"],
  [("result diagrams", "analysis.py:plot_results,plot_bmd,plot_sfd,plot_dsd"), ("interactive diagrams", "plotting.py:diagram_figure,results_figure,envelope_figure"), ("envelope diagrams", "results.py:Envelopes.plot,plot_coincidents"), ("vehicle diagrams", "bridge.py:plot_static,plot_envelopes,plot_ratios"), ("influence lines", "inf_lines.py:plot_il"), ("nonlinear diagrams", "nonlinear.py:plot_moments"), ("sections, vehicles, tendons", "section.py:plot, vehicle.py:plot_vehicle, prestress.py:plot_tendon")],
  ["BeamAnalysis.plot_results", "Envelopes.plot", "BridgeAnalysis.plot_envelopes", "InfluenceLines.plot_il", "NonlinearResult.plot_moments"])

p("C26", "The schematic shows the beam and the loads analysed",
  "The schematic of a beam, drawn or written as TikZ, shows its spans, supports, hinges and springs where they are, and every load where it acts, with its direction, extent, intensity and label, all loads of the beam and no other; the ground under founded spans and the depth of a beam of varying stiffness, which follows its stiffness, are shown along just those spans. "
  "Labels are in the units asked for, reactions shown are those computed with their directions, and a beam can be drawn from what was shown: analysing what the drawing shows gives the results of the beam.",
  [IN, CF], "all load magnitudes of both signs, their places and extents and span lengths in listed ranges, over listed beams with every kind of support and load and four unit systems",
  "each sign, kind and place is its own path of the drawing code; tests check that a figure comes back",
  ["render.py", "analysis.py", "units.py", "beam.py"],
  [("schematic of the beam", "render.py:BeamPlotter"), ("TikZ source", "render.py:BeamPlotter.render_tikz,save_tikz"), ("labels", "units.py:UnitSystem"), ("reactions", "analysis.py:plot_reactions")],
  ["Beam.plot", "Beam.to_tikz", "BeamAnalysis.plot_beam"])

p("C27", "Analyses do not disturb one another, their earlier results or the data given",
  "Whatever was analysed before - static loads, settlements, other or unstable supports, influence lines, vehicles, load cases, patterns, tendons, vibration, redistribution, drawings - with the same objects or with others sharing the same lists, sections, vehicles and load cases, an analysis gives the answer it gives on a beam built afresh. "
  "Results handed out earlier and the lists, arrays and objects given stay as they were, and loads added later belong to the one beam they were added to.",
  [IN, CF, HI], "all load and axle magnitudes, over all ordered pairs (and listed triples) of twenty kinds of analysis on the same objects of listed beams",
  "the outcome depends on the order of operations and on who shares a list; tests run each analysis on objects of its own",
  ["beam.py", "analysis.py", "bridge.py", "load_cases.py", "pattern.py", "inf_lines.py", "results.py", "vehicle.py", "nonlinear.py", "prestress.py"],
  [("load list of a beam", "beam.py:Beam.loads,add_load"), ("stability check remembered", "analysis.py:BeamAnalysis.analyze"), ("static loads of a bridge", "bridge.py:BridgeAnalysis.static_LM"), ("load cases on the model", "load_cases.py:build_pycba_model"), ("results handed out", "results.py:BeamResults,Envelopes")],
  ["BeamAnalysis.analyze", "BridgeAnalysis.run_vehicle", "LoadCases.envelope", "LoadPattern.analyze", "InfluenceLines.get_il"])

p("C28", "Every kind of analysis gives the same answer in any consistent units",
  "The same problem stated with its lengths and forces in other units - metres or millimetres, newtons or meganewtons - gives the same answer but for the units: standing vehicles, crossings with their envelopes, critical values and positions, lane loads, influence lines, load cases and their combinations and envelopes, chosen target patterns, factored load patterns, equivalent tendon loads, values read at a place, and the hinges, moments and load factor of plastic collapse. "
  "No step, tolerance, station or choice depends on how big the numbers are.",
  [IN, CF], "all load magnitudes in listed ranges, over beams of one to three spans (hinged, on springs, shear flexible, on an elastic foundation, with a free end) and seven changes of units up to nine orders of magnitude; all changes of both units from a hundredth to a hundredfold on three of the beams",
  "an absolute tolerance or a forgotten factor is harmless at the size of numbers tests use",
  ["bridge.py", "inf_lines.py", "load_cases.py", "pattern.py", "prestress.py", "nonlinear.py", "results.py", "vehicle.py"],
  [("critical positions", "bridge.py:critical_values"), ("steps of a crossing", "bridge.py:run_vehicle,run_load_model"), ("influence line positions", "inf_lines.py:create_ils"), ("segments of load cases", "load_cases.py:add_segment_udl"), ("tendons", "prestress.py:equivalent_loads"), ("collapse", "nonlinear.py:analyze")],
  ["BridgeAnalysis.run_vehicle", "BridgeAnalysis.critical_values", "InfluenceLines.create_ils", "LoadCases.envelope", "LoadPattern.analyze", "equivalent_loads", "NonlinearBeamAnalysis.analyze"])
