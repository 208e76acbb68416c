import json
LAT="source_py/simulation/lattice.py"; PER="source_py/simulation/percolation_sq_lattice.py"; CLU="source_py/simulation/cluster.py"
L12="source_py/simulation/percolation_sq_lattice_L1L2.py"; L0="source_py/simulation/percolation_sq_lattice_L0.py"; SP="source_py/simulation/percolation_sq_lattice_shortest_path.py"
SITE="source_py/simulation/site.py"; BOND="source_py/simulation/bond.py"; IDX="source_py/simulation/index.py"; EL="source_py/simulation/element.py"
ENS="run_py/ensemble.py"; RUN="run_py/rsbd_percolatioin_run.py"; SPR="run_py/shortest_path_run.py"
P=[]
def p(id,title,st,over,text,why,files,mech,obs,state=()):
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":text},"why_tests_cant":why,
      "anchors":{"files":files,"state":[{"name":a,"meaning":b,"where":c} for a,b,c in state],"mechanism":[{"name":a,"where":b} for a,b in mech],"observe_at":list(obs),"hook_needed":None}})
p("C01","Periodic square-lattice topology",
 "For every side length L >= 3 the lattice has L*L sites and 2*L*L bonds; every site touches four distinct bonds in the order right, bottom, left, top; and every bond joins exactly two distinct sites, a site and its right (horizontal bond) or lower (vertical bond) neighbour modulo L. A site lists a bond exactly when that bond lists the site.",
 ["inputs"],"all L >= 3, all sites and bonds","The tests construct a handful of lengths (4..10) and check counts and mutual membership, not which neighbour a bond joins, and never every L.",
 [LAT,SITE,BOND],[("bond ids of a site",LAT+":find_neighbor_bonds"),("wiring",LAT+":init_ids"),("appending endpoints",BOND+":add_connected_site")],["Site.connecting_bonds()","Bond.connected_sites()"])
p("C02","Id, row and column addressing is one bijection",
 "For every L >= 3, sites are numbered row*L + column and bonds type*L*L + row*L + column, and every element stored under an id carries that id and that position. Looking an element up by id or by position gives the same element, and converting a position to an id and back is the identity.",
 ["inputs"],"all L >= 3, all ids and all (row, column[, type]) positions in range","test_index tries a few literal indices on one length.",
 [LAT,SITE,BOND,IDX],[("id arithmetic",LAT+":calculate_id_from_index, get_id_from_index, get_row_col_from_id, get_site_by_index, get_bond_by_index"),("construction",LAT+":init_lattice")],["Lattice.get_site_by_id","Lattice.get_site_by_index","Lattice.get_bond_by_index","Lattice.calculate_id_from_index"])
p("C03","Neighbour queries are exact and read-only",
 "For every site of every lattice, the neighbour queries return exactly its four lattice neighbours in right, bottom, left, top order, and for an occupied site the wrapping query returns exactly those neighbours that belong to the site's own cluster, in that order. No neighbour query ever changes the lattice, so asking again gives the same answer.",
 ["inputs","histories"],"all L >= 3, all sites, all cluster labellings","Tests look at neighbour counts and symmetric membership for a few L; aliasing of the stored lists shows only when a query is repeated.",
 [LAT,PER],[("copying before removing the centre",LAT+":get_all_neighbor_sites, get_site_neighbor_of_site, get_sites_for_wrapping_test"),("other end of a bond",PER+":get_neighbor_site, get_connected_sites")],["Lattice.get_all_neighbor_sites","Lattice.get_site_neighbor_of_site","Lattice.get_sites_for_wrapping_test"])
p("C04","Cluster membership lists are an exact partition",
 "At every point of a simulation each bond is listed in exactly one cluster, exactly once, and carries that cluster's number; each occupied site likewise, and no unoccupied site carries a cluster number or is listed anywhere. Hence the cluster bond counts always add up to 2*L*L and the cluster site counts to the number of occupied sites.",
 ["inputs","histories"],"all L >= 3, every sequence of placements, merges and resets, in every selection mode","Tests compare totals only when the lattice is full; the intermediate states of arbitrary merge histories are not examined.",
 [CLU,PER],[("absorbing a cluster",CLU+":merge_cluster_with"),("dropping the absorbed list",PER+":merge_clusters_v2"),("initial clusters",PER+":init_clusters, "+CLU+":create_new_cluster")],["ClusterPool.get_sites/get_bonds","Site.get_gid","Bond.get_gid"],
 [("cluster_list","clusters with their member lists",CLU),("g_id","cluster number of an element",EL)])
p("C05","Clusters are exactly the connected components",
 "After every placement two occupied sites (and the bonds touching them) carry the same cluster number exactly when they are connected through a chain of occupied nearest neighbours on the periodic lattice. A bond with no occupied end is a cluster of its own.",
 ["inputs","histories"],"all L >= 3, all occupation sequences","The recorded cross-check runs are a few seeds; connectivity of arbitrary histories is never recomputed independently.",
 [PER,CLU],[("which clusters meet at a site",PER+":uniqe_gid_bond_neighbors, get_bond_gids"),("merging them all",PER+":merge_clusters_v2")],["Site.get_gid","Bond.get_gid"])
p("C06","Relative coordinates unfold each cluster consistently",
 "After every placement, for any two occupied sites of one cluster the difference of their relative coordinates equals the difference of their lattice positions modulo L in each direction. As long as the cluster does not wrap around the lattice, that difference is exactly the net displacement along any occupied path between them.",
 ["inputs","histories"],"all L >= 3, all occupation sequences, all pairs of sites in a cluster","test_relative_index only asks that some neighbour differs by 1 or L-1 and stops at the first; a wrong shift of a merged cluster can satisfy it.",
 [PER,IDX,SITE],[("coordinate of a neighbour",PER+":get_relative_index, wrapping_correction_relative_index"),("moving an absorbed cluster",PER+":relabel_relative_indices"),("coordinate of the new site",PER+":merge_clusters_v2")],["Site.get_relative_index"])
p("C07","Wrapping is reported exactly when a cluster wraps",
 "For L >= 3, when detection is run after each placement, wrapping is reported at the first placement that creates a closed occupied nearest-neighbour loop going around the periodic lattice, never earlier and never later. Once reported it stays reported until reset.",
 ["inputs","histories"],"all L >= 3, all occupation sequences","Each test run has one detection point on a few seeds and no independent wrapping oracle.",
 [PER,LAT],[("detection at the selected site",PER+":detect_wrapping"),("candidates",LAT+":get_sites_for_wrapping_test")],["SitePercolation.detect_wrapping()"])
p("C08","Critical values are those of the first wrapping and stay frozen",
 "The critical occupation, and the site and bond counts of the wrapping cluster at criticality, are the number of occupied sites over L*L and the sizes of the cluster that wraps at the placement where wrapping is first detected. They do not change with later placements or further detection calls, and before any wrapping all three queries give 0.",
 ["inputs","histories"],"all L >= 3, all sequences, any number of later placements and detection calls","Tests print pc but compare it only against a few recorded runs taken at the end.",
 [PER],[("recording",PER+":detect_wrapping"),("queries",PER+":get_pc, get_site_count_wrapping_cluster_pc, get_bond_count_wrapping_cluster_pc")],["get_pc()","get_site_count_wrapping_cluster_pc()","get_bond_count_wrapping_cluster_pc()"])
p("C09","The wrapping order parameter follows the wrapping cluster",
 "Before wrapping the wrapping order parameter is 0; from the first wrapping on it is the bond count of the cluster containing the site that closed the first wrapping loop, divided by 2*L*L, after every later placement. It never decreases, even when that cluster meets a larger one.",
 ["inputs","histories"],"all L >= 3, all continuations after wrapping, including merges with a larger non-wrapping cluster","A merge of the wrapping cluster with a larger cluster is rare on the tested seeds.",
 [PER],[("root choice after wrapping",PER+":merge_clusters_v2"),("order parameter",PER+":order_param_wrapping")],["order_param_wrapping()"])
p("C10","The largest-cluster order parameter is the true maximum",
 "After every placement the largest-cluster order parameter equals the largest bond count of any cluster divided by 2*L*L, and the reported largest cluster has that many bonds. It never decreases within a run and is 0 before the first placement.",
 ["inputs","histories"],"all L >= 3, all occupation sequences","Only the final value 1 and a few recorded curves are tested.",
 [PER],[("tracking",PER+":track_largest_cluster"),("order parameter",PER+":order_param_largest_clstr")],["largest_cluster()","order_param_largest_clstr()"])
p("C11","Incremental entropy equals the Shannon entropy of the cluster sizes",
 "After every placement the reported entropy equals -sum(mu*log(mu)) over all clusters with at least one bond, where mu is the cluster's bond count over 2*L*L, up to floating-point rounding. It is log(2*L*L) before the first placement, and the direct recomputation gives the same number.",
 ["inputs","histories"],"all L >= 3, all occupation sequences","Incremental and direct entropies are printed, and only recorded curves of a few seeds are compared.",
 [PER],[("incremental update",PER+":entropy_subtract, entropy_add, place_one_site"),("direct sum",PER+":entropy_v1")],["entropy()","entropy_v1()"])
p("C12","Plain percolation occupies sites one by one in the stored order",
 "Without interaction the k-th successful placement occupies exactly the k-th site of the stored sequence, which was empty before, and changes the occupation of no other site; the occupation probability is then k/(L*L). When the sequence is exhausted placement reports the end and changes nothing.",
 ["inputs","histories"],"all L >= 3, all stored sequences, all numbers of placements","Tests run to completion and never compare the occupied set with the sequence prefix.",
 [PER,L0],[("selection",PER+":select_site"),("placement",PER+":place_one_site")],["place_one_site()","occupation_prob()","Site.is_occupied"])
p("C13","Custom site lists are honoured, and invalid ones are rejected",
 "A custom list of site ids (or positions) within the lattice becomes the placement sequence, in the given order when shuffling is off, and exactly its entries are placed before the run ends. A list containing an id outside the lattice is rejected and leaves the simulation as it was.",
 ["inputs"],"all L >= 3, all custom lists (any length, order, either form)","Two literal lists are tested.",
 [PER,LAT],[("id lists",PER+":set_custome_site_id_list"),("position lists",PER+":set_custome_site_index_list"),("no shuffling",PER+":shuffle")],["set_custome_site_id_list","set_custome_site_index_list","get_site_id_sequence"])
p("C14","One-step interaction (L1) follows its selection rule",
 "In the L1 model each attempt draws a site uniformly from the remaining candidates; if it is empty that site is occupied, otherwise one of its four neighbours is drawn uniformly and occupied if empty, and otherwise nothing is occupied. A failed attempt occupies nothing and leaves every cluster, coordinate and observable as it was.",
 ["inputs","histories"],"all L >= 3, all histories and all random draws","The random rule is exercised on a few seeds and never compared with the rule itself.",
 [L12,LAT],[("selection",L12+":SitePercolationL1.select_site")],["place_one_site()","selection_flag"])
p("C15","Two-step interaction (L2) continues in the direction of the first neighbour",
 "In the L2 model each attempt draws a site X uniformly from the remaining candidates; if X is empty it is occupied, otherwise one of its four neighbours Y is drawn uniformly and occupied if empty, otherwise the site Z one further step from X through Y (periodically) is occupied if empty, and otherwise nothing is. A failed attempt occupies nothing and leaves every cluster, coordinate and observable as it was.",
 ["inputs","histories"],"all L >= 3, all histories and random draws, including steps across the periodic boundary","The rule is random and only seeds are tested; the boundary case occurs but is never checked.",
 [L12,LAT,IDX],[("selection",L12+":SitePercolationL2.select_site"),("periodicity",L12+":correct_index_for_periodicity")],["place_one_site()","selection_flag"])
p("C16","Interacting runs never lose an empty site",
 "In the L1 and L2 models every empty site remains among the candidates, a candidate is dropped only when it is occupied, and at most one is dropped per attempt. A run therefore reports the end only when every site of the lattice is occupied.",
 ["histories"],"all L >= 3, all histories and random draws","Losing a candidate needs a particular order of failed attempts; the tests only see that some seeds fill the lattice.",
 [L12,SITE],[("candidate removal",L12+":select_site"),("when a candidate may be dropped",SITE+":is_removable, reduce_1st_nn, reduce_2st_directional_nn")],["place_one_site()"])
p("C17","The recorded series are aligned, one row per placement",
 "After a run the occupation, entropy, wrapping and largest-cluster series all have exactly one entry per successful placement of that run, entry k holding the values after the k-th placement, and the data array has columns occupation, entropy, largest-cluster, wrapping in that order. This holds for every later run on the same object as well.",
 ["inputs","histories"],"all L >= 3, all models, any number of reset/run cycles","Tests run once per object, or look only at the last row.",
 [PER],[("recording",PER+":run_once"),("assembling",PER+":get_data_array")],["get_data_array()"])
p("C18","Reset restores a fresh simulation",
 "After a reset the simulation is indistinguishable from a newly constructed one of the same length except for the site order and the use of a custom list: no site occupied, every bond its own cluster, relative coordinates and per-site counters initial, wrapping, critical values, largest cluster and entropy initial and all series empty.",
 ["histories"],"all L >= 3, all states reachable before the reset, all models","One test resets once and runs again; leftovers that matter only on some histories are not seen.",
 [PER,LAT,CLU,L12,SP,SITE],[("reset",PER+":SitePercolation.reset, Percolation.reset"),("lattice reset",LAT+":reset"),("model resets",L12+":reset; "+SP+":reset")],["reset()"])
p("C19","A full lattice is one wrapping cluster",
 "When all L*L sites are occupied there is exactly one cluster holding all sites and bonds, the largest-cluster order parameter is 1, the entropy is 0, and if detection was run after every placement wrapping has been reported and the wrapping order parameter is 1.",
 ["inputs","histories"],"all L >= 3, all orders of occupation","Checked by the tests for a few seeds only.",
 [PER,CLU],[("merging",PER+":merge_clusters_v2"),("detection",PER+":detect_wrapping")],["test_clusters()","order_param_*()","entropy()"])
p("C20","The shortest-path run stops at the first full line of the wrapping cluster",
 "A shortest-path run places sites until, for the first time, the wrapping cluster contains a complete row or column of the lattice, and reports the occupation probability at that placement. If that never happens before the sites run out it reports 0.",
 ["inputs","histories"],"all L >= 3, all occupation sequences","Tests only ask that at the end some full line exists if and only if a value was reported; stopping late passes.",
 [SP],[("run",SP+":run_once"),("scan",SP+":scan_row_col_of_selected_site")],["run_once()","get_shortest_path_p()"])
p("C21","Row and column scans report exactly the full lines",
 "Once wrapping has been reported, the scan of a position returns two flags: the first is true exactly when all L sites of its row belong to the wrapping cluster, the second exactly when all L sites of its column do. The scan over all rows (row index running within a column) is true exactly when a wrapping cluster exists and some column lies completely in it; the scan over all columns exactly when one exists and some row does.",
 ["inputs"],"all L >= 3, all labellings and wrapping cluster numbers","Only labellings of a few final states are scanned.",
 [SP,LAT],[("scans",SP+":scan_all_rows, scan_all_cols, scan_row_col_of_selected_site")],["scan_all_rows()","scan_all_cols()"])
p("C22","Ensemble output is the mean over exactly the requested realizations",
 "An ensemble run of E realizations writes, row by row, the arithmetic mean of the data arrays of E independent reset-and-run realizations, and one critical-value row (critical occupation, site count, bond count) per realization, in order. The shortest-path ensemble likewise writes one row (critical occupation, path occupation) per realization.",
 ["inputs"],"all E >= 1, all L, all percolation classes","No stable test runs the ensemble drivers.",
 [ENS,SPR],[("accumulation",ENS+":run_ensemble_entropy_order, run_ensemble_entropy_order_threads, run_ensemble_entropy_order_threads_v2"),("rows",SPR+":ensemble_shortest_path_v2_thread")],["data files"])
p("C23","Data files describe themselves truthfully",
 "Every data file an ensemble run writes is named after the model signature, the length, the time and (if any) the process number, and its header gives the true length, ensemble size and column names, with each order-parameter column described as what it holds: the first the largest cluster's, the second the wrapping cluster's.",
 ["inputs"],"all lengths, ensemble sizes, times, process numbers and models","No stable test looks at a written file.",
 [ENS,SPR],[("headers",ENS+":write_entropy_order, write_critical_values; "+SPR+":write_p_p_star")],["data files"])
p("C24","Parallel runs perform exactly the requested number of realizations",
 "A parallel run of E realizations on T <= E processes starts exactly T processes with distinct numbers, whose ensemble sizes are positive, differ by at most one and add up to E, all with the requested length and the model selected by the interaction argument, and waits for all of them.",
 ["inputs","configurations"],"all E >= T >= 1, all lengths, all interaction values","No test starts the parallel drivers.",
 [RUN,SPR],[("splitting",RUN+":run_simulation_threads_v3, run_simulation_threads_v4; "+SPR+":run_simulation_shortest_path_threads")],["processes started"])
p("C25","A seed determines the simulation",
 "Constructing a simulation with a seed puts the random source into the state given by that seed before anything is drawn, and every later choice depends only on that source and the calls made. Two simulations of one model built with the same length and seed and driven by the same calls therefore occupy the same sites in the same order and record the same series.",
 ["inputs","histories"],"all seeds, lengths, models and call sequences","Tests fix a seed for convenience but never compare two runs.",
 [PER,L12],[("seeding",PER+":Percolation.__init__"),("drawing",PER+":shuffle; "+L12+":select_site")],["get_site_id_sequence()","get_data_array()"])
p("C26","The placement order is a permutation with a correct inverse",
 "After construction, shuffling or reset the placement order of the plain model lists every site exactly once, and the reverse table gives each site's place in it. Exchanging two sites exchanges their places, keeps both tables mutually inverse, and changes nothing else; exchanging a site with itself does nothing.",
 ["inputs","histories"],"all L >= 3, all shuffles, all pairs of sites","The reverse table and the exchange are not tested at all.",
 [PER],[("shuffle",PER+":shuffle"),("exchange",PER+":swap_ids")],["get_site_id_sequence()","swap_ids()"])
p("C27","Curve intersection finds the sharpest sign change",
 "The intersection of two equally sampled curves is an index i at which the sign of their difference changes the most between samples i and i+1, the first such index; the curves are the given arrays or the chosen column of each. It does not modify its inputs and does not depend on which curve is given first.",
 ["inputs"],"all pairs of equal-length arrays with at least two samples, with or without a column","No test covers the analysis code.",
 ["source_py/analyze/lines.py"],[("intersection","source_py/analyze/lines.py:find_intersection")],["find_intersection()"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
S=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,S); assert len(x['title'])<=80
print(len(P))
