import json
SIM="source_py/simulation/"
PL=SIM+"percolation_sq_lattice.py"; LA=SIM+"lattice.py"; CL=SIM+"cluster.py"; IX=SIM+"index.py"
L12=SIM+"percolation_sq_lattice_L1L2.py"; L0=SIM+"percolation_sq_lattice_L0.py"; SP=SIM+"percolation_sq_lattice_shortest_path.py"
EN="run_py/ensemble.py"; RS="run_py/rsbd_percolatioin_run.py"; SR="run_py/shortest_path_run.py"; LN="source_py/analyze/lines.py"
P=[]
def p(id,title,st,over,q,why,files,mech,state=None,obs=None,hook=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":q},"why_tests_cant":why,"anchors":a})

p("P01","The lattice is a periodic square lattice",
"For every side length of 3 or more the lattice has L*L sites and 2*L*L bonds; each site has four distinct bonds leading to its right, lower, left and upper neighbour with periodic wrap-around, and each bond joins exactly the two adjacent sites that list it. Numeric identifiers and (row, column) or (type, row, column) positions convert into one another one-to-one, and neighbours are always one lattice step apart.",
["inputs","configurations"],"every side length L >= 3, every site and every bond",
"Quantifies over all L; tests scan six lengths, and only for incidence symmetry (a twisted or reflected torus passes them).",
[LA,SIM+"site.py",SIM+"bond.py",IX],[("identifier arithmetic for right/bottom/left/top bonds","Lattice.find_neighbor_bonds and helpers, "+LA),("incidence built once at construction","Lattice.init_ids, "+LA)],
[("site/bond tables","flattened by row-major id; vertical bonds follow horizontal ones",LA)],["connecting_bonds / connected_sites / get_all_neighbor_sites / calculate_id_from_index"])

p("P02","Each successful placement occupies exactly one previously empty site",
"A placement either occupies exactly one site that was empty, leaving every other site's occupation as it was, or reports that it did not place a site and changes no occupation. Occupied sites stay occupied until a reset, the occupation probability is always (number of occupied sites)/(number of sites), and a run without a custom list ends with every site occupied exactly once.",
["inputs","histories"],"every side length >= 2, every simulator kind (plain, L1, L2, shortest-path), every order and every history of placements and resets",
"Must hold at each step of every order; tests look at the end of a handful of complete runs.",
[PL,L12],[("site selection and cursor","SitePercolation.select_site, "+PL),("occupied counter","occupied_site_count, "+PL),("L1/L2 selection","select_site, "+L12)],None,["is_occupied of each site after each call","occupation_prob()","return value of the placement call"])

p("P03","Clusters are exactly the connected components, for sites and for bonds",
"After every placement two occupied sites carry the same cluster label if and only if they are connected through occupied nearest neighbours on the periodic lattice; a bond belongs to the cluster of its occupied endpoint(s), and a bond with no occupied endpoint is a cluster of its own. The cluster pool agrees with the labels: every occupied site and every bond is listed exactly once, in the cluster whose label it carries, and every other cluster is empty.",
["inputs","histories"],"every side length >= 2, every placement order of every simulator kind, every prefix",
"Every order and prefix; tests only check that at full occupation everything is in one cluster.",
[PL,CL,LA],[("merge with relabelling","SitePercolation.merge_clusters_v2, "+PL),("pool merge / clear","ClusterPool.merge_cluster_with, clear_cluster, "+CL)],
[("site and bond labels","group id of every site and bond",SIM+"element.py"),("cluster lists","site and bond ids per cluster",CL)],["site/bond label getters","ClusterPool getters"])

p("P04","Wrapping is reported exactly when a cluster first winds round the lattice",
"When asked after each placement, the wrapping test answers no as long as no cluster of occupied sites contains a closed path that winds round the periodic lattice (horizontally, vertically or both), and yes from the first placement that creates such a path. Once reported, wrapping stays reported until a reset, and the reported wrapping cluster is the one that contained that first path.",
["inputs","histories"],"every side length >= 2, every placement order, every shape of loop including diagonal and multiply winding ones",
"All orders and loop shapes; tests assert wrapping for one hand-made configuration (shuffled) and otherwise only at full occupation.",
[PL,IX,LA],[("jump in relative index between equal-label neighbours of the placed site","SitePercolation.detect_wrapping, "+PL),("relative indices","SitePercolation.relabel_relative_indices, "+PL)],
[("after_wrapping, wrapping_cluster_id","latched verdict and cluster",PL)],["detect_wrapping() return value after each placement","label of the wrapping cluster"])

p("P05","Relative coordinates measure displacement inside a cluster",
"In any cluster that does not wind round the lattice, the relative coordinates of two occupied sites differ by exactly the net lattice displacement along any occupied path between them. In a winding cluster they still agree with the site positions modulo the side length.",
["inputs","histories"],"every side length >= 3, every placement order and merge pattern (including merges across the periodic edges)",
"All merge patterns; the repository's own scan stops at the first good neighbour and accepts almost any assignment.",
[PL,IX,SIM+"site.py"],[("placing a site relative to the root cluster","SitePercolation.merge_clusters_v2, get_relative_index, "+PL),("shift of a merged cluster","relabel_relative_indices, "+PL),("periodic correction","wrapping_correction_relative_index, "+PL)],
[("relative index","unwrapped coordinate of an occupied site",SIM+"site.py")],["get_relative_index of each occupied site after each placement"])

p("P06","Critical-point values are those of the first wrapping moment, then frozen",
"From the first wrapping placement on, the critical occupation probability is the fraction of sites occupied at that moment and the critical site and bond counts are the sizes of the wrapping cluster at that moment. Later placements and queries never change them; before wrapping, and after a reset, all three are 0.",
["inputs","histories"],"every side length >= 2, every order, every history of further placements, queries and resets",
"Needs every order and the whole tail after the transition; tests compare five stored files.",
[PL],[("values latched in the wrapping branch","SitePercolation.detect_wrapping, "+PL),("cleared on reset","SitePercolation.reset / Percolation.reset, "+PL)],None,["get_pc, get_site_count_wrapping_cluster_pc, get_bond_count_wrapping_cluster_pc"])

p("P07","The wrapping order parameter follows the first wrapping cluster",
"The wrapping order parameter is 0 before wrapping and afterwards the fraction of all bonds that belong to the cluster containing the first wrapping path, even if another cluster is larger or also winds. It never decreases within a realization and equals 1 when the lattice is full.",
["inputs","histories"],"every side length >= 2, every order including those in which a larger cluster or a second winding cluster exists or is absorbed",
"Small wrapping clusters next to larger ones are rare in the sampled runs; tests only assert the final value 1.",
[PL],[("wrapping cluster kept as merge root","SitePercolation.merge_clusters_v2, "+PL),("order_param_wrapping","order_param_wrapping, "+PL)],None,["order_param_wrapping() after each placement","recorded wrapping series"])

p("P08","The largest-cluster order parameter is the true maximum",
"After every placement the largest-cluster order parameter equals the largest number of bonds in any single cluster divided by the total number of bonds; it never decreases within a realization, and starts from 0 after a reset.",
["inputs","histories"],"every side length >= 2, every order and history",
"Every prefix of every order; tests check only the final size.",
[PL],[("running maximum","SitePercolation.track_largest_cluster, "+PL)],None,["order_param_largest_clstr(), largest_cluster(), recorded largest series"])

p("P09","The entropy is the Shannon entropy of the bond-cluster distribution",
"At every moment the reported entropy equals, up to rounding, -sum mu*ln(mu) with mu the fraction of bonds in each cluster: ln(2*L*L) on the empty lattice, never increasing as sites are placed, 0 when one cluster holds all bonds. The incremental and the recomputed entropy always agree.",
["inputs","histories"],"every side length >= 2, every order, every number of clusters merged in one step, every history with resets",
"An incremental update has to be right for every merge pattern; tests compare five stored runs.",
[PL],[("subtract before / add after the merge","entropy_subtract, entropy_add, "+PL),("recomputation","entropy_v1, "+PL)],None,["entropy(), entropy_v1() after each placement; recorded entropy series"])

p("P10","The recorded table has one complete row per site placed by the run",
"Running a realization appends, for every site it places, one entry to each of the four series (occupation probability, entropy, largest-cluster and wrapping order parameters), in placement order, taken just after that placement and its wrapping test. The data table always has columns p, H, largest, wrapping of equal length for the current realization, whatever was run, placed by hand, truncated or reset before; the truncated test run records the placements before the wrapping one.",
["histories","inputs"],"every history of hand placements, runs, custom lists of different lengths and resets on one simulator",
"Depends on histories over several realizations of different lengths; tests never build the table.",
[PL],[("series appended in the run loops","SitePercolation.run_once, test_run_once, "+PL),("series renewed on reset","SitePercolation.reset, "+PL),("table assembly","get_data_array, "+PL)],[("the four series","per-placement records",PL)],["get_data_array and the four series getters"])

p("P11","A reset leaves nothing behind and takes nothing back",
"After a reset the simulator reports the empty-lattice state, and the realization that follows gives, for its order of placements, exactly the results a new simulator gives for that order. Series, sequences and tables handed out before a reset keep their contents afterwards.",
["histories"],"every sequence of realizations, complete or broken off at any point (before, at, after wrapping), with resets in between",
"Quantifies over what happened before the reset; tests reset fresh or fully occupied simulators only.",
[PL,LA,CL,L12,SP],[("reset chain","reset in Percolation, SitePercolation and subclasses, "+PL),("element reset","Site.reset, Bond.reset, source_py/simulation/site.py, bond.py"),("fresh list objects on reset","SitePercolation.reset, "+PL)],None,["all public getters right after reset and through the next realization","previously returned objects"])

p("P12","A custom site list is followed exactly",
"Given a list of sites (by number or by row and column) without shuffling, the plain simulator occupies exactly those sites in exactly that order and then stops; with shuffling it occupies exactly those sites in some order; a longer list given later continues after the entries already used, and a reset starts the list again. A list with a site outside the lattice is refused and changes nothing, and the caller's list is never modified.",
["inputs","histories"],"every list of distinct sites, both list forms, both shuffle modes, replacement of the list mid-run, resets",
"Input space of lists and histories; tests use two fixed lists and stored full permutations.",
[PL,LA],[("list installation and range check","set_custome_site_id_list, set_custome_site_index_list, "+PL),("cursor","select_site, "+PL),("index to id","calculate_id_from_index, "+LA)],None,["order of occupation, get_site_id_sequence, the caller's list object"])

p("P13","The L1 rule: an occupied candidate passes the choice to a nearest neighbour",
"In the L1 model a candidate that is empty is itself occupied; if it is occupied, one of its four nearest neighbours is drawn, each of the four being possible, and is occupied if it is empty; otherwise the attempt fails and changes no occupation. No site other than the candidate or the drawn neighbour is ever occupied by an attempt.",
["inputs","histories"],"every side length >= 3, every occupation pattern, every candidate, every drawn neighbour including across the periodic edges",
"The rule is a relation between configuration, draw and result; tests only check that the lattice ends full.",
[L12,LA],[("neighbour choice","SitePercolationL1.select_site, "+L12),("neighbour list","Lattice.get_all_neighbor_sites, "+LA)],None,["site occupied by an attempt made with a known candidate (one-entry custom list)"])

p("P14","The L2 rule continues straight through two occupied sites",
"In the L2 model a candidate that is empty is itself occupied; otherwise one of its four nearest neighbours is drawn, each being possible, and occupied if empty; if that neighbour is occupied too, the site one step further in the same direction, with periodic wrap-around, is occupied if it is empty. If all three are occupied the attempt fails and changes no occupation.",
["inputs","histories"],"every side length >= 3, every occupation pattern, candidate and direction, in particular steps that cross the periodic edges",
"Directions across the edge and all patterns; tests only check that the lattice ends full.",
[L12,IX],[("direction and periodicity","SitePercolationL2.select_site, correct_index_for_periodicity, Index.normalize, "+L12)],None,["site occupied by an attempt made with a known candidate (one-entry custom list)"])

p("P15","L1 and L2 runs withdraw only useless candidates and always fill the lattice",
"A candidate is withdrawn from the draw only when it is occupied and no further attempt through it can reach an empty site under the model's rule; empty sites always remain drawable. Hence every L1 or L2 run ends, with every site occupied once and the final call answering that nothing is left.",
["inputs","histories","schedules"],"every side length >= 2, every sequence of random draws, first run and runs after resets or with candidate lists",
"Quantifies over all draw sequences; tests see a few seeds and cannot see a candidate withdrawn too early.",
[L12,SIM+"site.py"],[("candidate withdrawal by swap with the cursor","select_site, "+L12)],[("candidate list and cursor","sites_ids_indices from current_idx on",L12)],["termination and final occupation; success of attempts through a candidate with one remaining empty target"])

p("P16","A seed fixes the whole realization",
"Two simulators of the same kind and size created with the same seed and driven by the same calls give identical orders, labels and numbers, whatever the process did before and whatever hash randomisation is in force. Inspection calls in between do not consume randomness.",
["inputs","histories","configurations"],"all seeds, sizes, kinds, prior process histories, hash seeds",
"A two-run property over prior histories and processes; tests never compare two runs.",
[PL,L12,EN],[("global generator seeded on construction","Percolation.__init__, "+PL),("shuffle","SitePercolation.shuffle, "+PL)],None,["orders and series of paired runs in separate processes"])

p("P17","A recorded order replayed through the plain simulator gives the same results",
"The site sequence and the position sequence reported after a run (of the plain, L1 or L2 model) list the occupied sites in the order in which they were occupied, and denote the same sites. Feeding either to the plain simulator as a custom list reproduces the critical values and all recorded series of the original run.",
["inputs","histories"],"every kind, size, seed, first runs and runs after resets",
"Cross-run relation for every run; tests replay five stored plain runs.",
[PL,L12],[("sequence getters","get_site_id_sequence, get_index_sequence, "+PL),("recorded L1 sequence","site_id_sequence_record, "+L12)],None,["sequence getters, series of original and replay"])

p("P18","Shortest-path point: first straight line across inside the wrapping cluster",
"A shortest-path run from an empty lattice stops at the first placement after which the wrapping cluster contains a complete row or column, and reports the occupation probability at that moment. If its list ends before that happens it reports 0 and occupies the whole list; the row and column scans answer yes exactly when such a line exists.",
["inputs","histories"],"every side length >= 3, every order and custom list, including lines completed before their cluster joins the wrapping cluster",
"Lines that join by a later merge are rare in random runs; tests only compare final scans for seeds.",
[SP],[("stop condition","ShortestPathAfter_pc.run_once, scan_row_col_of_selected_site, "+SP),("full scans","scan_all_rows, scan_all_cols, "+SP)],None,["get_shortest_path_p, occupation after the run, scans"])

p("P19","An ensemble file holds the exact mean and every realization's critical values",
"The table written by an ensemble run is, row by row and column by column, the arithmetic mean of the tables of the realizations it ran, and the critical-values file has one row per realization, in order, with that realization's critical probability, site count and bond count. No realization is lost, repeated or mixed with another.",
["inputs","histories","configurations"],"every kind, size, ensemble size >= 1, with and without worker number and seed",
"No test runs an ensemble.",
[EN],[("accumulate and divide","run_ensemble_entropy_order and the threads variants, "+EN),("writers","write_entropy_order, write_critical_values, "+EN)],None,["files written below ./data, per-realization tables captured by a recording simulator class"])

p("P20","Parallel launches share out exactly the requested realizations",
"A launch of N realizations over k workers makes the workers run N realizations in total, none a copy of another, each worker with its own number, a simulator of the requested kind and size, and its own result files. No interleaving or coincidence in time makes two workers write the same file, and a worker that dies costs only its own share.",
["schedules","configurations","fault_sequences"],"all N >= 1, k >= 1, kinds, interleavings and equal timestamps, death of any one worker",
"Concerns process interleavings, timestamps and faults; no test launches workers.",
[RS,SR,EN],[("split","run_simulation_threads_v3/v4, "+RS),("split","run_simulation_shortest_path_threads, "+SR),("worker number in file name","write_entropy_order, write_critical_values, "+EN)],None,["files and headers left in the data directory, arguments handed to workers"])

p("P21","File headers and names describe the data truthfully",
"Every result file's header gives the true side length and number of realizations and names the columns in the order in which they are stored, and its description of each column matches the quantity that column holds. The file name carries the simulator kind, the quantity, the side length and, if there is one, the worker number.",
["inputs","configurations"],"every writer, kind, size, ensemble size and worker number",
"No test reads a written file.",
[EN,SR,RS],[("header dictionaries","write_entropy_order, write_critical_values, run_ensemble_entropy_order_threads, "+EN),("header dictionary","write_p_p_star, "+SR)],None,["first line and name of each written file, against the data columns"])

p("P22","Inspection never disturbs a simulation",
"Displaying the lattice or clusters, self-checks and all query calls, in any number and at any point, change neither the state nor the further course of a simulation, and what they print or return about labels, cluster contents and relative coordinates is the current state.",
["histories","inputs"],"every interleaving of inspection calls with placements, runs and resets, every kind",
"Interleavings of inspection with progress; tests print but never compare with an undisturbed run.",
[PL,LA,CL],[("view and query methods read only","viewLattice, viewCluster, getters, "+PL)],None,["state before and after each inspection call, printed text"])

p("P23","Simulators in one process are independent",
"Driving several simulators alternately in any interleaving gives each of them exactly the results it would have alone for the order in which its own sites are occupied; no call on one changes what another reports.",
["schedules","histories"],"every interleaving of calls on two or more simulators of any kinds and sizes",
"Interleavings of two objects; tests use one at a time.",
[PL,CL,SIM+"site.py",SIM+"bond.py"],[("per-instance containers","constructors of Site, Bond, OneCluster, ClusterPool, Percolation, "+CL)],None,["full state of every simulator after each call"])

p("P24","The crossing finder brackets the crossing of two curves",
"For two sampled curves whose difference changes sign once, directly between neighbouring samples, the reported index is the last sample before the change; if the difference is zero on the way, the index is next to such a zero. With several crossings the first direct sign change is reported; the plotting variant returns the same index, and guide lines have the requested position, extent and number of points.",
["inputs"],"all pairs of sampled curves, given as vectors or as columns of tables",
"Input space; no test covers this module.",
[LN],[("sign differences","find_intersection, find_intersection_and_plot, "+LN),("line samples","draw_vertical_line_at, draw_horizontal_line_at, "+LN)],None,["return values"])

p("P25","A stored reference realization can be replayed from its file alone",
"The file written for a single realization contains the side length, the site and position sequences, the critical values and the entropy, largest and wrapping series of that very run. Replaying either stored sequence through the plain simulator reproduces all stored values.",
["inputs","configurations"],"every kind (plain, L1, L2), size and random run, including small sizes",
"Write-then-replay for arbitrary runs; the tests replay five files made in 2021 and never write one.",
[RS,PL,L12],[("file contents","single_realization, "+RS)],None,["the written file, a replay of it"])

p("P26","The shortest-path ensemble file has one true row per realization",
"The file written by a shortest-path ensemble has one row per realization, in order, holding that realization's critical probability and its shortest-path probability; the critical probability never exceeds the shortest-path probability.",
["inputs","histories","configurations"],"every size, ensemble size, seed and worker number",
"No test runs this ensemble.",
[SR,SP],[("row collection and writer","ensemble_shortest_path_v2_thread, write_p_p_star, "+SR)],None,["written file, values captured by a recording simulator class"])

p("P27","Without a custom list every occupation order can occur",
"Construction and every reset draw a new random order: on a small lattice every order of the sites occurs for some seed, successive realizations differ, and every order is a permutation of all sites. With a shuffled custom list every order of exactly the listed sites can occur.",
["inputs","histories"],"all kinds, seeds, first and later realizations",
"A statement about the set of reachable orders; tests never look at the order.",
[PL,L12],[("shuffle on construction and reset","SitePercolation.shuffle, "+PL)],None,["sequence of occupied sites over many seeds"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
