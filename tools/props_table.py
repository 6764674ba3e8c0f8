S = "most_queue/sim/"
T = "most_queue/theory/"
R = "most_queue/rand_distribution.py"
U = "most_queue/theory/utils/"

prop("C01", "GI/G/n/r simulation follows the queueing discipline on every schedule",
     "In the basic simulator every arriving job starts service at once if a server is free, otherwise joins one FIFO line, "
     "and is lost only when the line already holds `buffer` jobs; whenever a service ends the job at the head of the line starts in that "
     "very moment. After every event the reported clock, the numbers of arrived, started, served and dropped jobs, the number in system and the "
     "queue length are exactly those of that discipline, so arrived = served + dropped + in system at all times, in whatever units time is counted.",
     ["schedules", "configurations"],
     "every order in which the pending arrival and service clocks can expire, for 1-3 channels and buffers none, 0, 1, 2",
     "Tests run one random history per configuration and compare long-run means with 10-100% tolerances; rare orderings and off-by-one drops disappear in the averages.",
     [S + "qs_sim.py", S + "utils/servers.py", S + "utils/qs_queue.py", S + "utils/tasks.py"],
     [("QueueingSystemSimulator.arrival / serving / run_one_step", S + "qs_sim.py")],
     SCHED, "All schedules to the stated depth plus all schedules within a deviation bound of long default policies; ties between events are excluded (their order is not specified).",
     observe=["ttek", "arrived", "taked", "served", "dropped", "in_sys", "queue.size()"])

prop("C02", "Simulator statistics equal the averages of the simulated history",
     "After every event of the basic simulator the first three moments of waiting time are the exact averages over all jobs whose service has started "
     "(zero for jobs that found a free server), those of sojourn time over all completed jobs, and those of the busy period over all "
     "completed maximal intervals during which every channel was occupied; state probability p[j] is exactly the fraction of the elapsed time with j jobs in the system, and all "
     "p[j] sum to one.",
     ["schedules", "histories"],
     "every event ordering to the stated depth, 1-3 channels, with and without a buffer limit, with and without warm-up/cooling",
     "Tests only print or loosely compare long-run values; the busy period is never checked and a misattributed interval is invisible in the mean of a long run.",
     [S + "qs_sim.py", S + "utils/stats_update.py", S + "utils/phase.py"],
     [("refresh_moments_stat, refresh_*_stat, get_p", S + "qs_sim.py")],
     SCHED, "Exact comparison (1e-9) with the averages recomputed from the whole history by the reference model.",
     observe=["w", "v", "ppnz", "get_p()"])

prop("C03", "The choice of queue container never changes a simulation",
     "A simulator built with buffer_type 'list' and one built with 'deque' are indistinguishable: on the same draws they report the same clock, counters, moments and probabilities after every event, and both "
     "containers behave as one FIFO line under every sequence of append, pop and size. Any other buffer_type is rejected when the simulator is constructed.",
     ["histories", "schedules"],
     "every sequence of append/pop operations to a depth; every event ordering to a depth under both containers",
     "The queue-type test compares two random runs on timing only.",
     [S + "utils/qs_queue.py", S + "qs_sim.py"],
     [("QsQueueList / QsQueueDeque", S + "utils/qs_queue.py")],
     "exhaustive operation sequences and schedules, both containers against one reference FIFO",
     "All operation sequences to the depth bound; all schedules to the depth bound.", observe=["queue", "all statistics"])

prop("C04", "Warm-up, cooling and delayed cooling follow their protocol on every schedule",
     "With warm-up set, a job that finds the station empty and off starts a warm-up and waits, as do all jobs arriving during it, and at its end the line is served in FIFO order by up to n servers; with cooling "
     "set, the station starts cooling when it empties - after the cooling delay if one is set, an arrival during the delay cancelling it and being served at once - and jobs arriving while it cools wait until "
     "the cooling (and then the warm-up, if any) ends. Reported phase probabilities are the exact fractions of time spent in each phase (whenever that phase is not in progress), the counters of warm-ups, coolings, warm-ups right after cooling and arrivals served at once count exactly those, and jobs are conserved throughout. A delay without a cooling is refused.",
     ["schedules", "configurations"],
     "every order of arrivals, services, warm-up, cooling and delay expirations to a depth, all set/unset combinations, 1-3 channels",
     "Tests run one random history with H2 phases and compare means within 10-20%; a job served one warm-up too early in a rare interleaving is invisible.",
     [S + "qs_sim.py", S + "utils/phase.py"],
     [("arrival, serving, on_end_warming, on_end_cold, on_end_cold_delay", S + "qs_sim.py"), ("QsPhase", S + "utils/phase.py")],
     SCHED, "All phase/arrival/service interleavings to the depth bound, for every combination of phases.",
     observe=["counters", "w", "v", "get_p()", "get_warmup_prob()", "get_cold_prob()", "get_cold_delay_prob()"])

prop("C05", "Finite-source simulation keeps every source's cycle intact",
     "In the finite-source simulator each of the m sources is either counting down to its next job or has exactly one job in the system; a source starts its next countdown at the moment its job is served "
     "(or is lost because the line is full). Jobs are served by n servers in FIFO order, the number in system never exceeds m, and waiting, sojourn and state statistics are exact averages of the history.",
     ["schedules", "configurations"],
     "every order of source and service expirations to a depth, m in 1..4, n in 1..3, with and without buffer",
     "No test of the simulator passes for m>n with queueing in exact terms; the Engset test compares a few means.",
     [S + "queue_finite_source_sim.py", S + "qs_sim.py"],
     [("QueueingFiniteSourceSim.arrival / serving / run_one_step", S + "queue_finite_source_sim.py")],
     SCHED, "All schedules to the depth bound.", observe=["counters", "w", "v", "get_p()"])

prop("C06", "Impatient jobs leave the line exactly when their patience runs out",
     "In the impatient simulator a waiting job leaves the line at the moment its own patience expires unless its service started earlier, no job in service ever leaves, and the remaining line keeps FIFO order. "
     "Every departure counts once (abandonments as dropped), the sojourn moments average over all departures, the waiting moments over all jobs whose wait is over, and p[j] is the exact fraction of time with j jobs present.",
     ["schedules", "configurations"],
     "every order of arrival, service and patience expirations to a depth, 1-3 channels, with and without buffer",
     "The test compares the mean sojourn time with the formula within 0.01; it cannot see state probabilities or a waiting-time bias.",
     [S + "impatient_queue_sim.py", S + "qs_sim.py"],
     [("ImpatientQueueSim.arrival / drop_task / run_one_step", S + "impatient_queue_sim.py")],
     SCHED, "All schedules to the depth bound.", observe=["counters", "w", "v", "get_p()"])

prop("C07", "Batch arrivals bring whole batches of the prescribed size distribution",
     "At each batch epoch of the batch simulator exactly k jobs arrive at the same instant, k being the batch size whose cumulative-probability interval contains the uniform draw, and each of them is "
     "accepted, queued or dropped by the rules of the basic simulator. Counters, waiting, sojourn and state statistics are exact averages of the history.",
     ["schedules", "configurations"],
     "every order of batch and service expirations and every batch size to a depth, 1-3 channels, with and without buffer",
     "The test compares only the mean sojourn time of one run.",
     [S + "batch_sim.py", S + "qs_sim.py"],
     [("QueueingSystemBatchSim.arrival", S + "batch_sim.py")],
     SCHED, "All schedules and batch sizes to the depth bound.", observe=["counters", "w", "v", "get_p()"])

prop("C08", "Fork-join and split-join simulations complete a job with its k-th subtask",
     "Without a buffer limit: in fork-join mode a job forks into one subtask per channel, each channel serves its own subtasks in FIFO order, and the job completes at the moment its k-th subtask completes (with purging, its remaining subtasks "
     "leave queues and servers at that moment; without, they are still served); in split-join mode a job is served alone by all channels, completes with its last subtask, and the next waiting job starts then. Completed jobs, jobs in "
     "system, sojourn moments and state probabilities are exact averages of the history.",
     ["schedules", "configurations"],
     "every order of arrivals and subtask completions to a depth, (n,k) with n<=3, fork-join, purge, split-join",
     "The test compares one mean with an approximation; purge is never executed by a test.",
     [S + "fj_sim.py", S + "utils/tasks.py"],
     [("ForkJoinSim.arrival / serving", S + "fj_sim.py")],
     SCHED, "All schedules to the depth bound.", observe=["served", "in_sys", "v", "get_p()"])

prop("C09", "Fork-join with start delays releases and joins every subtask exactly once",
     "Without a buffer limit, in the delta variants a job's i-th subtask (i = 0..k-1) becomes available i delays after the job's arrival, is served exactly once by one of the n channels - fork-join: one FIFO line; split-join: only while its job holds the "
     "station, jobs in arrival order - and the job completes with its last subtask. No subtask of another job is served while a split-join job is incomplete, and completed jobs, jobs in system, sojourn moments and state probabilities are exact.",
     ["schedules", "configurations"],
     "every order of arrivals, subtask releases and completions to a depth, n<=3, k<=3",
     "The test runs one random history and compares a mean with a loose approximation; fork-join mode is never executed.",
     [S + "fj_delta_sim.py", S + "fj_sim.py"],
     [("ForkJoinSimDelta.task_arrival / subtask_arrival / serving", S + "fj_delta_sim.py")],
     SCHED, "All schedules to the depth bound.", observe=["served", "in_sys", "v", "get_p()"])

prop("C10", "Priority simulation obeys its discipline on every schedule",
     "In the priority simulator a server that becomes free takes the oldest waiting job of the highest non-empty class (lowest number), or under 'No' the oldest of all, and an arriving job that finds all servers busy preempts, under PR, RS and RW but never "
     "under No or NP, a job of the lowest-priority class in service if that class is below its own. A preempted job returns to the head of its class line and then needs its remaining time (PR), a time newly drawn from its own class's law (RS) or its full original time again "
     "(RW); clock, arrived and served counts and per-class numbers in system are exact after every event.",
     ["schedules", "configurations"],
     "every order of class arrivals and completions to a depth, 2-3 classes, 1-2 channels, all five disciplines",
     "Tests compare class means with approximations within tolerances of tens of percent.",
     [S + "priority_queue_sim.py"],
     [("PriorityQueueSimulator.arrival / serving", S + "priority_queue_sim.py")],
     SCHED, "All schedules to the depth bound.", observe=["per-class counters", "queue sizes", "clock"])

prop("C11", "Priority simulation statistics are exact per class",
     "For every class, the sojourn moments average the time from arrival to completion over the completed jobs of that class, the waiting moments average sojourn minus time in service, and p[k][j] is the fraction of time with j jobs of class k present, "
     "summing to one for every class. With a buffer limit a job is lost only when the limit is reached by the jobs waiting in all class lines together, and lost jobs are counted in their own class.",
     ["schedules", "configurations"],
     "every order of class arrivals and completions to a depth, with and without a buffer limit, all disciplines",
     "Tests compare class means only; losses, higher moments and state probabilities are not checked.",
     [S + "priority_queue_sim.py"],
     [("refresh_*_stat, get_p, send_to_queue", S + "priority_queue_sim.py")],
     SCHED, "Exact comparison with averages recomputed from the whole history.", observe=["v", "w", "p", "dropped"])

prop("C12", "Network simulation routes every job by its class matrix and node priorities",
     "In the priority network every external job of class k enters the node drawn from the first row of R[k] and, after each service, moves by the row of the node it leaves or exits the network; it is served in each node under that node's discipline at the priority "
     "nodes_prty[node][class] and by its own class's service law of that node. Network sojourn moments per class are exact averages from external arrival to exit and jobs are conserved per class.",
     ["schedules", "configurations"],
     "every order of external arrivals and node completions and every routing answer to a depth, 2 classes, 2-3 nodes, all permutations",
     "The network test compares means of one run with an approximation within tens of percent.",
     [S + "priority_network.py", S + "priority_queue_sim.py"],
     [("PriorityNetwork.run / choose_next_node", S + "priority_network.py")],
     SCHED, "All schedules and routing answers to the depth bound.", observe=["arrived", "served", "v_network"])

prop("C13", "Simulated superposition of flows merges the two arrival streams exactly",
     "Simulating the sum of two flows yields exactly the gaps of the merged sequence of both streams' arrival epochs: every epoch of either stream appears once, in time order, and the returned moments are the plain averages of powers of the first num_of_sim gaps. "
     "Summing n flows folds this pairwise sum over the list for each supported distribution family.",
     ["schedules", "inputs"],
     "every interleaving of the two streams' epochs to a depth, all four families",
     "No test covers the flow-sum simulation.",
     [S + "flow_sum_sim.py"], [("FlowSumSim.sum_2_*_flows", S + "flow_sum_sim.py")],
     SCHED, "All interleavings to the depth bound.", observe=["returned moments"])

prop("C14", "Generated random values follow the declared law and the supplied generator",
     "For every supported distribution (M, H, E, Gamma, C, Pa, Uniform, Norm, D) the values produced by generate() are the declared law's values: under uniform random input they have its exact distribution function and moments. "
     "An object given a generator draws only from that generator, one without draws only from numpy's global state, and the Kendall-notation factory maps each notation and parameter list to the right law and rejects unknown notations.",
     ["inputs", "configurations"],
     "every answer of the underlying uniform draws on a product lattice, grid of parameters, all notations",
     "Simulation tests sample; a wrong branch probability of 1% or a stray global draw cannot be seen.",
     [R, S + "utils/distribution_utils.py"],
     [("*_dist.generate / generate_static", R), ("create_distribution", S + "utils/distribution_utils.py")],
     "exhaustive enumeration of all random-draw answers on a quadrature lattice", "Lattice of the answers of the random source is enumerated completely; agreement to quadrature accuracy.",
     observe=["generate()"])

prop("C15", "Analytic moments, densities, CDFs and tails of each law agree with each other",
     "For every law and parameter point, calc_theory_moments returns the integrals of t^k against the density, the CDF is the integral of the density, tail + CDF = 1, the CDF is monotone from 0 to 1 and is 0 before the support starts. ",
     ["inputs"], "all laws, a grid of parameters and times including negative, zero, support edges and large values",
     "Only a handful of parameter values are touched indirectly by tests.",
     [R, U + "weibull.py"], [("get_cdf, get_pdf, get_tail, calc_theory_moments", R)],
     GRID, "Complete grid; reference formulas and numeric integration.", observe=["returned values"])

prop("C16", "Fitted parameters reproduce the given moments at every time scale",
     "Whenever a fit is feasible, get_params(moments) (and the mean-and-coefficient-of-variation variants) of every law returns parameters whose theoretical moments (real parts, for complex parameters) equal the given ones for as many moments as the law can match - "
     "H2 keeps the first two when the third is out of its reach, Erlang the mean when its order must be rounded, and the complex H2 fit may perturb by up to 2% next to the exponential and E2 laws. Changing the time unit rescales the rates and nothing else.",
     ["inputs"], "grid of means from 1e-6 to 1e6 and coefficients of variation, all laws",
     "Tests fit at scale 1 only.",
     [R, U + "weibull.py"], [("get_params*, get_mu_alpha*, get_a_k*", R)],
     GRID, "Complete grid of moments and scales; round trip through independently computed moments.", observe=["returned parameters"])

prop("C17", "Reported load equals arrival rate times mean service time over channels",
     "calc_load of the basic and the priority simulator returns lambda * b1 / n (summed over classes) for every combination of supported arrival and service laws, computed from the exact means of those laws.",
     ["configurations"], "every pair of supported notations, 1-3 channels, 1-3 classes",
     "Tests use M and H only and do not compare the load with anything.",
     [S + "utils/distribution_utils.py", S + "priority_queue_sim.py"], [("calc_qs_load", S + "utils/distribution_utils.py"), ("calc_load", S + "priority_queue_sim.py")],
     GRID, "All pairs of notations enumerated.", observe=["calc_load()"])

prop("C20", "M/M/n/r formulas equal the exact chain",
     "State probabilities, loss probability, mean and factorial moments of the queue length, sojourn and waiting moments of M/M/n/r equal those of the exact finite Markov chain (times over accepted jobs), for every load including 1 and above.",
     ["configurations", "inputs"], "n 1-5, r 0-8, loads 0.1-3 including exactly 1; n to 300 and r to 310", "There is no test of this module.",
     [T + "mmnr_calc.py"], [("M_M_n_formula", T + "mmnr_calc.py")], CTMC, "All states of the finite chain; full grid.", observe=["p", "v", "w"])

prop("C21", "Engset model equals the exact finite-source chain",
     "State probabilities, readiness, waiting (also its transform) and sojourn moments of the finite-source M/M/1 model equal those of the exact chain for every number of sources and every load.",
     ["configurations", "inputs"], "m 1-12, loads 0.05-20; m to 300", "The test uses one point.",
     [T + "engset_model.py"], [("Engset", T + "engset_model.py")], CTMC, "All states; full grid.", observe=["p", "v", "w"])

prop("C22", "M/M/1 with impatience equals the exact chain",
     "State probabilities and the mean sojourn and waiting time of M/M/1 with exponential patience equal those of the exact chain at every load, including overload and the points where consecutive rates coincide.",
     ["configurations", "inputs"], "grid of lambda, mu, gamma", "The test uses one point per gamma with 0.01 tolerance.",
     [T + "impatience_calc.py"], [("get_p, get_v1", T + "impatience_calc.py")], CTMC, "All states below a truncation with negligible mass.", observe=["p", "v1"])

prop("C23", "Batch-arrival M/M/1 equals the exact chain",
     "The mean batch size, state probabilities and mean sojourn time of Mx/M/1 equal those of the exact chain for every batch-size distribution.",
     ["configurations", "inputs"], "all batch laws on a grid of up to 4 sizes, loads up to 0.9", "The test uses one batch law.",
     [T + "batch_mm1.py"], [("BatchMM1", T + "batch_mm1.py")], CTMC, "All states below truncation.", observe=["p", "v1"])

prop("C24", "M/G/1 results equal the exact queue",
     "For M/G/1 the moments of waiting and sojourn time computed from the service moments equal those of the exact queue for every service law, and the state probabilities computed from the parameters of gamma (Erlang), uniform and Pareto service equal those of the exact queue, at every load below one and every time scale.",
     ["configurations", "inputs"], "grid of loads and service laws", "The test compares with a simulation within 10-100%.",
     [T + "mg1_calc.py", U + "q_poisson_arrival_calc.py"], [("get_w, get_v, get_p", T + "mg1_calc.py")], CTMC, "All states below truncation; embedded chain for non-phase-type service.", observe=["w", "v", "p"])

prop("C25", "GI/M/1 and GI/M/n results equal the exact queue",
     "For renewal arrivals and exponential service, state probabilities and the moments of waiting and sojourn time equal those of the exact queue for every arrival law of the two families the module fits (gamma, including Erlang and exponential and its polynomial correction to higher moments, given by at least three moments, and Pareto), every number of channels, every load below one and every time scale.",
     ["configurations", "inputs"], "grid of loads, arrival laws, n 1-4", "The tests use one arrival law and compare with simulation loosely.",
     [T + "gi_m_1_calc.py", T + "gi_m_n_calc.py", "most_queue/general_utils/conv.py"], [("get_w, get_v, get_p, get_pi", T + "gi_m_n_calc.py")], CTMC, "All states below truncation.", observe=["w", "v", "p", "pi"])

prop("C26", "M/D/n and Ek/D/n state probabilities equal the exact chain",
     "State probabilities of M/D/n and Ek/D/n equal those of the exact embedded chain over one service time.",
     ["configurations", "inputs"], "grid n 1-6, k 1-6, loads up to 0.95; n to 60, n*k to 50", "The tests use one point each with loose tolerance.",
     [T + "m_d_n_calc.py", T + "ek_d_n_calc.py"], [("M_D_n.calc_p, Ek_D_n.calc_p", T + "m_d_n_calc.py")], CTMC, "All states below truncation.", observe=["p"])

prop("C27", "Takahashi-Takami M/H2/n results equal the exact chain",
     "With an adequate number of tiers, the Takahashi-Takami calculator for M/G/n and M/G/n/r with H2-approximated service returns the state probabilities and the sojourn/waiting moments (of accepted jobs) of the exact M/H2/n chain, for every buffer size including none, and with a limited queue also for loads of one and above.",
     ["configurations", "inputs"], "grid n 1-4, loads, coefficients of variation above and below 1, buffers", "The test compares with simulation within tens of percent at one point.",
     [T + "mgn_tt.py"], [("MGnCalc.run, get_p, get_v, get_w", T + "mgn_tt.py")], CTMC, "All states below truncation.", observe=["p", "w", "v"])

prop("C28", "Multichannel models with warm-up, cooling and delay equal the exact chain",
     "The numeric models with H2 warm-up, cooling and cooling delay return the state probabilities, phase probabilities and sojourn/waiting moments of the exact chain of the protocol that the simulator implements, "
     "when the queue is not limited and the number of tiers is adequate.",
     ["configurations", "inputs"], "grid n 1-3, loads, coefficients of variation of every phase", "Tests compare with one simulation run within 10-20%.",
     [T + "m_h2_h2warm.py", T + "mmn_with_h2_cold_and_h2_warmup.py", T + "mgn_with_h2_delay_cold_warm.py"],
     [("run, get_p, get_v, get_w, get_*_prob", T + "mgn_with_h2_delay_cold_warm.py")], CTMC, "All states below truncation.", observe=["p", "w", "v", "phase probabilities"])

prop("C29", "M/G/1 with warm-up equals the exact queue",
     "The moments of sojourn time of M/G/1 with a distinct first (warm-up) service equal those of the exact queue at every time scale.",
     ["configurations", "inputs"], "grid of loads and laws", "There is no test of this module.",
     [T + "mg1_warm_calc.py"], [("get_v", T + "mg1_warm_calc.py")], CTMC, "All states below truncation.", observe=["v"])

prop("C30", "Single-channel priority formulas equal the exact queue",
     "For M/G/1 with preemptive-resume and non-preemptive priorities the per-class moments of sojourn time and of waiting time until the first start of service, and the busy-period moments they rest on (ordinary and with a distinct "
     "first service), equal those of the exact priority queue at every time scale; the multichannel variants with no priority equal the FIFO queue of the mixed service law, and those by invariants split the total queue between "
     "classes in the proportion of the n times faster single channel.",
     ["configurations", "inputs"], "1-5 classes, grid of rates and service laws, 3 to 6 moments of service", "Tests compare with simulation loosely.",
     [T + "priority_calc.py"], [("calc_pr1, get_w_np, get_w1_pr, get_w1_np, climov_w_pr_calc, ppnz_calc, ppnz_calc_warm_up, get_w_mg1_bp, get_w_MxGn_no_pr, get_w_prty_invar", T + "priority_calc.py")], CTMC, "All states below truncation.", observe=["v", "w"])

prop("C31", "Multichannel two- and three-class priority models equal the exact chain",
     "The preemptive-priority calculators based on busy-period approximation return, at every time scale, the low-class state probabilities within 0.002 + 0.08 r^3 c^2 and the mean low-class sojourn time within a relative 0.0003 + 0.01 r^2 c^2 of the exact multi-class chain (r the load of the higher classes per channel, c the larger of one and the coefficient of variation of their service; up to 0.6% more for laws near the edge of the fitted family).",
     ["configurations", "inputs"], "grid of rates", "Tests compare with simulation at one point.",
     [T + "m_ph_n_prty.py", T + "mmn3_pnz_cox_approx.py", T + "mmn_prty_pnz_approx.py"], [("run, get_p", T + "mmn_prty_pnz_approx.py")], CTMC, "All states below truncation; tolerance for the approximation.", observe=["p", "v1"])

prop("C32", "First-passage moments between tiers equal those of the exact chain",
     "The first-passage calculator returns, for every pair of tiers and every state, the exact passage probabilities and the first three moments of the passage time of the given level-structured chain.",
     ["configurations", "inputs"], "families of small chains", "Only used indirectly.",
     [U + "passage_time.py"], [("passage_time_calc", U + "passage_time.py")], CTMC, "All states.", observe=["G", "Z moments"])

prop("C33", "Network decomposition satisfies traffic balance and node formulas",
     "For every routing, assignment of priorities to classes at nodes and time scale, the network calculator's node loads are the sums over classes of traffic intensity times mean service over channels, its per-node sojourn moments "
     "are those of the priority node fed by each class's traffic (nodes a class or everybody never visits included), and its end-to-end moments are those of the sum of independent node sojourn times along the class's random route.",
     ["configurations", "inputs"], "all routing matrices on a small grid, all class permutations", "One network in one test.",
     [T + "network_calc.py"], [("network_prty_calc", T + "network_calc.py")], CTMC, "Full grid of small networks.", observe=["loads", "v_node", "v"])

prop("C34", "Moment convolution and deconvolution are exact",
     "The moments of sums, differences and repeated sums of independent times computed from moments equal those of the exact law after every sequence of operations, whatever the order, the time unit and the number of moments asked for; subtracting what was added returns the original; the numeric derivatives reproduce polynomials of degree below the number of points.",
     ["inputs", "operation sequences"], "all sequences of additions and subtractions of 6 laws up to depth 3 (4), 3 time units; all polynomials with small coefficients", "No direct test: the functions are only used inside the models.",
     ["most_queue/general_utils/conv.py", U + "diff5dots.py"], [("get_moments, get_moments_minus, get_self_conv_moments", "most_queue/general_utils/conv.py"), ("diff5dots", U + "diff5dots.py")],
     "Explicit-state enumeration of operation sequences on the real functions; the model state is the exact law (rational probabilities) of the multiset of terms.", "Depth 4.", observe=["returned moments"])

prop("C35", "Fork-join and maximum formulas equal the exact values",
     "Moments of the maximum of independent service times, also with fixed or random start delays, equal those of the explored chain at every time scale; the split-join M/G/1 built on them equals the exact split-join queue; the mean response time formulas of fork-join queues are exact for one and two channels and for vanishing load (every k of n), within their known error of the exact chain for three and four channels, and the methods of invariants and of the maximum equal their definition computed by exact chains.",
     ["configurations", "inputs"], "1-4 (6) channels, every k, laws M, E2-E9, H2, loads 0-0.9, three time units", "One test point with loose tolerance.",
     [T + "fj_calc.py"], [("getMaxMoments, getMaxMomentsDelta, get_v1_*, get_v_fj_*", T + "fj_calc.py")], CTMC, "Full grid, larger truncation.", observe=["moments"])

prop("C36", "Summation of flows equals the exact superposition",
     "The numeric sum of flows returns the moments of the stationary interval between neighbouring events of the superposition (of the hyperexponential fits; a running sum is taken as a renewal flow), or by semi-invariants those of the renewal flow whose count grows with the same cumulants; the rates add up; inputs are not changed; time units only scale the results. The simulator of superposition records the intervals of the merged event sequence for every pair of interval sequences. Both can be used without a display.",
     ["inputs", "schedules"], "all pairs (and triples) of 5 laws with 2 (5) mean ratios, 3 time units; all interval sequences of two flows of 4 events over 2-3 values", "No test.",
     [U + "flow_sum.py", "most_queue/sim/flow_sum_sim.py"], [("SummatorNumeric", U + "flow_sum.py"), ("FlowSumSim.sum_2_*_flows, sum_flows", "most_queue/sim/flow_sum_sim.py")],
     "Explored chain of the phases of both flows (interval moments from the event-embedded chain, growth of counts by its dominant eigenvalue); exhaustive enumeration of interval sequences for the simulator.", "All triples, five flows.", observe=["moments", "recorded intervals"])

prop("C37", "Student intervals use the right quantile for every sample size",
     "For every sample size from five on and each supported confidence level the utility returns the two-sided Student quantile with n-1 degrees of freedom of the nearest tabulated sample size, to the printed digits, never growing with the sample; the confidence interval is the mean plus and minus quantile times deviation over the root of n.",
     ["inputs"], "sample sizes 5..400 (1500), the three confidence levels", "No test.",
     [U + "student_stat.py"], [("get_ty, get_conf_intervals", U + "student_stat.py")],
     "Exhaustive enumeration of sample sizes and levels on the real code; quantiles by bisection of the exact distribution function.", "All sizes to 1500.", observe=["returned values"])

prop("C18", "Calculators give the same answers whatever was asked before",
     "The answer of a calculator depends on its arguments only: every query returns the same after any sequence of other queries (and, up to the accuracy of the iterations, after computing again), beside any other calculator constructed, run or "
     "queried in between, and as every function does in a fresh process; arguments are never changed, and moments of a law beyond those a formula needs change nothing.",
     ["histories", "schedules"], "all reachable query states of each of 13 calculators at 2 points, every rotation of queries, all interleavings of the lives of two calculators, all sequences of 2 (3) calls of functions of a module, all pairs across modules, all arguments that differ from a point in one place",
     "Each test asks each result once, in one order, of one object.",
     [T + "mgn_tt.py", T + "m_h2_h2warm.py", T + "mgn_with_h2_delay_cold_warm.py", T + "mmn_with_h2_cold_and_h2_warmup.py", T + "engset_model.py", T + "batch_mm1.py", T + "fj_calc.py", T + "priority_calc.py"],
     [("get_p, get_w, get_v", T + "mgn_tt.py"), ("get_w, get_v", T + "m_h2_h2warm.py"), ("get_w, get_v, get_N, get_Q", T + "engset_model.py")],
     "Explicit-state exploration of the real objects: states are the values of the object, moves are its queries; exhaustive enumeration of interleavings and call sequences; reference from fresh processes.", "Triples of calls, all pairs of calculators.", observe=["results of queries", "arguments"])

prop("C19", "A simulation can be stopped, read, resumed and run beside another",
     "For every simulator and every history of draws, running in portions (of completions or of events), reading or printing the results at any moment, the order of the setup calls and the presence of another simulator stepped in between do not "
     "change the history or the results; run(N) stops with exactly N served, run(N, False) after exactly N events.",
     ["schedules", "histories"], "41 configurations of all simulators, all 2^6 (2^10) histories of the first draws, all cuts of 12 (16) events, all sets of intermediate totals, every moment of reading, all setup orders, all schedules of two simulators for 3 (4) events each",
     "Tests run each simulation once to the end and read it once.",
     [S + "qs_sim.py", S + "fj_sim.py", S + "fj_delta_sim.py", S + "priority_queue_sim.py", S + "priority_network.py", S + "queue_finite_source_sim.py", S + "impatient_queue_sim.py", S + "batch_sim.py"],
     [("run", S + "qs_sim.py"), ("run", S + "fj_sim.py"), ("run", S + "priority_queue_sim.py"), ("run", S + "priority_network.py")],
     "Stateless exploration of the real simulators under a controlled source of draws: all histories, cuts, read points and two-simulator schedules within the bounds, compared with the uninterrupted run.", "2^10 histories of 16 events.", observe=["all statistics", "time", "counters"])

prop("C38", "Printed reports and tables show the numbers they are about",
     "At every moment of every history the long and the short report of a simulator can be printed and show its moments of sojourn and waiting, state probabilities, counters and busy servers under the right labels; the comparison tables show every "
     "calculated and simulated number, real part only, in its place, for as many rows as both sides have; tables, files and plots of the vacation experiments, the graph of a network's routes and the scripts that compare calculation and simulation show exactly the data they are about, with or without a display.",
     ["histories", "inputs"], "40 configurations, all 2^5 (2^8) histories, each of 14 (20) moments; tables: all lists over 5 values (zero, tiny, huge, complex) up to length 3",
     "Tests print but compare nothing.",
     [S + "qs_sim.py", S + "fj_sim.py", S + "priority_queue_sim.py", S + "queue_finite_source_sim.py", S + "impatient_queue_sim.py", "most_queue/general_utils/tables.py",
      "most_queue/general_utils/vacations_paper_utils.py", "most_queue/theory/network_viewer.py"],
     [("__str__", S + "qs_sim.py"), ("__str__", S + "queue_finite_source_sim.py"), ("times_print, probs_print, times_print_with_classes", "most_queue/general_utils/tables.py"),
      ("test", "most_queue/misc/flow_sum.py"), ("test_fj_calc", "most_queue/misc/compare_fj_calc.py"),
      ("print_table, dump_stat, load_stat, make_plot", "most_queue/general_utils/vacations_paper_utils.py"), ("create_DG", "most_queue/theory/network_viewer.py")],
     "Exhaustive exploration of histories of the real simulators, the report parsed at every state; exhaustive enumeration of table inputs.", "2^8 histories of 20 events.", observe=["printed text"])
