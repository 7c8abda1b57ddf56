#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property list is kept here, one entry per property)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "Assignment returns a nearest centroid, lowest index first",
  "For every list of centroids, every element and every space whose distances are not NaN, assignment and prediction return the lowest index among the centroids at minimal distance, that centroid, and exactly that distance - even when a distance is negative by rounding; with no centroid they return no element, label -1 and distance -1. Labelling a list of elements gives each position the label and distance that element gets on its own.",
  ["inputs"], "all centroid lists, elements and distance values (any space)",
  "The tests assign a handful of points in one space; ties, negative rounding, empty and long lists are an unbounded input set.",
  ["core/clustering.go", "core/ctrl.go"],
  [("Clust.nearest", "core/clustering.go"), ("Clust.Assign", "core/clustering.go"), ("Clust.MapLabel", "core/clustering.go"), ("Algo.Predict", "core/ctrl.go")],
  observe=["core.Clust.Assign", "core.Clust.MapLabel", "core.Algo.Predict"])
p("C02", "Parallel runner covers every index exactly once and joins",
  "For every data size >= 0 and every degree of parallelism >= 1, the parallel runner calls its function once per rank 0..degree-1 on in-bounds contiguous ranges that together cover every index exactly once. Every one of those calls has finished when the runner returns.",
  ["inputs", "schedules"], "all (size, degree) pairs and all goroutine schedules",
  "Tests use one size and degrees below 100; remainders, degree > size and size 0 are combinations no sample settles, and a missed join is schedule dependent.",
  ["core/util.go"], [("Par", "core/util.go")], observe=["core.Par"])
p("C03", "Parallel operations agree with their sequential counterparts",
  "For every input and every degree >= 1, parallel labelling returns exactly the labels and distances of sequential labelling, and parallel loss and mean reductions return exactly the cardinalities, and up to floating-point rounding the losses and vector-space means, of the sequential ones; parallel mean reduction by nearest centroid keeps the given centroid for a cluster that received nothing, by labels it gives none, as sequentially. The concurrent pieces of one call never write the same location.",
  ["inputs", "schedules"], "all data, centroids, labels, norms and degrees, all goroutine schedules",
  "Tests compare on one small data set where most partitions look alike; degree > size, empty partitions and clusters seen by one partition only are not settled by samples.",
  ["core/par_assign.go", "core/par_loss.go", "core/par_dba.go", "core/util.go"],
  [("parMapLabel", "core/par_assign.go"), ("parLoss/lossAggregate", "core/par_loss.go"), ("parReduceDBA/dbaAggregate", "core/par_dba.go")],
  observe=["core.Clust.ParMapLabel", "core.Clust.ParReduceLoss", "core.Clust.ParReduceLossForLabels", "core.Clust.ParTotalLoss", "core.Clust.ParReduceDBA", "core.Clust.ParReduceDBAForLabels"])
p("C04", "Reductions return exact cardinalities and the mean of each cluster",
  "For every input, mean reduction (by nearest centroid or by given labels) returns for each cluster the exact number of its elements and, in a vector space, their mean; a cluster with no element has cardinality 0 and no mean. Averaging a list returns its mean, weighted averaging its weighted mean, and both fail exactly when the list is empty.",
  ["inputs"], "all element lists, labels, weights and centroids over a vector space (real arithmetic)",
  "Tests average a few points; the running-weight recurrence must hold for every length and every interleaving of labels.",
  ["core/clustering.go"], [("Clust.ReduceDBA", "core/clustering.go"), ("Clust.ReduceDBAForLabels", "core/clustering.go"), ("DBA", "core/clustering.go"), ("WeightedDBA", "core/clustering.go")],
  observe=["core.Clust.ReduceDBA", "core.Clust.ReduceDBAForLabels", "core.DBA", "core.WeightedDBA"])
p("C05", "Loss is the per-cluster sum of distance to the power norm",
  "For every input, loss reduction returns for each cluster the exact number of its elements and the sum over its elements of (distance to the cluster's centroid) raised to the given norm, the cluster being the nearest one or the one given by the labels. The total loss is the sum of these over all clusters.",
  ["inputs"], "all element lists, labels, centroids, norms",
  "Tests check one norm and one data set.",
  ["core/clustering.go"], [("Clust.ReduceLoss", "core/clustering.go"), ("Clust.ReduceLossForLabels", "core/clustering.go"), ("Clust.TotalLoss", "core/clustering.go")],
  observe=["core.Clust.ReduceLoss", "core.Clust.ReduceLossForLabels", "core.Clust.TotalLoss"])
p("C06", "Data buffer keeps every element, or exactly the last size ones",
  "At every moment an unbounded buffer holds every initial and stored element in order, and a buffer of fixed size n holds exactly the min(n, total) most recent ones, each once. An element pushed in asynchronous mode is invisible until the next apply, which stores all staged elements in push order and leaves nothing staged; the buffer never shares its storage with the slice it was created from.",
  ["inputs", "histories"], "all sizes, all initial data, all histories of push (stored or staged) and apply",
  "Tests push 128 elements into a buffer of 50; wrap-around positions, initial data longer or shorter than the size, and interleavings of staged and stored pushes are unbounded.",
  ["core/buffer.go"], [("NewDataBuffer", "core/buffer.go"), ("fixedSizeStrategy.push", "core/buffer.go"), ("DataBuffer.Push/Apply", "core/buffer.go")],
  state=[("data", "stored elements", "core/buffer.go"), ("position", "next slot to overwrite", "core/buffer.go"), ("pipe", "staged elements", "core/buffer.go")],
  observe=["core.Buffer.Data", "core.Buffer.Push", "core.Buffer.Apply"])
p("C07", "Euclidean space computes Euclidean distance and weighted means",
  "For all vectors of equal dimension the Euclidean space's distance is the square root of the sum of squared differences (hence non-negative, symmetric and zero exactly on equal vectors), and combining with weights of non-zero sum gives in each coordinate the weighted mean, as a new vector of the same dimension. Copying gives an equal vector with its own storage, no operation changes its arguments, and the dimension of a data set is the length of its first vector, or 0 when empty.",
  ["inputs"], "all dimensions, vectors and weights (real arithmetic)",
  "Tests use vectors of dimension 1 and 2.",
  ["euclid/vectors.go"], [("Space.PointDist", "euclid/vectors.go"), ("Space.PointCombine", "euclid/vectors.go"), ("Space.PointCopy", "euclid/vectors.go"), ("Space.Dim", "euclid/vectors.go")],
  observe=["euclid.Space"])
p("C08", "Cosinus space computes 1 - cosine and weighted means",
  "For all non-zero vectors of equal dimension the cosinus space's distance is one minus the scalar product divided by the product of the norms: it is symmetric and zero from a vector to itself (up to rounding). Combination, copy and dimension behave as in the Euclidean space: weighted mean in a new vector, equal copy with its own storage, arguments unchanged.",
  ["inputs"], "all dimensions, non-zero vectors and weights (real arithmetic)",
  "Tests use a few two-dimensional vectors.",
  ["cosinus/cosinus.go", "euclid/vectors.go"], [("Space.PointDist", "cosinus/cosinus.go"), ("Cosinus", "cosinus/cosinus.go"), ("ScalarProduct", "cosinus/cosinus.go"), ("Norm", "cosinus/cosinus.go")],
  observe=["cosinus.Space", "cosinus.Cosinus", "cosinus.ScalarProduct", "cosinus.Norm"])
p("C09", "DTW distance is the minimal warping cost within the window",
  "For all non-empty series, every inner point distance and every window >= 0 (0 meaning none) with lengths differing by at most the window, the accumulated cost at (i,j) is the minimum over all warping paths from (0,0) to (i,j) that stay in the window of the sum of point distances, and is infinite outside the window; the DTW distance is its value at the last pair. No access leaves the matrix or the series.",
  ["inputs"], "all pairs of series, windows and point distances",
  "Tests check two 3-4 point series; the banded index arithmetic depends on length, window and row, an unbounded set.",
  ["dtw/cost.go", "dtw/dtw.go"], [("CumCostMatrix.computeCumCost", "dtw/cost.go"), ("CumCostMatrix.ravel/inWindow/setStride", "dtw/cost.go"), ("CumCostMatrix.Get", "dtw/cost.go")],
  observe=["dtw.NewCumCostMatrix", "dtw.CumCostMatrix.Get", "dtw.DTW.Dist", "dtw.Space.Dist"])
p("C10", "DTW path is a valid optimal warping path",
  "For the same inputs the returned path runs from the last pair of points down to (0,0) by steps that decrease one or both positions by one and stay inside the window. The point distances along it add up to the DTW distance.",
  ["inputs"], "all pairs of series, windows and point distances",
  "Tests check the path of two short series.",
  ["dtw/cost.go", "dtw/dtw.go"], [("CumCostMatrix.computePath", "dtw/cost.go"), ("decrPath", "dtw/cost.go"), ("neighborCosts", "dtw/cost.go")],
  observe=["dtw.CumCostMatrix.Path", "dtw.DTW.Path"])
p("C11", "DTW averaging and resampling keep ends, length and order",
  "Interpolating a series with non-decreasing positions starting at 0 gives, at each integral position up to the last one divided by the shrink factor, the point placed there or the distance-weighted combination of its two neighbours; resizing a series of at least 2 points gives exactly the requested number (>= 1) of points, from the same first to the same last one when it is at least 2, and shrinking two series leaves them at most a window apart, resizing only the longer. The DTW average of two series with positive weights starts and ends at the weighted combination of their starts and, if the weighted length allows, of their ends, and leaves both series unchanged.",
  ["inputs"], "all series, positions, shrink factors, sizes, windows and weights",
  "Tests resize one series and interpolate two; position arithmetic and bounds depend on every length, weight and window.",
  ["dtw/interpolate.go", "dtw/dtw.go", "dtw/series.go"], [("Interpolate", "dtw/interpolate.go"), ("Resize", "dtw/interpolate.go"), ("ShrinkLongest", "dtw/interpolate.go"), ("DTW.DBA", "dtw/dtw.go"), ("Space.Combine", "dtw/series.go")],
  observe=["dtw.Interpolate", "dtw.Resize", "dtw.ShrinkLongest", "dtw.DTW.DBA", "dtw.Space.Combine"])
p("C12", "Initializers return k copies of distinct data elements or an error",
  "Each named initializer fails, without panicking and whatever k is, exactly when k < 1 or fewer than k elements are available (kmeans++ also when the data has fewer than k elements at non-zero distance from each other), and otherwise returns exactly k centroids, each equal to a data element: the given one the first k in order, the random one k different positions, the kmeans++ one elements at non-zero distance from every previously chosen centroid. The data is left unchanged.",
  ["inputs"], "all k, data sets, spaces and random sources",
  "Tests draw from 14 distinct points with k in {1,4,14}.",
  ["kmeans/init.go"], [("check", "kmeans/init.go"), ("GivenInitializer", "kmeans/init.go"), ("PPInitializer/PPIter", "kmeans/init.go"), ("RandInitializer", "kmeans/init.go")],
  observe=["kmeans.GivenInitializer", "kmeans.PPInitializer", "kmeans.RandInitializer", "kmeans.PPIter"])
p("C13", "Weighted choice returns an index of positive weight",
  "For all non-negative weights and every value the random source may return, weighted choice returns an index in range whose weight is positive, and an error exactly when all weights are zero (or there are none). The index is the one whose cumulated weight interval contains the drawn cursor.",
  ["inputs"], "all non-negative weight lists, all draws in [0,1)",
  "Tests draw 100000 times from one list of weights; the draw 0 and rounding at the end of the list have negligible probability.",
  ["kmeans/init.go"], [("WeightedChoice", "kmeans/init.go")], observe=["kmeans.WeightedChoice"])
p("C14", "A k-means iteration is one exact Lloyd step",
  "For every data set and every non-empty list of centroids, one k-means iteration, sequential or parallel of any degree, returns as many centroids as given: each is the mean (in a vector space) of the elements nearest to the given centroid of the same index, or that given centroid when no element is nearest to it. The given centroids and the data are not modified, and elements staged during the iteration are stored afterwards.",
  ["inputs"], "all data, centroids, degrees (vector space, real arithmetic)",
  "Tests run a few iterations on one data set.",
  ["kmeans/seq.go", "kmeans/par.go", "kmeans/impl.go"], [("SeqStrategy.Iterate", "kmeans/seq.go"), ("ParStrategy.Iterate", "kmeans/par.go"), ("Impl.Iterate", "kmeans/impl.go")],
  observe=["kmeans.SeqStrategy.Iterate", "kmeans.ParStrategy.Iterate", "kmeans.Impl.Iterate"])
p("C15", "MCMC keeps the number of clusters within its bounds",
  "At every iteration the proposed number of clusters is at least 1, at most the configured maximum and at most the number of data, and differs from the current one by at most 1. The proposed list of centers has exactly that many elements, so the number of published centroids stays within these bounds for ever.",
  ["inputs", "histories"], "all configurations, data sizes, random draws and iteration histories",
  "Tests run some iterations with one maximum; the boundary (k=1, k=max, k=data) crossings depend on the random history.",
  ["mcmc/impl.go", "mcmc/store.go"], [("Impl.nextK", "mcmc/impl.go"), ("Impl.getKCenters", "mcmc/impl.go"), ("CenterStore.GetCenters", "mcmc/store.go")],
  state=[("current", "accepted proposal", "mcmc/impl.go")],
  observe=["mcmc.Impl.Iterate", "mcmc acceptance figures"])
p("C16", "MCMC accepts by the Metropolis rule and rejection changes nothing",
  "A proposal is accepted exactly when the uniform draw is below exp of lambda*(current loss - proposed loss) + log(2B)*dim*(current k - proposed k) + (current pdf - proposed pdf), with lambda = amp*sqrt((dim+3)/time). Acceptance publishes the proposed centers, makes the proposal current, stores it and counts one acceptation; rejection keeps the published centroids, current proposal, store and count as they were; the runtime figures report these quantities.",
  ["inputs", "histories"], "all configurations, losses, densities, draws",
  "Tests check one accept ratio; the rule has to hold for every pair of proposals.",
  ["mcmc/impl.go"], [("Impl.accept", "mcmc/impl.go"), ("Impl.doIter", "mcmc/impl.go"), ("Impl.runtimeFigures", "mcmc/impl.go")],
  observe=["mcmc.Impl.Iterate", "runtime figures lambda, rho, rGibbs, acceptations, time"])
p("C17", "MCMC center store returns k centers built from the previous ones",
  "Asking the store for k centers returns the last list of k centers stored if there is one; otherwise, from previous centers of k-1, k+1 or k elements, it returns copies of all of them plus one data element at non-zero distance from each, copies of all but one in the same order, or the previous list itself. Neither the stored lists, the previous list nor the data is modified, and storing a list only affects requests for its own length.",
  ["inputs", "histories"], "all k, previous lists, data and random draws, all store histories",
  "Tests check one history of the store.",
  ["mcmc/store.go"], [("CenterStore.GetCenters", "mcmc/store.go"), ("CenterStore.addCenter/delCenter", "mcmc/store.go"), ("CenterStore.SetCenters", "mcmc/store.go")],
  observe=["mcmc.CenterStore.GetCenters", "mcmc.CenterStore.SetCenters"])
p("C18", "Streaming accounts for every element exactly once",
  "After initialization and any number of processed elements there is one cardinality per center, all at least 1, and they add up to the number of elements consumed, each element either opening a new center or joining exactly one existing center, whose new value is the combination of the old one with its cardinality and the element with weight 1. Initialization fails exactly when nothing was pushed, pushing fails exactly when the buffer is full, and elements are consumed in push order; an iteration with nothing to consume publishes no centroids.",
  ["inputs", "histories"], "all element sequences, distances, random draws",
  "Tests check counts on random mixtures with loose bounds.",
  ["streaming/impl.go"], [("Impl.Process", "streaming/impl.go"), ("Impl.AddCenter/AddOutlier/UpdateCenter", "streaming/impl.go"), ("Impl.Init/Iterate/Push", "streaming/impl.go")],
  state=[("clust, cards", "centers and their cardinalities", "streaming/impl.go"), ("c", "elements pushed and not consumed", "streaming/impl.go")],
  observe=["streaming.Impl.Process", "streaming.Impl.GetClusters", "streaming.Impl.Iterate"])
p("C19", "Streaming decides by relative distance and keeps a maximal distance",
  "An element whose distance to its nearest center, relative to the maximal distance (which takes that distance as value when it is 0), exceeds the outlier ratio after the configured number of elements becomes an outlier center and leaves the maximal distance unchanged; otherwise it opens a new center exactly when the normal draw is below the relative distance, and else joins its nearest center. The maximal distance never decreases and is at least every distance of a non-outlier element.",
  ["inputs", "histories"], "all element sequences, distances, configurations and draws",
  "Tests run one configuration on random data.",
  ["streaming/impl.go"], [("Impl.Process", "streaming/impl.go"), ("Impl.GetRelativeDistance", "streaming/impl.go"), ("Impl.UpdateMaxDistance", "streaming/impl.go")],
  observe=["streaming.Impl.Process", "streaming.Impl.GetMaxDistance", "streaming.Impl.GetRelativeDistance"])
p("C20", "Configurations are completed and validated exactly",
  "Preparing a configuration gives every unset parameter its documented default and changes no parameter that was set, and fails exactly when a control parameter is negative, k-means K or MCMC initial K is below 1, MCMC initial K exceeds its maximum, or the streaming outlier delay is below 2. Building an algorithm panics exactly when its prepared configuration is invalid (or, for streaming, when the initial data exceeds the buffer size).",
  ["configurations"], "all values of every configuration parameter",
  "Tests try one invalid value per parameter.",
  ["core/conf.go", "kmeans/conf.go", "mcmc/conf.go", "streaming/conf.go", "core/algo.go", "streaming/algo.go"],
  [("CtrlConf.Verify", "core/conf.go"), ("PrepareConf", "core/conf.go"), ("Conf.Verify/SetDefaultValues", "kmeans/conf.go, mcmc/conf.go, streaming/conf.go"), ("NewAlgo", "core/algo.go")],
  observe=["core.PrepareConf", "NewAlgo of each package"])
p("C21", "Finishing conditions combine as documented",
  "An iteration condition holds exactly when one of its limits is set and the iterations reach iter + pushed data * iterPerData; a status condition holds exactly when the status is one of those listed or, if asked, an error is present; an OR condition holds exactly when one of its conditions does, an AND condition exactly when it is not empty and all do. A nil condition never holds.",
  ["inputs", "configurations"], "all condition trees and model states",
  "No test evaluates conditions over arbitrary model states and nesting.",
  ["core/finish.go"], [("IterFinishing.IsFinished", "core/finish.go"), ("StatusFinishing.IsFinished", "core/finish.go"), ("AndFinishing/OrFinishing.IsFinished", "core/finish.go")],
  observe=["core.IsFinished", "core.Finishing implementations"])
p("C22", "Controller methods keep lock discipline on every path",
  "Every controller and model method, on every path including failures, releases each lock it acquires exactly once, never acquires a lock it already holds, and acquires the status lock never while holding the model lock, so that no sequence or interleaving of calls can leave a lock held or form a lock cycle. Status is written only under the status lock and centroids, counters and figures only under the model lock.",
  ["schedules", "histories"], "all interleavings of method calls and of the run goroutine, all outcomes of user callbacks",
  "A leaked lock or a lock-order inversion only shows under one failing path or one interleaving; the tests run on one processor and never use an algorithm after a failed initialization.",
  ["core/ctrl.go", "core/algo.go", "core/model.go", "core/timeout.go"],
  [("statusMutex / modelMutex", "core/algo.go"), ("Play/Push/Init/Pause/interrupt/recover", "core/ctrl.go"), ("setStatus", "core/algo.go")],
  observe=["any method call returning after any history"])
p("C23", "Commands follow the status machine",
  "Init succeeds only on a created or finished algorithm and then leaves it ready, or finished with the initializer's error, after passing through initializing; pause and wait on an algorithm that is not running, play on a running one, stop on one that is not alive and init on one already initialized return their documented error and change no status. Every change of status is sent to the notifier once, in the order of the changes, with the status just taken.",
  ["histories", "inputs"], "all command histories seen one call at a time, all outcomes of the implementation",
  "Tests follow a few scenarios, several of them unreliable.",
  ["core/ctrl.go", "core/algo.go", "core/status.go"], [("Algo.init/Play/Pause/Wait/interrupt", "core/ctrl.go"), ("setStatus", "core/algo.go")],
  state=[("status", "current status", "core/algo.go")],
  observe=["errors returned by core.OCCtrl methods", "core.OCModel.Status", "StatusNotifier"])
p("C24", "Runtime figures agree with the counters at every moment",
  "Whenever no method is in progress, the iterations, pushed-data and last-data-time figures equal the number of iterations published and the number and time of the accepted pushes since the last initialization of a finished algorithm. A rejected push, and an iteration that returns no centroids or an error, change none of them, and each accepted push or published iteration counts exactly one.",
  ["histories", "schedules"], "all interleavings of pushes, iterations, initializations and readers",
  "Tests read the figures at the end of single-threaded scenarios.",
  ["core/ctrl.go", "core/model.go"], [("updateRuntimeFigures", "core/ctrl.go"), ("saveIterContext", "core/ctrl.go"), ("Push", "core/ctrl.go"), ("init", "core/ctrl.go")],
  state=[("iterations, pushedData, lastDataTime", "counters", "core/algo.go"), ("runtimeFigures", "published figures", "core/algo.go")],
  observe=["core.OCModel.RuntimeFigures"])
p("C25", "Iterations happen only while running and unfinished",
  "The run loop asks the implementation for an iteration only when the status is running and the configured finishing condition (iteration budget or configured condition) has just been evaluated as not met, passing it the currently published centroids; what it returns is published exactly when it is not nil and no error came with it. When the finishing condition is met the algorithm becomes ready.",
  ["histories", "schedules"], "all loop iterations, command interleavings, implementations and conditions",
  "Tests count iterations at the end of runs with a few budgets.",
  ["core/ctrl.go"], [("Algo.run", "core/ctrl.go"), ("saveIterContext", "core/ctrl.go")],
  observe=["calls of core.Impl.Iterate", "core.OCModel.Centroids", "core.OCModel.Status"])
p("C26", "Implementation failures end the run as a finished status with error",
  "If an iteration returns an error or panics, the algorithm ends up finished with that error (or the panic's message) in its status, without crashing the program, keeping the last published centroids. If initialization fails, the error is returned, the status is finished with that error, and no partial centroids are published.",
  ["histories", "fault_sequences"], "all points of failure of the implementation, errors and panics",
  "One test returns an error at the first iteration; none panics.",
  ["core/ctrl.go"], [("Algo.run", "core/ctrl.go"), ("Algo.recover", "core/ctrl.go"), ("Algo.init", "core/ctrl.go")],
  observe=["core.OCModel.Status", "core.OCModel.Centroids"])
p("C27", "Published results are snapshots and caller data is never modified",
  "No operation writes into a slice, element or configuration the caller passed in, and centroids or figures obtained from an algorithm are never changed afterwards by further iterations or pushes. Building or copying an algorithm takes its own copy of the list of data it is given.",
  ["histories", "inputs"], "all histories of iterations and pushes after a result was read",
  "Tests never keep a result across later iterations.",
  ["core/clustering.go", "core/par_dba.go", "core/model.go", "streaming/impl.go", "kmeans/seq.go", "mcmc/impl.go"],
  [("ReduceDBA allocates", "core/clustering.go"), ("streaming Iterate", "streaming/impl.go"), ("RuntimeFigures", "core/model.go"), ("NewDataBuffer copies", "core/buffer.go")],
  observe=["core.OCModel.Centroids", "core.OCModel.RuntimeFigures"])
p("C28", "A late distribution is built once, before first use",
  "Whatever the interleaving of sample and density calls, the wrapped distribution of a late distribution is built by exactly one call of its builder, on the element of the first call, before any call is forwarded, and every call is forwarded unchanged to that one distribution. Its fields are only accessed under its lock.",
  ["schedules", "histories"], "all interleavings of Sample and Pdf calls",
  "Tests call it from one goroutine.",
  ["mcmc/latedistrib.go"], [("LateDistrib.initialize/tryInitialize", "mcmc/latedistrib.go")],
  observe=["mcmc.LateDistrib.Sample", "mcmc.LateDistrib.Pdf"])
p("C29", "Waiting ends only when finished or after its time limit",
  "Waiting returns the timeout error only when a positive duration was given and the time is past its deadline while the condition is not met, and otherwise returns only once the finishing condition (by default: ready, idle, finished or failed) was observed, with the error of the status. It is refused as never finishing exactly when nothing could end it, and a disabled interruption never interrupts.",
  ["inputs", "schedules"], "all conditions, durations, clocks and status histories (partial correctness)",
  "Tests wait in a few scenarios; the clock and status history are arbitrary.",
  ["core/timeout.go", "core/ctrl.go"], [("timeout.wait", "core/timeout.go"), ("timeout.interrupt", "core/timeout.go"), ("Algo.Wait/CanNeverFinish", "core/ctrl.go")],
  observe=["core.WaitTimeout", "core.Algo.Wait", "core.InterruptionTimeout"])
p("C30", "Alteration distributions have the documented shape",
  "For every mean and time >= 1 a multivariate T sample is a new vector of the mean's dimension, equal to the mean plus the normal draw scaled by sqrt(nu/chi2)/sqrt(20*time), and its log-density depends only on the squared distance of its arguments (hence is symmetric) through the documented formula; neither changes its arguments. The Dirac distribution returns the mean itself and a constant density.",
  ["inputs"], "all dimensions, means, times and draws (real arithmetic)",
  "Tests check one dimension and time.",
  ["mcmc/multivt.go", "mcmc/dirac.go"], [("MultivT.Sample", "mcmc/multivt.go"), ("MultivT.Pdf", "mcmc/multivt.go"), ("Dirac", "mcmc/dirac.go")],
  observe=["mcmc.MultivT", "mcmc.Dirac"])
# outside the reach of contracts
p("C40", "Every finite run terminates and every waiter is released",
  "An algorithm with a finite iteration budget and a terminating implementation eventually leaves the running status, and a caller waiting on it is eventually released.",
  ["schedules", "histories"], "all fair schedules",
  "Liveness under all schedules; tests only see that they end.",
  ["core/ctrl.go", "core/timeout.go"], [("Algo.run", "core/ctrl.go"), ("timeout.wait", "core/timeout.go")])
p("C41", "The command handshake never loses or misroutes a command",
  "Each pause, resume or stop command sent while the algorithm runs is received and acknowledged exactly once by the run goroutine it was meant for, even when it races with the end of the run.",
  ["schedules"], "all interleavings of commands with the run goroutine over its channels",
  "Rendezvous over three unbuffered channels, one of which is replaced at each run; tests run one schedule.",
  ["core/algo.go", "core/ctrl.go"], [("sendStatus/receiveStatus", "core/algo.go"), ("Algo.recover", "core/ctrl.go")])
p("C42", "Random draws follow their announced distributions",
  "Over many draws, weighted choices are proportional to their weights, random initial centers are uniform, and MCMC samples its stationary distribution.",
  ["inputs"], "distributional statement over random sources",
  "Statistical; tests check nothing tight.",
  ["kmeans/init.go", "mcmc/impl.go", "mcmc/multivt.go"], [("WeightedChoice", "kmeans/init.go"), ("RandInitializer", "kmeans/init.go")])
p("C43", "The iteration frequency is respected in real time",
  "With a configured frequency f, no more than f iterations per second of wall-clock time are started.",
  ["configurations", "schedules"], "all frequencies and clocks",
  "Real-time behaviour of the scheduler and of Sleep.",
  ["core/ctrl.go"], [("Algo.run iterFreq", "core/ctrl.go")])
p("C44", "Floating-point results stay close to the real-number results",
  "Distances, means and losses computed in floating point stay within a small relative error of their real-number values for all moderate inputs.",
  ["inputs"], "all floating-point inputs",
  "Rounding-error analysis; tests compare with a tolerance on a few inputs.",
  ["euclid/vectors.go", "cosinus/cosinus.go", "core/clustering.go"], [("PointDist", "euclid/vectors.go"), ("PointCombine", "euclid/vectors.go")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for q in P:
        assert len(q["title"]) <= 80, q["title"]
        f.write(json.dumps(q) + "\n")
