#!/usr/bin/env python3
# Generates properties.jsonl (kept as a generator so that the wording is easy to maintain).
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
         "why_tests_cant": why, "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech]}}
    if state: d["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = None
    P.append(d)

prop("C01", "Orderings of the network list every reachable node once, dependencies first",
 "For every rooted acyclic network, however its nodes are shared, each of the topological sorts given a queue lists every node reachable from the root exactly once, with every node after all of its children; given a stack, the same sequence is read back root first. The sorts do not change the network.",
 ["inputs"], "all rooted DAGs of nodes with arbitrary sharing of children (including edges that skip levels), and both collection kinds",
 "The tests fix two networks whose nodes sit in layers; an order that is wrong only when an edge skips a level passes them.",
 ["spn/topo.go", "common/queue.go", "common/stack.go"],
 [("depth-first search with an expanded mark", "spn/topo.go TopSortTarjan, TopSortTarjanRec, TopSortTarjanFunc, TopSortDFS, PostOrder")],
 observe=["TopSortTarjan", "TopSortTarjanRec", "TopSortTarjanFunc", "TopSortDFS", "PostOrder"])

prop("C02", "Soft inference evaluates the network polynomial",
 "For every network and evidence, the recursive value of a node, the non-recursive inference routines, and the values stored for every node by the storing routine all equal the logarithm of the network polynomial: a leaf's probability of the evidence, a weighted sum of the children at sums, the product of the children at products. Inference with one variable overridden uses the override for exactly the leaves over that variable. Evidence and network are left unchanged.",
 ["inputs"], "all acyclic networks with arbitrary sharing, all non-negative weights including zero, all full, partial and empty evidence",
 "The tests evaluate one hand-made network; sharing, zero weights, partial evidence and single-leaf networks are not reached.",
 ["spn/sum.go", "spn/product.go", "spn/utils.go", "spn/storer.go"],
 [("log-space sum and product", "spn/sum.go Value/Compute, spn/product.go Value/Compute"), ("bottom-up dynamic programming", "spn/utils.go Inference, InferenceY, StoreInference")],
 observe=["Value", "Inference", "InferenceY", "StoreInference"])

prop("C03", "MAP evaluation maximises at sums and is consistent across its variants",
 "For every network and evidence, the MAP value of a node (recursive, stored, or returned with the state) is the leaf's best value, the largest weighted child at sums and the product of the children at products. The returned state is made of the best values of leaves of a tree that takes a maximising child at every sum and all children at every product; it never contradicts the evidence. The traced choice at each visited sum is a child that attains its maximum.",
 ["inputs"], "all acyclic networks with arbitrary sharing, non-negative weights, all partial evidence",
 "The test compares the variants on one network; ties, zero weights, shared children and unobserved variables are not covered.",
 ["spn/sum.go", "spn/product.go", "spn/utils.go", "spn/indicator.go", "spn/multinom.go", "spn/gaussian.go"],
 [("max-product recursion", "spn/sum.go Max/ArgMax, spn/product.go Max/ArgMax"), ("stored MAP", "spn/utils.go StoreMAP, TraceMAP")],
 observe=["Max", "ArgMax", "StoreMAP", "TraceMAP"])

prop("C04", "Log-space arithmetic is exact up to rounding",
 "The log-space sum of any non-empty list of log-values is the logarithm of the sum of their exponentials, also when some or all of them are log of zero; the two-value form and the conversions between probabilities and logs agree with it. Signed log sums return the logarithm of the magnitude and the sign of the sum.",
 ["inputs"], "all finite lists of log-values, including minus infinity, in any order",
 "No test calls these functions directly; all-minus-infinity lists and extreme spreads are never exercised.",
 ["utils/log.go"],
 [("shift by the maximum", "utils/log.go LogSumExp, LogSumExpPair, LogSum, LogSumPair, LogSumLog, LogProd, AntiLog")],
 observe=["LogSumExp", "LogSumExpPair", "LogSum", "LogProd", "LogSumLog", "AntiLog"])

prop("C05", "Value tables are independent and return what was last stored",
 "A ticket names its own table: a value stored under a ticket, node and position is what later reads of that triple return until it is overwritten, reset or deleted, and no operation on one ticket changes what any other ticket returns. New tickets are distinct from every ticket still in use; resetting empties exactly the tickets given, and storing under an unknown ticket reports failure and changes nothing.",
 ["histories", "inputs"], "all sequences of ticket creation, store, read, reset, delete and purge over any tickets, nodes and positions",
 "The tests only use a storer through one inference pass; no sequence mixing tickets, resets and deletions is tried.",
 ["spn/storer.go"], [("two-level map keyed by ticket and node", "spn/storer.go Storer, StorerTable")],
 state=[("Storer.tables", "ticket -> table", "spn/storer.go"), ("Storer.tickets", "next ticket", "spn/storer.go")],
 observe=["NewTicket", "Table", "Value", "Entry", "Single", "Store", "StoreSingle", "Exists", "ExistsSPN", "Delete", "Reset", "ResetTickets", "Purge"])

prop("C06", "Queue is first-in first-out, stack is last-in first-out",
 "After any sequence of operations, a queue returns elements in insertion order and a stack in reverse insertion order; taking, peeking, indexed access, size, emptiness, inversion, shrinking and reset agree with that sequence. Nothing is lost, duplicated or reordered, also after internal shrinking.",
 ["histories"], "all operation sequences of any length",
 "No test drives the collections beyond what the sorts need; removal at the back and inversion are never called.",
 ["common/queue.go", "common/stack.go", "common/collection.go"], [("slice with moving front or back", "common/queue.go, common/stack.go")],
 state=[("data", "held elements in order", "common/queue.go, common/stack.go")],
 observe=["Give", "Take", "Peek", "Get", "Size", "Empty", "Reset", "Invert", "Shrink", "Enqueue", "Dequeue", "DequeueBack", "Push", "Pop"])

prop("C07", "Derivatives are the partial derivatives of the network polynomial",
 "For every network whose values have been stored, the derivative stored under a ticket without older derivatives is, for each node, the logarithm of the partial derivative of the root polynomial with respect to that node: one at the root, and elsewhere the sum over all parents of the parent's derivative times the weight (sum parents) or the product of the siblings (product parents). The stored weight derivative of every sum edge is the child value times the sum's derivative, accumulated over instances in batch mode.",
 ["inputs"], "all acyclic networks with arbitrary sharing (edges that skip levels included), all weights and evidence",
 "The tests differentiate one layered network; any order-dependent error needs a node reached by paths of different length.",
 ["learn/derive.go"], [("top-down accumulation", "learn/derive.go DeriveSPN, DeriveWeights, DeriveWeightsBatch")],
 observe=["DeriveSPN", "DeriveWeights", "DeriveWeightsBatch"])

prop("C08", "Weight normalisation yields distributions and preserves ratios",
 "Normalising a vector of weights leaves non-negative weights that sum to one; when the weights were non-negative with a positive sum, their ratios are unchanged. Normalising a network does this for every reachable sum node, once, and changes nothing else.",
 ["inputs"], "all weight vectors with a positive total after shifting, all networks",
 "Tests never look at normalised weights; negative weights and shared sums are not reached.",
 ["spn/utils.go", "learn/derive.go"], [("shift and divide", "spn/utils.go norm, NormalizeSPN; learn/derive.go Normalize")],
 observe=["NormalizeSPN", "Normalize"])

prop("C09", "Leaves are distributions over their variable",
 "An observed leaf returns the log-probability (log-density) of the observed category under its parameters and an unobserved leaf returns log one; the MAP of an observed leaf is its value with a state that keeps the observation (or is empty where the observation is impossible), and that of an unobserved leaf is the largest value over its domain with a state that attains it (the integer nearest the mean for a Gaussian). A multinomial built from counts has the add-one smoothed relative frequencies as probabilities; a Gaussian built from values or counts has their mean (or mode, where documented) and standard deviation. A leaf's mean and deviation are those of its distribution.",
 ["inputs"], "all parameters, all observed values in the domain, observed and unobserved variables",
 "Tests use a few fixed leaves; boundaries, ties and unobserved leaves are hardly reached.",
 ["spn/indicator.go", "spn/multinom.go", "spn/gaussian.go"], [("closed forms", "spn/indicator.go, spn/multinom.go, spn/gaussian.go")],
 observe=["Value", "Max", "ArgMax", "NewMultinomial", "NewEmptyMultinomial", "NewCountingMultinomial", "NewIndicator", "NewGaussianRaw", "NewGaussian", "NewGaussianMode", "Mean", "StdDev", "MuSigma"])

prop("C10", "Scope computation and validity checks decide completeness and decomposability",
 "The computed scope of a node is exactly the set of variables of the leaves below it, without duplicates. The completeness check accepts a network exactly when at every reachable sum all children have the same scope, and the decomposability check exactly when at every reachable product the children's scopes are pairwise disjoint.",
 ["inputs"], "all acyclic networks with arbitrary sharing, valid or not, at any depth",
 "No test calls the checks on an invalid network, so a check that never looks below the root passes.",
 ["spn/utils.go", "spn/node.go"], [("bottom-up union of scopes", "spn/utils.go ComputeScope"), ("graph traversal", "spn/utils.go Complete, Decomposable")],
 observe=["ComputeScope", "Complete", "Decomposable"])

prop("C11", "Saving and loading a network preserves it",
 "A network written and read back has the same structure, including sharing, the same weights and the same leaf parameters, so that every inference gives the same result as before.",
 ["inputs"], "all networks of sums, products, indicators, multinomials and Gaussians with any weights",
 "No test serialises a network; weights with many digits and shared nodes are needed to see a loss.",
 ["spn/serial.go", "io/spn.go", "spn/sum.go", "spn/multinom.go", "spn/indicator.go", "spn/gaussian.go"], [("node table and text encoding", "spn/serial.go Marshal, Unmarshal")],
 observe=["Marshal", "Unmarshal"])

prop("C12", "Union-find maintains a partition",
 "Two elements have the same representative exactly when a chain of unions connects them; union reports failure exactly when they already were together, and otherwise merges exactly the two classes and returns the new representative. Listing a class from its representative yields each of its members exactly once.",
 ["histories"], "all sequences of creations, finds and unions",
 "No test uses the structure.",
 ["utils/unionfind.go"], [("rank and path compression", "utils/unionfind.go")],
 state=[("Pa, Ch", "forest", "utils/unionfind.go")], observe=["MakeSet", "Find", "Union", "UFVarids"])

prop("C13", "Variables are grouped exactly by connected dependence",
 "The independence graph splits the variables of a dataset into disjoint groups that cover all of them; variables end in the same group exactly when the pairwise independence test connects them through a chain of dependences. The contingency counts given to the test are the exact co-occurrence counts of the data, and the statistic computed from them is the documented one.",
 ["inputs"], "all datasets and all outcomes of the pairwise tests",
 "No test builds an independence graph.",
 ["utils/indep/indgraph.go", "utils/indep/chisq.go", "utils/indep/gtest.go"], [("union-find over dependence edges", "utils/indep/indgraph.go")],
 observe=["NewIndepGraph", "NewUFIndepGraph", "ChiSquareTest", "GTest"])

prop("C14", "Clustering partitions the instances",
 "Clustering by k-means or DBSCAN, in matrix and in dataset form, puts each instance of the data in exactly one of the returned clusters, with its values unchanged (in matrix form under its own index), and puts nothing else there; k-means returns exactly k clusters. DBSCAN puts two instances in the same cluster only if a chain of instances connects them, each within the Euclidean distance eps of the next; when at most one neighbour is required, also whenever such a chain exists. The data are left unchanged, and the Euclidean and Hamming distances are those of their definitions.",
 ["inputs"], "all data matrices and datasets, numbers of clusters between one and the number of instances, eps, minimum sizes and random choices",
 "No test clusters data.",
 ["utils/cluster/kmeans.go", "utils/cluster/dbscan.go", "utils/cluster/cluster.go", "utils/cluster/metrics"], [("assignment of instances to clusters", "utils/cluster/cluster.go")],
 observe=["KMeans", "KMeansF", "KMeansData", "KMeansDataI", "KMeansI", "DBSCAN", "DBSCANData"])

prop("C15", "Dataset manipulation loses, invents and mixes up nothing",
 "Splitting, partitioning, dividing, joining, copying, subtracting and shuffling a dataset return exactly the instances they document, each with its own label, in the documented order: partitions are disjoint and cover the input, subtraction separates exactly the given label or variable, joining concatenates. Except for in-place shuffling the inputs are unchanged and the results share no instance storage with them.",
 ["inputs"], "all datasets, labels, proportions and random permutations",
 "No test calls this package.",
 ["data/manipulate.go"], [("copy loops over index permutations", "data/manipulate.go")],
 observe=["ExtractLabels", "Partition", "PartitionByLabels", "Split", "Copy", "Shuffle", "Join", "SubtractLabel", "SubtractVariable", "Identical", "Divide"])

prop("C16", "Score keeping counts each registered prediction once",
 "A score's total equals its hits plus its misses; registering a prediction adds exactly one to the hits if it equals the expected label and one to the misses otherwise, and records the pair after those before it. Merging appends the other score's counts and pairs, adding two scores gives a new score that stays independent of both, and clearing empties the score; no operation changes any other score. The confusion matrix holds the number of recorded pairs of each expected and predicted label.",
 ["histories"], "all sequences of register, merge, add and clear on any number of scores",
 "No test uses scores.",
 ["score/score.go"], [("counters and prediction list", "score/score.go Register, Merge, Add, Clear, ConfusionMatrix")],
 state=[("hits, misses, total, predictions", "tallies and recorded pairs", "score/score.go")], observe=["Register", "Merge", "Add", "Clear", "Hits", "Misses", "Total", "ConfusionMatrix"])

prop("C19", "Rectangle codes are a bijection",
 "Encoding a rectangular image region as an integer and decoding it gives the same region back, for every region inside the image; distinct regions have distinct codes.",
 ["inputs"], "all image sizes and all regions inside them",
 "The test checks one image size.",
 ["learn/poon/poon.go"], [("positional encoding", "learn/poon/poon.go Encode, Decode")], observe=["Encode", "Decode"])

prop("C20", "Dataset and matrix forms correspond entry by entry",
 "Converting a dataset to a matrix puts every variable's value of every instance at the documented position, under the returned renaming of variables, which is one-to-one; converting a matrix to a dataset and scopes or columns to their copies preserves every entry and leaves the source unchanged.",
 ["inputs"], "all complete or consistent datasets, all matrices and scopes",
 "No test calls the conversions.",
 ["learn/variable.go"], [("copy loops with a renaming map", "learn/variable.go")],
 observe=["ExtractInstance", "CompleteDataToMatrix", "DataToMatrix", "CompleteDataToMatrixF", "DataToMatrixF", "MatrixToData", "ReflectScope", "CopyScope", "DataToVarData"])

prop("C23", "Descriptive statistics match their definitions",
 "The mean and standard deviation of a histogram of counts equal those of the values it counts, and the quantile partition covers all observations in order, with the mean, deviation and size of each part.",
 ["inputs"], "all count vectors with a positive total; all observation vectors and part counts",
 "No test calls these functions.",
 ["utils/stats.go"], [("closed-form sums", "utils/stats.go")], observe=["Mean", "StdDev", "MuSigma", "PartitionQuantiles"])

prop("C24", "Graph traversals visit every reachable node exactly once",
 "Breadth-first and depth-first traversal call the visitor on the root and on every node reachable from it, once each and on nothing else: breadth first in order of discovery, depth first always continuing with the most recently discovered node. A negative answer of the visitor skips the node's branch, a positive one ends the traversal at once. The node count reports the number of distinct reachable sums, products and leaves, and the height is the length of a longest path to a leaf.",
 ["inputs"], "all acyclic networks with arbitrary sharing (edges that skip levels included), all visitors",
 "No test traverses a network with shared nodes, skips a branch or stops early.",
 ["spn/search.go", "spn/utils.go", "spn/node.go"], [("visited set over a queue or stack", "spn/search.go BreadthFirst, DepthFirst, CountNodes"), ("longest path over a topological order", "spn/utils.go ComputeHeight, spn/node.go Height")], observe=["BreadthFirst", "DepthFirst", "CountNodes", "ComputeHeight", "Height"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for d in P:
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d) + "\n")
