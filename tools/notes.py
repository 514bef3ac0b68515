# level and note per property; used by mkmanifest.py
X = "Histories are additionally executed on the real code (labelled executed). "
B = "The bounded contracts are bounded in the number of %s printed with them in the evidence (rows, columns and values stay arbitrary) and are never counted as proved. " + X
NOTES = {
 "C01": ("proof", "The partition of a node by any split, the child rules of a node of any depth and the root rule are proved for all sizes; one further contract on explicit rules of two conditions is bounded and redundant."),
 "C02": ("proof", "Rules of any number of conditions and the rows of children of any node are proved by a loop invariant over the conditions; the explicit constructions up to two conditions are bounded cross-checks. " + X),
 "C03": ("proof", "All contracts proved for all sizes and values. " + X),
 "C04": ("proof", "All contracts proved for any number of rows and any non-constant target."),
 "C05": ("proof", "All contracts proved for any number of rows and columns and any right hints from the nodes above, with a stated invariant of the column loop. Where a changed loop no longer fits the invariant, the contract falls back to at most two columns and says so. " + X),
 "C06": ("proof", "Grow, prune, node lists and guard proved for a tree of any number of nodes. " + X),
 "C07": ("other", "One sweep over any number of trees with arbitrary changes of their predictions is proved; mutations of real trees and several sweeps are bounded (1-3 trees). " + X),
 "C08": ("other", "Predictions of a tree of any number of leaves and sums over any number of trees are proved; mutations and refreshes of explicit trees are bounded; fitted estimators are executed. " + X),
 "C09": ("proof", "Leaf posterior, prior scale and frame proved for any leaf and any number of leaves."),
 "C10": ("proof", "Proved for any number of rows and trees."),
 "C11": ("proof", "Acceptance and frame proved for trees of any number of nodes, any ratio and draw; the ratio is proved to be the sum of its parts; the oblivious sampler is bounded to two simultaneous proposals."),
 "C12": ("proof", "The likelihood ratio is proved equal to the difference of log marginal likelihoods for arbitrary nodes; additionally executed against numerical integration."),
 "C13": ("other", "Prior ratio of a grow and rule probability proved for any number of columns; transition ratio and cancellation bounded to explicit trees. " + X),
 "C19": ("other", "Node choice, prune proposal and the grow proposal of a leaf proved for any number of nodes and columns; the choice among several leaves, kind fallback and kind probabilities bounded. " + X),
 "C20": ("other", "The sweep over any number of trees and leaves is proved; real trees and two sweeps bounded. " + X),
 "C21": ("proof", "Proved for any number of rows. " + X),
 "C23": ("other", "The store invariant is proved for any store size; the refill's distributions are bounded to the first draws. " + X),
}
WHAT = {"C14": "nodes", "C15": "sweeps", "C16": "data sets and chains", "C17": "variables and permutation runs", "C18": "trees, nodes and chains",
        "C22": "sklearn splits", "C24": "folds and permutations", "C25": "chains, samples and columns"}
for i in range(1, 26):
    p = "C%02d" % i
    NOTES.setdefault(p, ("other", B % WHAT.get(p, "objects")))
