#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os

P = []


def prop(id, title, statement, over, quant, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": quant}, "why_tests_cant": why, "anchors": a})


SE = "simple_einet/"
LY = SE + "layers/"
DI = LY + "distributions/"

prop("C01", "Every sum layer computes the log of a normalised mixture of its children",
     "For every sum-type layer (plain sum, einsum, linsum, linsum2, repetition mixing) each output value is the log of a convex combination - weights obtained by a softmax of that node's own parameters over its own children - of the values of exactly the children the layer documents: the node's channels, all channel pairs of the two siblings, the sibling sum per channel, the two siblings' own mixtures, or the repetitions. A missing right sibling of an odd-sized layer contributes probability 1. The result has the documented shape and the input tensor is not changed.",
     ["inputs", "configurations"], "all batch sizes, feature/channel/repetition counts (even and odd), all parameter values and all log-likelihood inputs",
     "The layer tests compare shapes and a few random tensors of fixed sizes; a wrong normalisation axis or a wrong sibling pairing at another size or parity is not sampled.",
     [LY + "sum.py", LY + "einsum.py", LY + "linsum.py", LY + "mixing.py", SE + "abstract_layers.py"],
     [("AbstractSumLayer.logits_to_log_weights", SE + "abstract_layers.py"), ("forward of the layers", LY)])

prop("C02", "A model is a normalised density in which every feature counts exactly once",
     "The log-likelihood an Einet returns is, for each class, a mixture with non-negative weights summing to one over (repetition, channel) components, each of which is a product containing the distribution of every input feature and channel exactly once. Hence a fully missing input has log-likelihood 0 and no likelihood mass is lost or counted twice, for every layer type, structure, depth, number of repetitions and feature count (also counts that are not powers of two).",
     ["inputs", "configurations"], "all feature, channel, leaf, sum, class, repetition counts and parameters; depth 0 to 3; top-down and bottom-up; random structure choices",
     "Tests only check that a forward pass runs for a handful of small shapes; they do not check what the value means.",
     [SE + "einet.py", LY + "factorized_leaf.py", LY + "product.py", LY + "linsum.py", LY + "einsum.py"],
     [("Einet._build_structure_top_down/_bottom_up", SE + "einet.py"), ("FactorizedLeaf scopes", LY + "factorized_leaf.py"), ("RootProductLayer.forward", LY + "product.py")],
     [("scopes", "feature -> partition assignment per repetition", LY + "factorized_leaf.py"), ("permutation", "feature order per repetition", SE + "einet.py")])

prop("C03", "Missing and marginalised features are integrated out exactly",
     "A feature that is NaN in the input, or that is listed in the marginalised scopes, contributes exactly a factor of one for each leaf distribution, and every other feature's contribution is unchanged; both ways of marking the same features give the same log-likelihood. (The multivariate Normal leaf supports this for whole blocks of jointly modelled features, through the marginalised scopes.) No NaN reaches the returned log-likelihood when the non-missing inputs are in the support, and the caller's tensor is left as it was.",
     ["inputs", "configurations"], "all inputs, all NaN patterns (per row, per channel), all index lists/tensors of marginalised scopes, all leaf families and parameters",
     "There is no test of marginalised values; the quantifier is over all missing-value patterns.",
     [DI + "abstract_leaf.py", DI + "binomial.py", DI + "normal.py", DI + "multidistribution.py", SE + "einet.py"],
     [("AbstractLeaf._marginalize_input", DI + "abstract_leaf.py"), ("dist_forward", DI + "abstract_leaf.py")])

prop("C04", "Log-likelihoods are per-row and do not depend on the input layout",
     "The log-likelihood of a row depends only on that row and the parameters: the [N, D], [N, C, D] and [N, C, H, W] layouts of the same data give the same result of shape [N, classes], row n of a batch equals the result for that row alone, and two calls give the same values. Inputs whose number of channels or features differ from the configuration are rejected. Neither the input nor the model's parameters change.",
     ["inputs", "configurations"], "all batch sizes and input layouts, all sizes and parameters, all configurations",
     "Tests use one random batch per shape and only look at the output shape.",
     [SE + "einet.py", DI + "abstract_leaf.py"], [("Einet.forward", SE + "einet.py")])

prop("C05", "Conditional sampling and MPE keep the evidence and fill exactly the gaps",
     "Sampling or MPE with evidence returns a tensor of the evidence's shape in which every observed entry has its original value and every missing entry (NaN, or listed in the marginalised scopes) is replaced by a generated value in the support of its leaf. The evidence tensor passed in is not modified, and no missing-value marker is left in a returned MPE or sample.",
     ["inputs", "configurations", "histories"], "all evidence tensors, NaN patterns, layouts, marginalised scopes, configurations and random draws",
     "Tests check result shapes only.",
     [SE + "einet.py", SE + "mixture.py", SE + "conv_pc.py", SE + "sampling_utils.py"],
     [("Einet.sample", SE + "einet.py"), ("sampling_context", SE + "sampling_utils.py")])

prop("C06", "Each sum node selects children with the right probabilities",
     "When sampling, a sum node selects child i with probability proportional to softmax(parameters / temperature)_i, times exp of the child's cached log-likelihood when evidence is given; in MPE mode it selects a child maximising that product. Each sample's choice uses the parameters of its own output channel, its own repetition and its own evidence row, one independent choice is made for every feature partition, and odd-sized layers lose no feature.",
     ["inputs", "configurations"], "all weights, temperatures, evidence, parent selections, sizes (even/odd) and random draws; index and one-hot sampling",
     "Tests look at shapes of samples, or at one seed; a distribution statement for all weights and sizes cannot be sampled.",
     [SE + "abstract_layers.py", LY + "sum.py", LY + "einsum.py", LY + "linsum.py", LY + "mixing.py", SE + "sampling_utils.py"],
     [("AbstractSumLayer._sample / _condition_weights_on_evidence", SE + "abstract_layers.py"), ("_select_weights, _sample_from_weights", LY)])

prop("C07", "Sampling follows the same circuit that defines the density",
     "The top-down sampling pass uses the same structure as the bottom-up likelihood pass: a sampled feature is drawn from the leaf distribution of exactly the channel and repetition that was selected for the partition containing that feature, with that feature's own parameters. This holds for every assignment of features to partitions, every feature permutation, every feature count and for multivariate leaves, so samples follow the density the model reports.",
     ["inputs", "configurations"], "all structures, permutations, feature counts, repetition counts, parameters, parent selections and random draws",
     "Needs a comparison of two passes over all structures; tests exercise each pass separately and check shapes.",
     [LY + "factorized_leaf.py", LY + "product.py", SE + "einet.py", DI + "abstract_leaf.py"],
     [("FactorizedLeaf.forward / sample", LY + "factorized_leaf.py"), ("FactorizedLeafSimple", LY + "factorized_leaf.py"), ("permutation_inv", SE + "einet.py")])

prop("C08", "Differentiable sampling and index sampling mean the same thing",
     "With one-hot (differentiable) contexts every layer selects the same weights, leaf parameters and features as with the corresponding index context, and the differentiable categorical sampler returns a one-hot vector in the forward pass whose position follows the given (log-)weights, or their maximum in MPE mode. One-hot indexing returns exactly the entry the index addresses.",
     ["inputs", "configurations"], "all one-hot contexts, sizes, weights and random draws",
     "Existing tests compare a few fixed-size layers; the equality must hold for all sizes and selections.",
     [SE + "sampling_utils.py", SE + "abstract_layers.py", LY + "factorized_leaf.py", DI + "abstract_leaf.py"],
     [("index_one_hot", SE + "sampling_utils.py"), ("SIMPLE / sample_categorical_differentiably", SE + "sampling_utils.py")])

prop("C09", "Conditioning on evidence never leaks into later calls",
     "After a sampling or MPE call with evidence ends - normally, through an early return or through an exception - no state of that call remains in the model: every later log-likelihood, sample or MPE call behaves as if the earlier call had not happened. During the call each layer conditions on the values of this call's evidence only.",
     ["histories", "inputs", "fault_sequences"], "all sequences of calls and all points at which a call can fail or return early",
     "Tests make single calls on fresh models and never continue after a failing call.",
     [SE + "sampling_utils.py", SE + "abstract_layers.py", SE + "einet.py"],
     [("sampling_context", SE + "sampling_utils.py"), ("_enable_input_cache/_disable_input_cache", SE + "abstract_layers.py")],
     [("_is_input_cache_enabled, _input_cache", "evidence log-likelihoods of the children", SE + "abstract_layers.py")])

prop("C10", "Seeded sampling is reproducible and leaves the global random state alone",
     "Sampling with a seed returns the same result for the same model, arguments and seed, whatever random numbers were drawn before, and afterwards - also when the call fails - the global random state is what it was before the call. Without a seed the global random stream is used.",
     ["inputs", "histories", "fault_sequences"], "all seeds, prior random states, arguments and failure points",
     "Tests do not look at the global generator state.",
     [SE + "sampling_utils.py", SE + "einet.py", SE + "mixture.py", SE + "conv_pc.py"], [("sampling_context", SE + "sampling_utils.py")])

prop("C11", "Classes are conditioned on, sampled and scored consistently",
     "The class posterior of an input is the softmax over classes of its class log-likelihoods under the uniform class prior. Sampling with an explicit class (one class, or one per sample) uses exactly that class's root node for that sample; without one, the class is drawn from the uniform prior, or with evidence from the posterior of the class given that row's evidence.",
     ["inputs", "configurations"], "all class counts, class index arguments, evidence, parameters and random draws",
     "Tests check the shapes of class-conditional samples only.",
     [SE + "einet.py"], [("Einet.sample / posterior", SE + "einet.py")])

prop("C12", "Leaf distributions are valid and read the right parameters",
     "Every leaf family (Normal, bounded-parameter Normal, Bernoulli, Binomial, Categorical, multivariate Normal) evaluates, for each feature, channel, leaf and repetition, the log-density of that entry with its own parameters, which for every value of the trainable parameters are valid (positive scales, probabilities in (0,1) summing to one, means and scales inside configured bounds). Sampling draws each entry from that same distribution with the parameters of the sample's selected leaf and repetition, with the leaf temperature scaling the spread, and MPE returns a mode inside the support. (The temperature applies to the Normal families and the Categorical leaf; the multivariate Normal needs a feature count that its block size divides.)",
     ["inputs", "configurations"], "all parameter values, data in the support, sizes, leaf selections, temperatures and random draws",
     "The leaf test only checks shapes of log-likelihoods and samples for one size.",
     [DI + "abstract_leaf.py", DI + "normal.py", DI + "bernoulli.py", DI + "binomial.py", DI + "categorical.py", DI + "multivariate_normal.py"],
     [("dist_forward / dist_sample / dist_mode", DI + "abstract_leaf.py"), ("_get_base_distribution", DI)])

prop("C13", "Mixed leaf layers apply each family to its own features, in order",
     "A leaf layer composed of several families evaluates every feature with the family and the parameters configured for that feature and returns values and samples in the original feature order, for every partition of the features into scopes. Configurations whose scopes are not a partition of the features are rejected.",
     ["inputs", "configurations"], "all scope partitions (also interleaved ones), inputs, parameters and selections",
     "Only two fixed partitions appear in tests.",
     [DI + "multidistribution.py"], [("MultiDistributionLayer.forward / sample", DI + "multidistribution.py")])

prop("C14", "Configurations and arguments outside their documented range are rejected",
     "Validated configuration values are accepted exactly when they have the required type and lie inside the documented range - lower bounds inclusive, upper bounds exclusive, and a bound of zero counts like any other - and are rejected with an error otherwise. A model is only built when its depth fits the number of features, and sampling refuses contradictory argument combinations.",
     ["inputs", "configurations"], "all values, types and bounds; all configurations",
     "Tests try a few invalid values; boundary and zero bounds are not covered.",
     [SE + "type_checks.py", SE + "einet.py", LY, SE + "conv_pc.py"], [("check_valid", SE + "type_checks.py"), ("EinetConfig.assert_valid", SE + "einet.py")])

prop("C15", "A mixture scores, completes and draws every row with exactly one component",
     "Every row given to a Mixture is handled by one component: the one whose centroid is nearest to the row, measured over the row's present, not marginalised features only. forward returns, in row order, the log-likelihoods of the rows under their components with the marginalised scopes applied there too; conditional sampling and MPE complete each row with its component, keep the evidence and the row order. Unconditional sampling returns as many rows as asked for, each drawn independently from a component chosen with the mixture weights (or num_samples_per_cluster rows of every component, in order; MPE uses a component of largest weight), with the rows of a class list aligned to its entries. All sampling options reach the components, a seed determines the whole result without disturbing the generator, and different components never share randomness. Initialisation weighs every component by its share of the data.",
     ["inputs", "configurations", "histories"], "all numbers of components, parameters, evidence, component choices and options",
     "There are no tests of the mixture model.",
     [SE + "mixture.py"], [("Mixture.forward / sample / initialize", SE + "mixture.py")])

prop("C16", "Convolutional circuits are normalised and sample what they score",
     "The log-likelihood of a convolutional probabilistic circuit is a normalised mixture of products in which each pixel occurs exactly once (a fully missing image has log-likelihood 0), for every order of the layers and number of channels. Sampling selects for every pixel the leaf under the spatial position, channel and kernel weight that the likelihood pass uses for it, conditioned on the evidence where given.",
     ["inputs", "configurations"], "all channel counts, kernel sizes, image sizes, parameters, parent selections and random draws",
     "No test covers the convolutional model.",
     [SE + "conv_pc.py"], [("SumConv / ProdConv forward and sample", SE + "conv_pc.py"), ("ConvPc.forward / sample", SE + "conv_pc.py")])

prop("C17", "Piecewise linear leaves are normalised densities fitted to the data",
     "A continuous piecewise linear leaf is a probability density for every feature, channel, leaf and repetition: non-negative, integrating to one after initialisation from data, evaluated by linear interpolation between its points and floored (log-density -300) outside its support; missing values contribute nothing. Its samples follow that density inside the support and its mode is a point of largest density. A discrete one has the relative frequencies of the values as masses, which sum to one; it samples values of its domain with those masses and its mode is a most frequent value. An uninitialised leaf refuses to be used.",
     ["inputs", "configurations"], "all histograms/knots, inputs, NaN patterns and selections",
     "No test covers this leaf.",
     [DI + "piecewise_linear.py", SE + "histogram.py"], [("PiecewiseLinearDist", DI + "piecewise_linear.py")])

prop("C18", "Data preparation keeps values, labels and supports consistent",
     "8-bit images quantised to n bits take values in exactly {0, ..., 2^n - 1} in the order of the original intensities (intensities outside [0, 1] are refused), the discrete distribution chosen for them has exactly that support, and for Gaussian leaves they are placed, with or without uniform noise inside their own bin, in [-1/2, 1/2]. The endless training sampler yields valid dataset indices covering a full pass without repetition before any index recurs, repeatably for a seed and without touching the global random state. The reported number of classes, shape and domain match the dataset.",
     ["inputs", "configurations", "histories"], "all intensities, bit counts, dataset sizes and pass counts",
     "No test covers the data utilities.",
     [SE + "data.py", SE + "dist.py", SE + "utils.py", "exp_utils.py"], [("reduce_bits / preprocess", SE + "utils.py"), ("TrainingSampler", SE + "data.py"), ("get_distribution", SE + "dist.py")])

prop("C20", "Dropout only acts in training and keeps the model a distribution",
     "Dropout in the sum-type layers (sum, mixing, linsum, linsum2, einsum) has no effect and uses no random number in evaluation mode or with rate zero. In training mode every node is the mixture, with its unchanged weights, of a non-empty random subset of its children: a node never loses all of its children, so the log-likelihood stays finite for inputs in the support, and the caller's tensors and the parameters are not modified.",
     ["inputs", "configurations"], "all rates, masks, sizes, parameters and inputs",
     "Dropout is random; tests never inspect masks.",
     [SE + "abstract_layers.py", LY + "sum.py", LY + "einsum.py", LY + "linsum.py", LY + "mixing.py"],
     [("AbstractSumLayer dropout", SE + "abstract_layers.py"), ("forward of the sum-type layers", LY)])

prop("C21", "Cached leaf likelihoods give the same answer as recomputing them",
     "Calling a model with a cache index returns the same log-likelihood as calling it without one for the batch that index stands for, on the first and on every later call, for every structure, and interleaving other cache indices or uncached calls changes nothing. Resetting the cache makes the next call use the current data and parameters.",
     ["histories", "inputs", "configurations"], "all sequences of cached/uncached calls, all batches, structures and parameters",
     "No test calls a model twice with the same cache index.",
     [SE + "einet.py"], [("Einet.forward cache_index", SE + "einet.py")], [("_leaf_cache", "leaf log-likelihoods per cache index", SE + "einet.py")])

prop("C22", "Small helpers used by every pass are exact",
     "Inverting a permutation gives its inverse. Bits per dimension is the mean of -log2 p per dimension, corrected by the bin width for densities of rescaled images only. The generative loss is the mean (or sum) negative log-likelihood of the batch and refuses unknown reductions; the discriminative loss is the mean negative log-posterior of the labels and the accuracy the share of rows whose label is the likeliest class; images are scaled to grey levels for binomial leaves and for them only. Without a label the log-likelihood is that of the uniform mixture of the classes. Leaf initialisation sets every leaf's mean to its feature's mean over all rows plus noise, and its variance to a positive value not below its feature's, in the model's parameter layout.",
     ["inputs"], "all permutations, likelihood tensors and data statistics",
     "No test covers these helpers.",
     [SE + "utils.py", SE + "sampling_utils.py", "models_pl.py", "main.py"], [("invert_permutation", SE + "utils.py"), ("init_einet_stats", SE + "sampling_utils.py")])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for p in sorted(P, key=lambda p: p["id"]):
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
