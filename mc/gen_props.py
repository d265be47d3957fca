"""Writes properties.jsonl (kept as code so that statements stay reviewable)."""
import json, os
S = "haiku/_src/"
def P(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
  return dict(id=id, title=title, statement=statement,
              quantifier=dict(over=over, text=qtext), why_tests_cant=why,
              anchors=dict(files=[S+f if '/' not in f or f.startswith('nets/') else f for f in files],
                           state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                           mechanism=[dict(name=n, where=w) for n, w in mech],
                           observe_at=list(observe), hook_needed=hook))
PROPS = [
P("C01", "init and apply run every program with exact parameter and state semantics",
  "For every function built from parameter requests, state reads and writes, and modules (created, called, re-called, shared, nested), init returns exactly the parameters requested, each with the value of its first initializer, and for each piece of state the first value it ever had; apply returns the function's output computed from the parameters and state it was given, together with that state updated by exactly the writes made and with everything else passed through. Within one run the same name in the same module always denotes the same parameter and the latest written state. A parameter that init did not create, state without a value and without an initializer, a shape that differs from the requested one, and (for the stateless transform) any use of state, raise an error instead of yielding a value.",
  ["programs", "histories"], "all programs up to a bounded number of operations and nesting, followed by all short histories of init/apply calls",
  "tests run a few hand-written networks; nothing compares arbitrary interleavings of requests, writes, reuse and sharing with a reference semantics",
  ["base.py", "transform.py", "module.py"],
  [("get_parameter/get_state/set_state", S+"base.py"), ("new_context/collect_*", S+"base.py"), ("init_fn/apply_fn, without_state", S+"transform.py")],
  [("frame params/state", "module -> name -> value (state: initial, current)", S+"base.py")],
  ["return values of init and apply"]),
P("C02", "An exception at any point leaves no trace behind",
  "If user code raises at any point inside a transformed function (in a module constructor or method, initializer, creator, getter, interceptor, name scope, rng scope or control-flow body), the exception propagates unchanged, and code that handles it inside the function continues with the names, scopes, rng sequence and hooks that were in force at the handler. After it leaves init or apply, nothing of the aborted run is observable: every later init/apply behaves as in a fresh process, and the library still refuses module creation, parameters, state and rng outside a transform.",
  ["crash_points", "programs"], "every operation of every bounded program as the point of failure, with and without a handler at every enclosing scope",
  "tests raise at two or three hand-picked points; cleanup must hold for every raise point and every enclosing context",
  ["base.py", "module.py", "data_structures.py", "stateful.py", "transform.py", "random.py"],
  [("context managers popping their own element", S+"data_structures.py"), ("HaikuContext.__exit__", S+"base.py"), ("wrap_method", S+"module.py")],
  [("thread local stacks", "frames, creators, getters, interceptors, hooks", S+"base.py")],
  ["behaviour of handlers and of later calls"]),
P("C03", "init and apply are pure: no mutation, no aliasing, no memory of earlier calls",
  "init and apply never modify the parameters, state, rng or arguments they are given (whatever mapping type they come in), the mappings they return are immutable at both levels, and what a caller later does to its own mappings does not change what was returned. The result of a call depends only on its arguments: it is the same whichever init/apply calls of the same or other transformed functions came before it, are in progress around it (a transformed function called inside another) or failed.",
  ["histories"], "all sequences of calls up to a bound over several transformed functions and over aliased, mutable and immutable argument mappings, and all nestings of one call in another",
  "each test makes one or two calls in a fixed order and compares values, not effects on arguments or dependence on history",
  ["base.py", "transform.py", "data_structures.py", "stateful.py"],
  [("new_context copies / freezes its inputs", S+"base.py"), ("to_immutable_dict, FlatMapping", S+"data_structures.py")],
  [("frame stack", "one frame per active init/apply", S+"base.py")], ["arguments after the call", "returned mappings"]),
P("C04", "Concurrent init/apply on different threads do not affect each other",
  "When several threads run init or apply (of the same or different transformed functions) at the same time, each call returns, or raises, exactly what it would have alone, for every interleaving of the threads. Contexts opened on one thread (transforms, modules, custom creators and getters, method interceptors, name and rng scopes, rng optimisation) are never visible on another.",
  ["schedules"], "all interleavings of 2 (and 3) threads with a bounded number of preemptions, at the granularity of source lines of the library",
  "the suite has a single free-running multi-threading test; it samples one schedule",
  ["data_structures.py", "base.py", "module.py", "random.py"],
  [("ThreadLocalStack", S+"data_structures.py")], [("ambient stacks", "per-thread contexts", S+"base.py and module.py")],
  ["per-thread results"]),
P("C05", "Module names are unique, deterministic and follow the documented scheme",
  "Each module's name is its enclosing scope (parent module, with '~' for modules created in the constructor and '~method' for methods other than __call__; transparent methods add nothing; name scopes act as modules) followed by its own name, made unique by the lowest counter not yet passed in that scope, with explicitly numbered names kept and counted. Names depend only on the sequence of constructions: they are the same in init, in every apply, and, for modules created inside a module's method, inside the library's versions of JAX transformations, and a name that is invalid or would be repeated in the scope raises. Parameters and state are stored under exactly these names.",
  ["programs"], "all bounded construction programs over names with and without numeric suffixes, nesting, constructors, methods, properties, name scopes and reuse",
  "tests list a handful of module trees; collisions depend on the order and mix of implicit and explicit numbers and on nesting",
  ["module.py", "base.py", "utils.py", "basic.py"],
  [("unique_and_canonical_name", S+"module.py"), ("wrap_method/NameScope", S+"module.py"), ("camel_to_snake", S+"utils.py")],
  [("counter and used-name stacks", "names given out per scope", S+"base.py")], ["module_name, keys of params/state"]),
P("C06", "Random keys are never reused and are a function of the seed and requests",
  "Within one call of init or apply, and within one PRNGSequence, every key handed out is different from every other key handed out and from every key the library has split or will split, whatever the sequence of single, multiple and optional requests, reservations and rng scopes (given different keys). The keys are the documented function of the initial key: reservation of n splits once into n+1, the first being kept and the rest handed out in order, and a sequence restored from its state continues identically. Without an rng, requests raise (optional ones give None), and anything that is not a key is rejected.",
  ["programs", "histories"], "all request sequences up to a bound, over all initial states of the sequence, in init and apply",
  "uniqueness must hold for all sequences of requests; tests draw a few keys and do not see which parents were split",
  ["base.py", "transform.py", "random.py"],
  [("PRNGSequence", S+"base.py"), ("next_rng_key(s), maybe_next_rng_key, reserve_rng_keys, with_rng", S+"base.py"), ("optimize_rng_use", S+"random.py")],
  [("key and reserved subkeys", "splitting state", S+"base.py")], ["keys returned; calls of jax.random.split"]),
P("C07", "jit, remat, grad, vmap and eval_shape inside a transform are transparent",
  "Inside a transformed function, wrapping any part of the computation in the library's jit, remat, grad, value_and_grad, vmap, named_call or eval_shape gives the outputs (and, for grad, derivatives) of running that part directly or of differentiating or mapping it with plain JAX, creates the same parameters under the same names with the same values, leaves the same state, and hands out the same random keys before, inside and after; eval_shape alone leaves parameters, state and rng as they were. This holds in init and in apply, for nested and repeated wraps, for parts that touch none, some or all of the parameters, state and rng (their modules being created outside the wrapped part or inside a module's method), and it never modifies parameters passed to apply.",
  ["programs"], "all bounded programs with up to two nested or consecutive wrapped blocks over all effects",
  "tests wrap one fixed counter module per transformation; the change tracking is by identity and breaks only for particular mixes of touched and untouched state",
  ["stateful.py", "base.py"],
  [("internal_state/temporary_internal_state/difference/update_internal_state", S+"stateful.py")],
  [("internal state", "params, state and rng threaded through", S+"stateful.py")], ["outputs, params, state, keys"]),
P("C08", "cond, switch, scan, fori_loop and while_loop thread all state exactly",
  "The library's cond, switch, scan, fori_loop and while_loop compute the same outputs, the same final state and the same parameters as running the selected branch, or the body once per iteration in order, as ordinary Python, in init and in apply, for every predicate, index (clamped), trip count (including zero and one; with zero trips init still runs the body once, only to create its parameters and state), direction, unroll factor and nesting. Random keys drawn in a branch or loop body are distinct between iterations and from all keys drawn before or after, in whatever state of reservation the sequence is, and nothing the branch or loop did not write is changed. Creating parameters inside a loop body at apply time, and changing state or drawing keys in a while condition, raise.",
  ["programs", "inputs"], "all bounded programs over the control-flow operators nested to depth two, with all effects in bodies, all trip counts/predicates in the bound",
  "tests run counters through each operator with a fixed trip count",
  ["stateful.py", "base.py"],
  [("stateful_branch, scan, fori_loop, while_loop", S+"stateful.py"), ("reserve_up_to_full", S+"base.py")],
  [("loop carry", "state and rng threaded through the loop", S+"stateful.py")], ["outputs, params, state, keys"]),
P("C09", "Parameter mappings are immutable, faithful containers",
  "The immutable mapping made from any nested dict has exactly its keys and values at every level (same lookup, iteration, length, membership, equality with an equal dict), cannot be changed through any mapping or attribute operation nor by later changes to the source, and hashes equally when equal. Every way out and back preserves contents: flattening and unflattening as a JAX tree (including replacing leaves by containers or None), pickling, copying, and conversion to a mutable dict and back, the mutable copy being independent at every level.",
  ["inputs", "histories"], "all nested mappings up to a bounded size and depth, all sequences of bounded length of conversions and operations on them",
  "tests use three or four literals; laziness (components built on demand) makes the result depend on which operations ran first",
  ["data_structures.py"],
  [("FlatMapping, to_immutable_dict, to_mutable_dict", S+"data_structures.py")],
  [("leaves/structure/mapping", "lazily built representations", S+"data_structures.py")], ["mapping and pytree protocol"]),
P("C10", "Filter, partition, map and merge obey their laws on every structure",
  "For every parameter or state structure and predicate over (module, name, value), filter keeps exactly the entries satisfying it, partition splits the entries into those satisfying it and the rest, losing and duplicating none, map applies the function to each entry exactly once under the same names, and merge gives the union with the last structure winning at each path, so merging a partition restores the original in either order. Modules without remaining entries do not appear, the inputs are unchanged and not aliased, results are immutable, and tree_size and tree_bytes are the sums over all leaves.",
  ["inputs"], "all structures with up to 3 modules and 3 names over several mapping types, all predicates on their entries, all pairs and triples for merge",
  "tests use one structure and two predicates",
  ["filtering.py", "data_structures.py", "utils.py"],
  [("filter/partition/map/merge", S+"filtering.py"), ("tree_size/tree_bytes", S+"utils.py")], (), ["returned mappings"]),
P("C11", "Creators, getters and interceptors run when, where and in the order documented",
  "Custom creators run only when a parameter (or state, if requested) is first created, custom getters on every read, and method interceptors on every module method call, each only for code inside its context and only for the kinds it was registered for. When several are active they run once each, outermost first, each seeing what the previous passed on, with a context that truthfully names the module, method, full name, original shape and dtype; one that does not call the next ends the chain, and the original method it may call directly runs no interceptors of that call. What the chain returns is what is stored (creators) or returned (getters, interceptors), and stored values are never altered by getters.",
  ["programs"], "all bounded nestings of hook contexts around all bounded programs, with every behaviour of each hook (pass, modify, short-circuit, raise)",
  "tests stack at most two pass-through hooks",
  ["base.py", "module.py"],
  [("run_creators/run_getters", S+"base.py"), ("run_interceptors", S+"module.py")],
  [("hook stacks", "active hooks", S+"base.py and module.py")], ["order and arguments of hook calls"]),
P("C12", "Observers report faithfully and do not disturb",
  "params_dict and state_dict of a module list exactly the parameters and current state of that module and of every module created inside it or whose methods it called, and method hooks, eval_summary and tabulate report every method call once, in order, with the right module, inputs, outputs and owned parameters. Observing changes nothing: names, parameters, state, rng use and results are the same with and without it, and eval_summary evaluates nothing and leaves the caller's arguments untouched.",
  ["programs"], "all bounded module programs, with queries at every point",
  "tests check one fixed network",
  ["module.py", "summarise.py"],
  [("params_or_state_dict, _submodules, hook_methods", S+"module.py"), ("eval_summary", S+"summarise.py")], (), ["reported rows and dicts"]),
P("C13", "Lifting a transformed function nests its parameters and nothing else",
  "lift registers the inner init function's parameters in the outer transform under the lifted module's name, each inner name prefixed by it, with exactly the inner values, and hands back at apply time exactly the inner structure that was stored, for any number of lifted functions, names and nesting. The inner function run on what was handed back computes what it would compute on its own, and outer parameters, names and random keys other than those consumed by the lift are unaffected.",
  ["programs"], "all bounded programs mixing own modules and up to three lifted functions (nested, same or different names, inside modules)",
  "tests lift one function once",
  ["lift.py", "transform.py", "module.py"],
  [("LiftingModule, add_hierarchy_to_params, pack_into_dict/unpack_from_dict", S+"lift.py")], (), ["outer params, inner params"]),
P("C14", "Moving averages follow their recurrence for every history",
  "For every history of updates, reads and runs, ExponentialMovingAverage and its tree version hold exactly hidden = decay*hidden + (1-decay)*value starting from zero, with average equal to hidden divided by (1 - decay^n) unless debiasing is off, n the number of updates so far (counted from the end of the warm-up) and the decay zero during the given number of warm-up updates. Calls that do not update (update_stats false) return the average they would without changing any state, and the tree version maintains this for each non-ignored parameter independently, under names derived from the parameter's name.",
  ["histories", "configurations"], "all sequences up to a bound of {update with value v, non-updating call, re-read} over all configurations",
  "tests check the first one or two updates of single configurations",
  ["moving_averages.py"],
  [("ExponentialMovingAverage, EMAParamsTree", S+"moving_averages.py")], [("counter, hidden, average", "recurrence state", S+"moving_averages.py")], ["outputs and state"]),
P("C15", "Stateful normalisers and quantisers update state exactly when told",
  "BatchNorm normalises with the statistics of the current batch over all axes but its channel axis when training (or when told to use local statistics) and with its moving averages otherwise, and updates them exactly when training; SpectralNorm (and its tree version) divides by the norm estimate of its power iteration started from the stored vector, and stores the new vector and estimate only when asked to update; vector quantisers map every input vector to its nearest code with the documented loss, and the EMA one moves its codebook only when training, to the ratio of its two moving averages. For every history of training and evaluation calls, outputs and state equal the reference recurrence, and evaluation calls never change state.",
  ["histories", "configurations"], "all histories of training/eval calls up to a bound over all small configurations and shapes",
  "tests cover one or two calls of one configuration",
  ["batch_norm.py", "spectral_norm.py", "nets/vqvae.py"],
  [("BatchNorm.__call__", S+"batch_norm.py"), ("SpectralNorm.__call__", S+"spectral_norm.py"), ("VectorQuantizerEMA", S+"nets/vqvae.py")],
  [("moving averages, u0, sigma, codebook", "normaliser state", S+"batch_norm.py, spectral_norm.py, nets/vqvae.py")], ["outputs and state"]),
P("C16", "Recurrent cores and unrolls agree step by step",
  "Every recurrent core applied for T steps by static_unroll, by dynamic_unroll (time- or batch-major) and by an explicit loop gives the same outputs, states, parameters and (unless keys were reserved) random keys for every length, and each core's step computes its documented equations. A reset core behaves, for each batch entry independently and every pattern of resets, as if that entry's state were the initial state at each reset; stacked cores pass each layer's output (and, with skip connections, the inputs) on and keep one state per layer.",
  ["inputs", "configurations"], "all cores, batch sizes (incl. unbatched), lengths up to a bound, all reset patterns, all stackings up to depth 3",
  "tests use one length and fixed reset masks",
  ["recurrent.py"],
  [("static_unroll/dynamic_unroll", S+"recurrent.py"), ("ResetCore, DeepRNN", S+"recurrent.py")], (), ["outputs, states"]),
P("C17", "Convolutions compute the documented sum for every configuration",
  "Forward, transposed, depthwise and separable convolutions of any dimensionality equal the brute-force sum over their kernel for every combination of size, kernel, stride, dilation, padding (string, function or per-axis), channel grouping, data format, mask, bias and presence of a batch dimension, with the documented parameter and output shapes. Data format and batching only permute or drop axes of the result; a configuration that cannot be honoured raises.",
  ["configurations", "inputs"], "all configurations within small bounds on every option",
  "tests check constant inputs and a sample of configurations",
  ["conv.py", "depthwise_conv.py", "pad.py"],
  [("ConvND, ConvNDTranspose", S+"conv.py"), ("DepthwiseConv2D, SeparableDepthwiseConv2D", S+"depthwise_conv.py"), ("create, full/same/causal...", S+"pad.py")], (), ["outputs, parameter shapes"]),
P("C18", "Pooling and padding match their window definition",
  "max_pool and avg_pool (and their modules) give, for every window, stride, padding and channel-axis specification and every input, the maximum or the mean over exactly the input elements in each window, padding counting neither as a value nor towards the mean. Padding functions give the documented (before, after) amounts for every kernel size and dilation, and same-padding with unit stride preserves length.",
  ["configurations", "inputs"], "all shapes, windows, strides, paddings and channel axes within small bounds",
  "tests cover a few shapes",
  ["pool.py", "pad.py"], [("max_pool/avg_pool/_infer_shape", S+"pool.py"), ("pads", S+"pad.py")], (), ["outputs"]),
P("C19", "Layer, instance and group normalisation match their definition",
  "LayerNorm, InstanceNorm and GroupNorm subtract the mean and divide by the square root of variance plus epsilon over exactly the documented axes or groups, then scale and offset per channel, for every axis choice (positive, negative, slices, several), data format, group count, rank, supplied or learned scale and offset; parameters have the documented shapes and exist only if requested. Each normalised slice is independent of all others, and an invalid configuration raises.",
  ["configurations", "inputs"], "all configurations and shapes within small bounds",
  "tests check constant inputs or single configurations",
  ["layer_norm.py", "group_norm.py", "utils.py"], [("LayerNorm/InstanceNorm", S+"layer_norm.py"), ("GroupNorm", S+"group_norm.py")], (), ["outputs, parameters"]),
P("C20", "Transformed functions compose with JAX as pure functions",
  "init and apply give the same results, structures and errors when run under jax.jit, jax.vmap, jax.grad, jax.eval_shape or inside another JAX transformation as when run directly; the wrappers that drop state or the apply rng, the test helper that transforms and runs, and running_init do only what they say. No tracer or other value of one trace is left in the library to be seen by a later call.",
  ["programs", "histories"], "all bounded programs under all compositions of up to two outer transformations, followed by direct calls",
  "tests jit single networks",
  ["transform.py", "base.py", "haiku/testing.py"], [("init_fn/apply_fn", S+"transform.py"), ("transform_and_run", "haiku/_src/test_utils.py")], (), ["results of traced and direct calls"]),
P("C21", "Initializers return what they promise for every shape and dtype",
  "Every initializer returns an array of the requested shape and dtype whose values obey its definition: constants exact, uniform values within bounds, truncated normals within two (rescaled) standard deviations, variance scaling with the scale over fan-in, fan-out or their average computed from the shape, orthogonal matrices orthogonal in the documented sense, identity exact. Random ones draw exactly one fresh key and return the documented rescaling of the JAX sample of that distribution, shape and dtype for that key, so the same key gives the same values and different keys different ones. The default weights of the layers are what their documentation says: truncated normal with standard deviation one over the square root of the fan-in (variance scaling for GRU and attention), biases zero, scales one.",
  ["configurations", "inputs"], "all shapes up to rank 4 and small sizes, dtypes, modes and distributions",
  "tests sample a few shapes",
  ["initializers.py"], [("initializers", S+"initializers.py")], (), ["returned arrays"]),
P("C22", "Elementary modules compute their definition for every shape",
  "Linear, Bias, Embed (both lookup styles), Reshape, Flatten, Sequential, BatchApply, expand_apply, to_module, MLP (and its reverse), dropout, multinomial and one_hot compute their documented function for every rank, shape, axis specification and option, with documented parameter names and shapes, and reject inputs they cannot handle. Dropout keeps each element either zero or scaled by 1/(1-rate) with rate zero the identity, and multi-head attention lets masked positions have no influence on the output.",
  ["configurations", "inputs"], "all shapes and options within small bounds; all attention masks of small size",
  "tests sample ranks and options",
  ["basic.py", "bias.py", "embed.py", "reshape.py", "attention.py", "nets/mlp.py"],
  [("Linear, Sequential, BatchApply, ...", S+"basic.py"), ("MLP", S+"nets/mlp.py"), ("MultiHeadAttention", S+"attention.py")], (), ["outputs, parameters"]),
P("C23", "ResNet and MobileNet compute their published architecture in every mode",
  "ResNet (V1 and V2, plain and bottleneck blocks, every projection pattern, block count, stride, BatchNorm and logits configuration, and the six published depths) and MobileNetV1 (with BatchNorm or biases, any stride and channel lists) have exactly the parameter and state trees their architecture implies and compute, for every history of training, evaluation and local-statistics calls, the composition of convolutions, normalisations, rectifiers, shortcuts, pooling and final linear layer that defines them, updating each BatchNorm's moving statistics exactly once per training call and never otherwise. The last normalisation of a V1 bottleneck block and the logits start at zero, and option lists of the wrong length raise.",
  ["configurations", "histories"], "all architecture options within small bounds and all mode histories up to length 3",
  "tests only run the networks and look at output shapes",
  ["nets/resnet.py", "nets/mobilenetv1.py"], [("BlockV1/BlockV2/BlockGroup/ResNet", S+"nets/resnet.py"), ("MobileNetV1", S+"nets/mobilenetv1.py")], (), ["outputs, state, parameter trees"]),
P("C24", "to_dot and abstract_to_dot draw exactly what was executed",
  "For every function, with or without Haiku modules, transformed or called inside a transform, to_dot and abstract_to_dot run it once and return a graph with exactly one node per operation executed on traced values, labelled with its name and the shape and dtype of each of its outputs and drawn in the cluster of the module method executing it (clusters nested as the calls, named after module and method, constructors included), and exactly one edge per operand, starting at the operation that computed it, at an input node (one per use, labelled with its path in the arguments) or at a node for a captured constant. Exactly the operations that compute outputs are marked, with the path of the output. Nothing else changes: exceptions propagate, the profiler name scope setting is as before, and concrete and abstract inputs give the same graph.",
  ["programs"], "all bounded programs of operations (one or several outputs, custom derivatives, jit, control flow) and nested module calls, over argument and output structures",
  "tests inspect the graph of one module and otherwise only that a string comes back",
  ["dot.py", "module.py"], [("DotTrace, to_graph, _graph_to_dot", S+"dot.py"), ("hook_methods", S+"module.py")], [("graph stack", "clusters being built", S+"dot.py")], ["the returned dot source"]),
]
if __name__ == "__main__":
  out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
  with open(out, "w") as f:
    for p in PROPS:
      assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
      f.write(json.dumps(p) + "\n")
