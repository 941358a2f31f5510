"""Source of properties.jsonl and MANIFEST.json: python tools/props.py"""
import json, os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, level="proof", note=""):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, level=level, note=note))


prop("P01", "Task graph execution",
     "For every acyclic task graph and every list of targets, running it computes each target with exactly the results of the tasks it declares as arguments (under the declared names), executes every needed task exactly once and never before its dependencies, and yields exactly the requested targets with their own values. A value is kept until its last user has run and is dropped afterwards unless it is a target. A cyclic or otherwise unschedulable graph raises an error instead of running out of order.",
     ["inputs", "schedules"], "all finite graphs, argument maps, group labels, priorities and target lists, including shared, duplicated and equal-but-distinct tasks",
     "tests build four small graphs by hand; they never vary sharing, duplicate targets, equal tasks or lifetime of values",
     ["mergekit/graph.py"], [("TaskUniverse / TaskHandle", "graph.py"), ("build_schedule", "graph.py"), ("Executor._run, _move_tensors", "graph.py")])
prop("P02", "Multi-device execution gives the single-device result",
     "For every task graph and any number of devices, the multi-device executor yields exactly the targets and values the sequential executor yields: every needed task runs exactly once, after its dependencies, a task that must stay on the main device does, and every result a later stage or the caller needs is delivered before the run ends. Work is divided so that connected tasks share a device. An error in any worker is raised to the caller instead of losing results or hanging.",
     ["inputs", "schedules"], "all graphs, all numbers of devices, all interleavings of the worker threads and the result queue",
     "no test runs it (no accelerator); ordering and queue races need particular interleavings",
     ["mergekit/multigpu_executor.py"], [("MultiGPUExecutor.run / _device_worker / _update_accelerators", "multigpu_executor.py"), ("_assign_islands_to_gpus, _find_leading/trailing_tasks", "multigpu_executor.py")])
prop("P03", "Checkpoint writing is complete and consistent",
     "For every sequence of saved tensors, shard size limit, format, clone and threading option, a finished checkpoint contains every tensor exactly once with its exact values, dtype and shape; every shard stays within the size limit unless it holds a single tensor; and the index names, for each tensor, the file that holds it, with the true total size. Shard files are numbered consecutively out of their real total. Before finishing, no index or final file name claims data that is not completely written, and a failed write is reported when finishing.",
     ["inputs", "schedules", "crash_points"], "all tensor sequences, sizes, limits (including zero and smaller than one tensor), formats, thread counts, interleavings and crash points",
     "tests write one or two shards synchronously with a single configuration",
     ["mergekit/io/tensor_writer.py", "mergekit/io/tasks.py"], [("TensorWriter.save_tensor/_flush_current_shard/finalize", "io/tensor_writer.py")])
prop("P04", "Checkpoint reading returns exactly the stored tensor",
     "For every supported checkpoint layout (single or sharded, safetensors or pickled, with or without index, any storage layout, stride, offset, dtype and read order) loading a tensor by name or by one of its aliases returns exactly the stored values, dtype and shape, from the shard its index names. A name that is absent is reported as absent, never replaced by another tensor. The lazy pickle reader builds only tensors and plain containers: any other global in the file is refused before it is executed.",
     ["inputs", "histories"], "all checkpoints, all orders and repetitions of reads, all pickle streams",
     "tests read a handful of contiguous float tensors once each",
     ["mergekit/io/lazy_tensor_loader.py", "mergekit/io/lazy_unpickle.py", "mergekit/io/loader.py"], [("ShardedTensorIndex.from_disk, LazyTensorLoader.get_tensor", "io/lazy_tensor_loader.py"), ("TorchArchiveReader, LazyTorchUnpickler, ACCEPTABLE_TYPES", "io/lazy_unpickle.py")])
prop("P05", "Merge parameter resolution",
     "The value of a parameter for a tensor is the first configured value that applies, in the order: the input model's own parameters in the current slice, the slice, the module, then the whole configuration; a conditional value applies only if its filter occurs in the tensor name (or it has no filter or '*'), the first applicable one wins, and a list of values is interpolated linearly over the layer position from its first to its last element. A configured zero or false counts as configured. If nothing applies the default is used, and a required parameter without a value is an error.",
     ["configurations", "inputs"], "all nestings of settings, filters, gradients, tensor names and positions t in [0,1]",
     "tests use a few constant weights; precedence with filters, zeros and gradients is untested",
     ["mergekit/config.py"], [("evaluate_setting, ConfigReader.parameter", "config.py")])
prop("P06", "A merge writes the model the configuration describes",
     "For every accepted configuration (models, slices or modules; any layer ranges and methods) the written checkpoint contains exactly the tensors of the output architecture, each merged with the method in force from the tensors of exactly the listed source models at the corresponding layer, with the parameters resolved for that tensor, layer position and model, and stored in the requested dtype; the written model configuration has the matching number of layers. Weights outside the layers come from the first or last slice's sources. A configuration whose sources disagree in layer count or structure is refused.",
     ["configurations", "inputs"], "all slice layouts, source counts, layer offsets, methods, parameters, dtypes and output options",
     "tests check that a merge finishes and a few values of two-model merges",
     ["mergekit/plan.py", "mergekit/merge.py", "mergekit/config.py", "mergekit/io/tasks.py"], [("MergePlanner.normalize_config/plan_tensor/plan_layer/plan_slice/plan_module", "plan.py"), ("_model_out_config, run_merge", "merge.py")])
prop("P07", "Linear, passthrough and task-arithmetic merges compute their formula",
     "Linear merges give the weighted sum of the inputs, divided by the sum of weights when normalising; passthrough copies (optionally scaled) its single input; the task-vector family gives base + lambda * combination of the (sparsified) differences to the base, with weights normalised when asked and, with sign consensus, only the contributions that agree with the elected sign. The result does not depend on which other outputs are computed from the same inputs, and no input tensor is modified.",
     ["inputs"], "all numbers of models, weights, densities, lambdas, tensor shapes and values, with and without base, normalisation, sign consensus and rescaling",
     "tests compare a single weight pattern or only that a merge runs",
     ["mergekit/merge_methods/linear.py", "mergekit/merge_methods/passthrough.py", "mergekit/merge_methods/generalized_task_arithmetic.py"], [("LinearMergeTask.execute", "linear.py"), ("GTATask.execute, get_task_vectors, get_mask", "generalized_task_arithmetic.py")])
prop("P08", "Sparsification keeps the requested share of the right elements",
     "For every tensor and density, magnitude pruning keeps exactly the int(density * size) elements of largest magnitude (after discarding the gamma share of largest ones for outlier pruning), random pruning keeps each element with probability equal to the density and della-style pruning with a rank-dependent probability centred on it and spread by epsilon; every kept element is unchanged or rescaled as requested so that the selected norm is preserved, every other element is exactly zero. Density one returns the input unchanged, and the input is never modified.",
     ["inputs"], "all shapes, dtypes, values (zeros, ties, single elements, infinitesimals), densities, gammas, epsilons and rescale norms",
     "tests use one or two densities on one random matrix",
     ["mergekit/sparsify.py"], [("magnitude, magnitude_outliers, bernoulli, della_magprune, rescaled_masked_tensor, sparsify", "sparsify.py")])
prop("P09", "Geometric and selection merge methods compute their formula",
     "Slerp and nuslerp give the point at fraction t on the arc between their inputs (or their task vectors, row- or column-wise when asked), linear interpolation when nearly parallel; nearswap moves each element towards the other model by at most t; model stock, multislerp, karcher, SCE, RAM and arcee fusion give the result of their published definition for any number of inputs. The result has the shape and dtype of the inputs, equals the input when all inputs are equal (where the definition says so), and no input tensor is modified.",
     ["inputs"], "all tensor shapes and values including parallel, antiparallel and zero tensors, all weights and model counts",
     "tests only check that a merge with default settings finishes",
     ["mergekit/merge_methods/slerp.py", "mergekit/merge_methods/nuslerp.py", "mergekit/merge_methods/nearswap.py", "mergekit/merge_methods/model_stock.py", "mergekit/merge_methods/multislerp.py", "mergekit/merge_methods/karcher.py", "mergekit/merge_methods/sce.py", "mergekit/merge_methods/ram.py", "mergekit/merge_methods/arcee_fusion.py"], [("slerp, lerp", "slerp.py"), ("nuslerp", "nuslerp.py"), ("sce_merge, sce_mask, sce_weight", "sce.py"), ("karcher_merge_tensors", "karcher.py")])
prop("P10", "Merged vocabulary and embeddings stay aligned",
     "The output vocabulary is exactly the requested one (base, a given model, or the union of the tokens every model really has, plus the configured tokens) with the base tokens at their ids and ids 0..n-1 used once; every row of every merged embedding belongs to the token with that id: the model's own row where it has the token (unless the configuration forces another), otherwise the configured source, the only model that has it, the base model's row, or the average. Rows beyond the vocabulary exist only to fill the requested multiple, and the configured vocabulary size equals the number of rows.",
     ["inputs", "configurations"], "all vocabularies, id assignments, added tokens, embedding matrices larger or smaller than the tokenizer, token settings and paddings",
     "tests use vocabularies that are prefixes of each other in the same order",
     ["mergekit/tokenizer/build.py", "mergekit/tokenizer/embed.py", "mergekit/merge.py"], [("build_tokenizer, build_union_tokenizer, get_stripped_tokenizer", "tokenizer/build.py"), ("PermutedEmbeddings.execute/assign_embedding_sources", "tokenizer/embed.py"), ("_update_config_vocab", "merge.py")])
prop("P11", "References and configurations survive being written and read",
     "Every model reference and merge configuration, written out as text and read back, denotes the same models (path, revision, adapter, overridden architecture), methods, slices and parameters; different references have different cache identities and text. Ambiguous references and configurations that specify their output in contradictory ways are refused. Size, dtype and nested-configuration-key notations denote the documented value.",
     ["inputs", "configurations"], "all paths, revisions, adapters, nested configurations, sizes and dtype names",
     "tests parse five strings",
     ["mergekit/common.py", "mergekit/config.py"], [("ModelReference.validate_string/serialize, ModelPath", "common.py"), ("MergeConfiguration.to_yaml, validate_inputs", "config.py"), ("parse_kmb, dtype_from_name, get/set_config_value", "common.py")])
prop("P12", "Tensors of different sizes are never silently mixed",
     "When embedding-like inputs of a merge differ in size, all of them are reduced to the largest common leading submatrix and exactly that is merged; inputs that already agree are untouched. For every other weight, inputs of different shapes make the merge fail rather than produce a truncated or broadcast tensor. The task-vector methods instead reduce the other models' embeddings to the base model's size, and leave a model whose tensor still differs from the base's out of that tensor's merge.",
     ["inputs"], "all merge methods, model counts and combinations of shapes and ranks",
     "tests merge models of equal size only",
     ["mergekit/merge_methods/rectify_embed.py", "mergekit/merge_methods/"], [("rectify_embed_sizes", "rectify_embed.py"), ("shape checks of the merge tasks", "merge_methods/*.py")])
prop("P13", "A mixture-of-experts model holds its experts and routers",
     "For every accepted configuration and output architecture, expert number k of every layer holds exactly the (optionally noised and residual-scaled) MLP weights of the k-th configured model, the k-th router row is the gate vector computed from the k-th expert's prompts, shared experts likewise, and every other weight is the base model's. The written configuration states the same number of experts and experts per token, and everything is in the requested dtype. Configurations that cannot work are refused.",
     ["inputs", "configurations"], "all expert lists (repeated models, shared experts), layer counts, output architectures, gate modes and dtypes",
     "no test covers it",
     ["mergekit/moe/", "mergekit/scripts/moe.py"], [("write_model of the output architectures", "moe/*.py"), ("get_gate_params", "moe/router.py"), ("build", "scripts/moe.py")])
prop("P14", "Interdependent merges run in order and resume safely",
     "For every set of recipes, each recipe runs with every reference to another recipe's name replaced by that recipe's output and everything else untouched, only after all recipes it uses have completed. Rerunning after an interruption at any point skips only completed merges and ends with the same outputs as an uninterrupted run. Cyclic, duplicate or ambiguous sets are refused before any merge runs.",
     ["configurations", "crash_points", "histories"], "all dependency graphs, document orders, reference notations and interruption points",
     "no test covers it",
     ["mergekit/scripts/multimerge.py", "mergekit/merge.py"], [("load_config, patched_config, make_tasks, MergeModelTask.execute", "scripts/multimerge.py")])
prop("P15", "Tensors are fetched from and stored under the right names",
     "Loading a weight returns the tensor stored under its own name, else under the first alias, else under the first tied name that exists, converted to the requested dtype; a missing optional weight is skipped and a missing required one is an error. Gathering pairs each model with its own tensor in the given order; saving writes each computed tensor under its output name in the output dtype, skips absent optional ones, and the checkpoint is closed only after all of them.",
     ["inputs", "schedules"], "all checkpoints, alias and tied-name lists, optional flags, dtypes and numbers of models",
     "tests touch the default path of plain names only",
     ["mergekit/io/tasks.py"], [("LoadTensor, GatherTensors, SaveTensor, FinalizeModel, ReturnTensor", "io/tasks.py")])
prop("P16", "Decorated merge methods get aligned arguments",
     "A merge method written as a decorated function receives its tensors in the order of the input models, with each per-model parameter list in that same order, the base tensor separated or included as its signature asks, global parameters by name with their declared defaults and types, and absent models left out of tensors and parameters alike. A signature that cannot be satisfied is refused when it is declared.",
     ["programs", "inputs"], "all supported signatures, parameter values, model orders and subsets of present models",
     "tests use the built-in methods with equal parameters, which hides misalignment",
     ["mergekit/merge_methods/easy_define.py", "mergekit/merge_methods/base.py"], [("merge_method, _merge_method_task execute", "easy_define.py"), ("TensorDictWrapper", "base.py")])
prop("P17", "Architecture definitions describe the real models",
     "For every supported architecture and model configuration, the weights listed are exactly the parameters of the model the configuration describes (up to optional and tied ones), each layer's weights are that layer's, different layers never share a name, and no weight is listed twice. Expert weights that are stored separately are stacked in expert order when the model stores them together. An architecture inferred from checkpoints covers every tensor common to them.",
     ["configurations", "inputs"], "all bundled definitions, layer counts, template values and checkpoint key sets",
     "tests convert two checkpoints; no test compares the definitions with real models",
     ["mergekit/architecture/", "mergekit/_data/architectures/"], [("JsonModuleArchitecture, _template_substitution", "architecture/json_definitions.py"), ("infer_architecture_info", "architecture/auto.py"), ("convert_checkpoint_tensors", "architecture/conversion.py")])
prop("P18", "The adapter merge cache never returns a wrong or partial model",
     "Resolving a model with an adapter yields base + adapter for exactly that base, adapter and requested dtype, whatever was resolved before into the same cache. A merge interrupted at any point or failing with an error is never taken for a complete one later. A model without an adapter resolves to itself.",
     ["histories", "crash_points"], "all sequences of requests against one cache and all interruption points",
     "no test covers it",
     ["mergekit/common.py"], [("ModelReference.merged", "common.py"), ("ModelPath._unique_id", "common.py")])

if __name__ == "__main__":
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(dict(
                id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]),
                why_tests_cant=p["why"], anchors=dict(files=p["files"], mechanism=[dict(name=a, where="mergekit/" + b if "/" in b or b in ("graph.py", "plan.py", "merge.py", "config.py", "common.py", "sparsify.py", "multigpu_executor.py") else "mergekit/merge_methods/" + b) for a, b in p["mech"]], hook_needed=None))) + "\n")
    notes = {}
    np = os.path.join(HERE, "tools", "notes.json")
    if os.path.exists(np):
        notes = json.load(open(np))
    man = dict(version=1, setup_cmd="bash setup.sh", checks=[dict(
        property=p["id"], quick_cmd=f"bash check.sh {p['id']}", thorough_cmd=f"bash check.sh {p['id']} --tier thorough",
        technique=notes.get(p["id"], {}).get("technique", "contracts on the real functions discharged by z3/cvc5 (pyvc); bounded run-time contract checks where out of reach"),
        level=notes.get(p["id"], {}).get("level", "exploration"),
        level_note=notes.get(p["id"], {}).get("note", "bounded run-time evaluation of the contracts on seeded inputs; proofs in progress")) for p in P], not_applicable=[])
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
