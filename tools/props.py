"""The properties, and what is claimed about each (tools/gen_meta.py writes properties.jsonl and MANIFEST.json from this)."""

P = []


def prop(id, title, statement, over, text, why, files, mech, observe=(), claim=None, na=None):
    """claim = (technique, level_note) or na = reason"""
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=list(observe),
                  claim=claim, na=na))


prop("C01", "Emitted operators are legal at the requested opset",
     "For every model and every target opset from 6 to 18, each standard-domain operator the converter emits is defined and not deprecated "
     "at that opset, carries only attributes that operator version defines (with the attribute types it defines, and all required ones), and has a "
     "number of inputs and outputs that version allows. Where an op has no legal rendering at that opset the conversion reports failure instead.",
     ["inputs", "configurations"], "all op instances (attributes, ranks, constness of inputs) x all opsets 6..18",
     "The unit tests run at one opset (18); handlers branch on the opset and on attribute values, and every combination off the sampled ones is "
     "unseen. get_onnx_attrs silently drops undefined attributes, so a mistake yields a valid-looking model with another meaning.",
     ["tf2onnx/onnx_opset", "tf2onnx/graph_builder.py", "tf2onnx/rewriter", "tf2onnx/optimizer", "tf2onnx/graph.py", "tf2onnx/handler.py"],
     [("opset-versioned handlers selected by tf_op.create_mapping", "tf2onnx/handler.py"),
      ("GraphBuilder hides attribute-to-input changes across opsets", "tf2onnx/graph_builder.py"),
      ("ctx.opset branches in handlers", "tf2onnx/onnx_opset"), ("make_sure guards", "tf2onnx/utils.py")],
     ["returned ModelProto", "onnx.checker"],
     claim=("abstract interpretation of every emitter per opset, checked against ONNX operator schemas",
            "Every handler is interpreted for every opset it serves; path conditions on attributes, dtypes, ranks and constness are kept, so a report "
            "names a feasible emission. Nodes whose operator name is data-dependent are counted as undecided. Trusts the operator schemas of the installed onnx package."))

prop("C02", "Conversion honours every attribute that changes what a TensorFlow op computes",
     "For every TensorFlow op with a conversion handler, every opset from 6 to 18 and every conversion path that succeeds, each attribute of the op "
     "definition that changes its result is either consulted on that path or left on an emitted operator that defines it under that name. A value the "
     "conversion cannot express makes it fail; it is never silently ignored.",
     ["inputs", "configurations"], "all TF op instances (every attribute value, rank, constness) x opsets 6..18",
     "Tests exercise default attribute values at one opset; an attribute that a handler forgets on one branch or in one opset version gives a valid "
     "model with different results, which only a test using that value on that branch would notice.",
     ["tf2onnx/onnx_opset", "tf2onnx/custom_opsets"],
     [("node.get_attr* / node.attr reads in handlers", "tf2onnx/onnx_opset"), ("make_sure rejections of unsupported attribute values", "tf2onnx/utils.py"),
      ("get_onnx_attrs keeps only attributes the emitted operator defines", "tf2onnx/graph.py")],
     ["returned ModelProto", "conversion error"],
     claim=("abstract interpretation of every handler per opset; must-read set of attributes per successful path against the TF op definitions",
            "A path-sensitive must-consult rule: it shows that the attribute reaches the conversion on every path, not that it is translated correctly. "
            "Attributes that cannot change the result (gradient hints and the like) are exempted by name with a reason."))

HANDLERS = ["tf2onnx/onnx_opset", "tf2onnx/custom_opsets", "tf2onnx/graph.py"]
AI = "abstract interpretation of every conversion handler per opset, over an abstract graph; "

prop("C04", "Converting an op keeps every output other ops may read",
     "For every TensorFlow and TFLite op and every opset from 6 to 18, a conversion that removes the original op leaves each of the op's outputs produced "
     "by some remaining operator under its old name, or has redirected its readers to a replacement. This holds on every branch of the conversion, also "
     "for secondary outputs that most models do not use.",
     ["inputs", "configurations"], "all op instances (attributes, ranks, constness, which outputs are read) x opsets 6..18",
     "Tests read the usual output of an op on the usual branch at one opset; a secondary output that one branch forgets leaves a dangling tensor only in "
     "models that read it there.",
     HANDLERS, [("remove_node followed by make_node with the old outputs, or replace_all_inputs", "tf2onnx/onnx_opset")],
     ["returned ModelProto", "conversion error"],
     claim=(AI + "must-produce rule over the outputs of the removed node on every successful path",
            "Decided on every path the interpreter keeps apart. Outputs of queue/iterator ops and gradient outputs of the cross entropy ops are exempt; a loop "
            "that may not run leaves its path undecided."))

prop("C05", "Graph edits during conversion respect the graph's preconditions",
     "Converting any op at any opset from 6 to 18 never asks about a node it has removed, removes a node twice, claims the name of a tensor some remaining "
     "node produces, gives a new node a different number of shapes or types than outputs, or uses a node where a tensor is meant. A supported op therefore "
     "never ends in an internal error, nor silently loses recorded shapes and types, because of the order of edits on some branch.",
     ["inputs", "configurations"], "all op instances x opsets 6..18 x all branches of every conversion",
     "The graph forgets shapes and types of a removed node without complaint, and raises on the other misuses only when the branch runs; tests reach the common branches at one opset.",
     HANDLERS, [("Graph.make_node, remove_node, replace_input, get_shape", "tf2onnx/graph.py")],
     ["conversion error", "value_info of the returned model"],
     claim=(AI + "typestate of nodes (live, removed) and kind/arity rules at every graph API call",
            "Node identity, liveness and output lists are tracked exactly on kept paths; values of unknown kind are not reported."))

prop("C07", "Conversion uses every operand of the op",
     "Every operand whose value an op computes its result from takes part in the converted model, on every path a conversion can take and at every opset from 6 to 18. "
     "A weight, bias, bound, default value or index operand is used (or folded into a constant or a condition), or the op is rejected; it is never silently dropped.",
     ["inputs", "programs"], "all ops and TFLite operators with a conversion (any shapes, options and constness of operands) x opsets 6..18",
     "A dropped operand shows only on the branch that drops it, with an operand value that differs from the implied one; tests often use zero biases and default bounds.",
     HANDLERS, [("operand lists handed to make_node, replace_inputs, insert_new_node_on_*", "tf2onnx/graph.py")],
     ["results of the returned model"],
     claim=(AI + "per path, the operand terms that reach operators, attributes, constants, redirected tensors and path conditions",
            "Paths blurred by joins are undecided, not reported. An operand that reaches any operator or constant counts as used, whatever is done with it. Operand counts of TFLite operators are a table."))

prop("C08", "Converting one op leaves the other ops of the graph alone",
     "Converting an op changes only that op and what is newly created for it: constants, attributes, types and operators feeding it, and the other readers "
     "of its inputs, keep their meaning at every opset from 6 to 18. A shared constant or a tensor with several readers is never rewritten, removed or redirected for the sake of one of its readers.",
     ["inputs", "programs"], "all graphs (any sharing of tensors and constants between ops) x opsets 6..18",
     "Unit tests build graphs where each tensor has one reader; damage shows only when a second op reads the same tensor or constant.",
     HANDLERS, [("insert_node_on_output, replace_all_inputs, set_tensor_value, set_attr", "tf2onnx/graph.py")],
     ["results of other ops in the returned model"],
     claim=(AI + "effect rule: targets of graph edits must belong to the converted op unless the path established a single reader",
            "Control flow ops own what they inline and are exempt. Assumes that a constant with one reader is read by the converted op."))

prop("C10", "Every instance of an op converts: created names never repeat",
     "Nodes, constants and tensors that a conversion adds to the graph get names that differ for every instance of the op. A model using the same op any "
     "number of times therefore converts exactly as a model using it once.",
     ["inputs", "programs"], "all models (any number of instances of any op) x opsets 6..18",
     "Name clashes need two instances of the op on the same branch; most tests convert one.",
     HANDLERS, [("utils.make_name", "tf2onnx/utils.py"), ("Graph.make_node/make_const names", "tf2onnx/graph.py")],
     ["conversion error"],
     claim=(AI + "names are tracked as terms; a name built from literals only is a violation",
            "A name that involves any instance-dependent value is taken to be unique; names looked up first and found free are sharing on purpose."))


prop("C06", "Ops read the tensor they are connected to, whichever output that is",
     "When an op is connected to a later output of an op with several outputs (Split, TopK, Unpack, a function call ...), its conversion reads exactly that "
     "tensor, its shape and its type. At every opset from 6 to 18 no conversion substitutes a fixed output of the producing op for the tensor the converted op reads.",
     ["inputs", "programs"], "all graphs (any connection between outputs and inputs) x opsets 6..18",
     "Tests feed ops from placeholders and constants, which have one output; the wrong tensor is then the right one.",
     HANDLERS, [("node.input[i] names the tensor, node.inputs[i] only its producer", "tf2onnx/graph.py")],
     ["results of the returned model"],
     claim=(AI + "provenance of every tensor handed to the graph or queried",
            "Tensors are terms over the converted op's inputs, so provenance is exact on kept paths; producers known to have one output are exempt."))

prop("C27", "Emitted operators are fed and give the element types they declare",
     "For every element type TensorFlow allows an op, every opset from 6 to 18 and every branch of the conversion, each emitted operator gets inputs of types it "
     "accepts at that opset, inputs bound to one type variable have one type, and the type recorded for an output is the one it has. Ops that read the result "
     "get the type TensorFlow declares for it, so the model passes the checker and loads in a runtime.",
     ["inputs", "configurations"], "all op instances (element types of inputs, index and output type attributes) x opsets 6..18 x all branches",
     "Tests convert each op mostly with float data and int32 indices; a constant, a Cast or an index of the wrong type shows only with another type on one branch.",
     HANDLERS, [("Cast nodes inserted around operators", "tf2onnx/onnx_opset"), ("np.array(..., dtype) passed to make_const", "tf2onnx/onnx_opset"),
                ("set_dtype, copy_dtype, dtypes= of make_node", "tf2onnx/graph.py")],
     ["onnx.checker full check", "type errors of a runtime loading the returned model"],
     claim=(AI + "type inference over terms in the op's type attributes, compared with the type variables of the ONNX schemas",
            "Types outside float, double, float16, int32 and int64 may be passed on to operators that do not take them (an op used with such a type is not promised to convert). "
            "Tensors whose type is not settled statically take part in no judgement; their number is in the evidence."))


prop("C23", "Code only rare models reach still runs: what it names, reads and calls exists",
     "Whatever branch a model, an opset, an option or an error condition takes the converter into, the code there can run: each variable it reads has been assigned, each "
     "function, method, field or module member it uses exists, calls fit the parameters of what they call, and messages have a place for each value. "
     "An unusual model is then converted or refused with the intended message, never with a NameError, AttributeError, TypeError or UnboundLocalError of the converter's own.",
     ["inputs", "configurations"], "every function of the package x every branch, and every conversion path at opsets 6..18",
     "Python resolves names, members and call signatures only when the line runs; lines that only rare dtypes, opsets, error branches or debug options reach are never run by the tests.",
     ["tf2onnx"], [("module, class and function definitions", "tf2onnx"), ("make_sure messages", "tf2onnx/utils.py"), ("pattern element names", "tf2onnx/graph_matcher.py")],
     ["exception raised by the conversion"],
     claim=("whole-program inclusion-based value flow with reaching definitions for locals; abstract interpretation of every conversion for unbound locals and ill-typed sums",
            "A reference is reported only if no object it may refer to has the member, or no definition reaches it; receivers of unknown origin (TensorFlow objects, protobuf fields) are not judged."))


prop("C15", "Options reach every stage that honours them, unchanged",
     "Whatever the model and the other options, each option given to from_keras, from_function, from_graph_def, from_tflite, process_tf_graph or the command line arrives "
     "unchanged at every stage that honours it: loading, op mapping, rewriters, nested and function graphs, optimizers, writing the result. "
     "large_model alone decides whether constants leave the model, and then the archive holding them is what is saved; output_path alone decides whether anything is saved.",
     ["configurations"], "all values and combinations of options x all entry points x all kinds of model (graph def, checkpoint, saved model, keras, tflite, tfjs)",
     "An option that is dropped, swapped or reset on the way yields a valid model converted otherwise than asked; tests pass few options, through few entry points, and compare results that seldom depend on them.",
     ["tf2onnx/convert.py", "tf2onnx/tfonnx.py"], [("process_tf_graph and its stages", "tf2onnx/tfonnx.py"), ("_convert_common, main, get_args", "tf2onnx/convert.py")],
     ["returned ModelProto", "files written"],
     claim=("path-wise abstract interpretation of the entry points and drivers; every call into a stage compared, as a term over the caller's parameters, with the option it must receive",
            "Stages are the functions of tfonnx.py, tf_loader.py, tf_utils.py, the optimizer package and Graph methods; what they do with an option is the business of other properties."))


prop("C16", "Types, layouts, versions and TFLite fields are translated by the standards",
     "Every table that translates element types between TensorFlow, TFLite, ONNX and numpy, opsets to IR versions, enum numbers to names, or one tensor layout to another "
     "maps each entry to its counterpart in those standards. Each field of a .tflite file is read from the slot, with the element type, default value and enum, the TFLite "
     "schema gives it.",
     ["inputs"], "all element types, opsets, enum members and fields of the schema",
     "A wrong entry or slot only shows in models that hold that type, enum member, opset or option with a value other than the default; tests use a few of each.",
     ["tf2onnx/utils.py", "tf2onnx/tf_utils.py", "tf2onnx/tflite_utils.py", "tf2onnx/constants.py", "tf2onnx/tflite"],
     [("type tables", "tf2onnx/tf_utils.py"), ("TFLite enums and dtypes", "tf2onnx/tflite_utils.py"), ("generated readers of the schema", "tf2onnx/tflite"),
      ("OPSET_TO_IR_VERSION and layout permutations", "tf2onnx/constants.py")],
     ["returned ModelProto"],
     claim=("static evaluation of every translation table and path-wise interpretation of every schema reader, compared with the standards",
            "Tables are evaluated entry by entry; a reader is compared by the slot, kind and default it reads on each path, not by its text. Trusts the schema module of the installed TensorFlow. "
            "Element types for which ONNX or the converter has no counterpart may use the stand-ins listed in the check."))

prop("C28", "The options of a TFLite operator reach its conversion, each in its place",
     "For every TFLite operator with a conversion and every path of it that succeeds, each builtin option the TFLite schema gives the operator is consulted or left on the "
     "resulting operator under a name that operator defines. Options that become attributes or constant operands of the resulting operator (strides, window sizes, "
     "dilations, axes, softmax beta, quantization vectors) keep their order and are used whole. An option the conversion cannot express makes it fail.",
     ["inputs", "configurations"], "all .tflite operators (every option value, rank, constness) x opsets 6..18",
     "TFLite tests run a handful of converted Keras models whose options mostly hold default or symmetric values (equal strides, no dilation, beta 1), so a forgotten or "
     "swapped option gives a valid model with different results that no test sees.",
     ["tf2onnx/tflite_handlers"],
     [("to_tf conversions and tfl_op handlers", "tf2onnx/tflite_handlers"), ("options put on the node", "tf2onnx/tflite_utils.py")],
     ["returned ModelProto", "conversion error"],
     claim=("abstract interpretation of every TFLite handler; options read or kept per path against the TFLite schema, and terms of translated attributes against their meaning",
            "Path-sensitive must-consult rule plus comparison of the terms that end in translated attributes. Arithmetic done with an option is not judged. Options without effect "
            "on the result, and those TFLite itself rejects, are exempted by name with a reason."))

prop("C19", "Ops keep their domain, and the model declares every domain it uses",
     "Whatever the model, an op that is re-created (function bodies inlined, branches and loop bodies cut out, nodes renamed, graph outputs tied) keeps its domain, attributes and body "
     "graphs, and whether it is still to be converted. A domain other than those of ONNX only appears when extra_opset names it, and the model imports the opset it was converted "
     "for, ai.onnx.ml and every extra opset given.",
     ["inputs", "configurations"], "all models x extra opsets x nesting of ops in function, loop and branch bodies",
     "An op that lost its domain, or whose domain is not imported, makes a model no checker or runtime accepts; the tests use custom domains in a few flat graphs.",
     ["tf2onnx/graph.py", "tf2onnx/utils.py", "tf2onnx/onnx_opset", "tf2onnx/custom_opsets"],
     [("prefix_graph, construct_graph_from_nodes, Graph.__init__, change_node_name", "tf2onnx/graph.py"), ("make_model", "tf2onnx/graph.py")],
     ["returned ModelProto", "onnx.checker"],
     claim=("value flow of the arguments of every call that re-creates a node; call-graph reachability of every constant domain from handlers of other domains; path-wise interpretation of make_model",
            "Custom handlers and rewriters of the caller are not looked at."))


prop("C11", "A failed conversion step is reported, not hidden",
     "Whenever an op handler, rewriter, sort or optimizer pass fails, the conversion says so: without continue_on_error it raises, and otherwise the failure is logged as a "
     "warning or error, as is every op that has no conversion. A failed op (also one in a loop or branch body) keeps its type and is not marked as converted, and its exception "
     "is handed on. With catch_errors a failing optimizer pass leaves the graph, or the model, as it was before that pass.",
     ["faults", "configurations"], "all conversion steps x points where they can fail x continue_on_error, catch_errors, TFLite or TensorFlow",
     "The tests convert models that convert; what happens when a step fails half way is seen by no test, and a swallowed exception leaves a model that looks converted.",
     ["tf2onnx/tfonnx.py", "tf2onnx/optimizer/__init__.py", "tf2onnx/graph.py", "tf2onnx/rewriter"],
     [("tensorflow_onnx_mapping, run_rewriters, topological_sort, process_parsed_graph", "tf2onnx/tfonnx.py"), ("optimize_graph", "tf2onnx/optimizer/__init__.py"),
      ("GraphUtil.optimize_model_proto", "tf2onnx/graph.py")],
     ["exception raised by the convert API", "log records", "returned ModelProto"],
     claim=("path-wise interpretation of the conversion drivers with a raising path at every call of a step; reporting obligations of broad except clauses",
            "Every path of the six drivers (and of helpers in their modules) on which a step raises is followed to its end. What a failed handler changed in the graph before it "
            "raised is not undone and not judged."))

prop("C12", "Converting the same model again gives the same model",
     "Two conversions of the same model with the same options, each in a process of its own, return the same ModelProto: the same nodes with the same names in the same order, and the "
     "same inputs, outputs, initializers and attributes in the same order. Nothing in the model follows the iteration order of a set, an object's address, a hash, a clock, a directory "
     "listing or a random number.",
     ["schedules", "inputs"], "all models and options x all hash seeds, memory layouts and times of day",
     "A model that differs from run to run breaks caching, signing, diffing and bug reports; one test process has one hash seed and compares results, not names or order.",
     ["tf2onnx"], [("find_output_consumers, extract_sub_graph_nodes, make_name", "tf2onnx/graph.py"), ("rewriters and optimizers that make nodes while walking collections", "tf2onnx/rewriter")],
     ["returned ModelProto"],
     claim=("whole-program value flow of collections in hash order and of values that differ between runs; every use whose effect depends on them is reported",
            "Order produced inside TensorFlow, numpy and ONNX is not looked at; sets of numbers only are taken to be ordered."))


prop("C13", "A conversion does not change how later conversions turn out",
     "Whatever was converted before in the same process, with whatever options and whether it succeeded, a conversion gives the model it gives in a fresh process, up to the numbers that make "
     "internal names unique. No module variable, class field, default argument, library member or process setting that a conversion modifies is read by the next one before it is set anew; "
     "caches hold only what follows from their keys.",
     ["history", "configurations"], "all sequences of conversions through the API in one process x options x conversions that fail part of the way",
     "Services convert many models in one process; tests start from whatever state the test before left, seldom with two different option sets for the same model.",
     ["tf2onnx"], [("tf_op registry and mappings", "tf2onnx/handler.py"), ("_FUNCTIONS, convert_variables_to_constants_large_model", "tf2onnx/tf_loader.py"), ("custom_op_handlers", "tf2onnx/tfonnx.py")],
     ["returned ModelProto of a later conversion", "exception raised by a later conversion"],
     claim=("whole-program effect analysis: all state code reachable from a conversion may modify, each classified by call-graph order of setting and reading, cache keys, and try/finally",
            "State inside TensorFlow is not looked at; the counter behind internal names may differ, debug and log settings belong to the user."))


prop("C14", "A conversion leaves the caller's objects as they were",
     "After from_keras, from_function, from_graph_def, from_tflite, process_tf_graph or a loader of tf_loader returns or raises, the objects the caller passed in are as before: the keras model with its "
     "call and output names, the concrete function with its captures, the graph def, and the lists and dicts of options. "
     "What has to be modified for a while is put back by a finally.",
     ["inputs", "fault points"], "all conversion functions x all arguments x success, and failure at every point that can raise",
     "Callers go on training, serving or converting the same model and reuse their option dicts; tests drop the model after converting it and look at the returned proto only.",
     ["tf2onnx/convert.py", "tf2onnx/tf_loader.py"], [("from_keras, _get_concrete_function, _convert_common", "tf2onnx/convert.py"), ("from_trackable", "tf2onnx/tf_loader.py"), ("Graph.__init__", "tf2onnx/graph.py")],
     ["state of the arguments after the call"],
     claim=("whole-program effect summaries of what each function leaves modified of its parameters, through calls and fields, with undoing by finally recognised per attribute",
            "Library functions are taken not to modify their arguments except through known mutating methods; custom handlers and rewriters are the caller's own."))

# ---------------------------------------------------------------- stated, not decidable here
prop("C30", "The converted model computes what the TensorFlow model computes",
     "For every model whose conversion succeeds and every input, the ONNX model gives the results TensorFlow or TFLite gives, up to the rounding of the element type.",
     ["inputs", "programs"], "all models x all inputs",
     "Tests compare a few hundred small models on random inputs.",
     HANDLERS, [("handlers, rewriters and optimizers", "tf2onnx")], ["results of the returned model"],
     na="equality of two numerical programs for all tensor values and shapes: no sound static argument in reach bounds it. Its decidable parts are separate properties "
        "(operators legal C01, attributes C02, outputs C04, operands C07, element types C27, TFLite options C28)")
prop("C31", "Optimizers and constant folding preserve what the graph computes",
     "Each optimizer pass (transpose pushing, constant folding, merging duplicates, back to back and identity removal, Q/DQ moves, upsample, loop) leaves a graph that computes the same outputs from the same inputs.",
     ["inputs", "programs"], "all graphs", "Tests optimise hand-written graphs of a few nodes.",
     ["tf2onnx/optimizer"], [("optimizer passes", "tf2onnx/optimizer")], ["results of the returned model"],
     na="equivalence of graph rewrites depends on tensor values, permutations and shapes known only at run time of the pass; the legality of the operators passes write is part of C01, "
        "iteration order and merge keys of C12")
prop("C32", "Inferred shapes and types are those tensors have at run time",
     "Every shape and element type the converter infers or records for a tensor agrees with the tensor TensorFlow computes, or is unknown.",
     ["inputs", "programs"], "all models and input shapes", "Tests check recorded shapes of few tensors; a wrong one matters only when a later step relies on it.",
     ["tf2onnx/shape_inference.py", "tf2onnx/schemas.py"], [("shape inference", "tf2onnx/shape_inference.py")], ["shapes in the returned ModelProto"],
     na="shapes are arithmetic over run-time values of operands and attributes; element types are decided for conversions (C27)")
prop("C33", "Pattern rewriters only replace subgraphs that mean what the replacement means",
     "A rewriter replaces a matched subgraph (RNN cells, loops, dropout, gelu, quantization ...) only when the subgraph computes what the replacement computes.",
     ["programs"], "all graphs a pattern matches", "Tests feed graphs that the known frontends produce; a pattern that matches too much shows with foreign graphs.",
     ["tf2onnx/rewriter"], [("graph patterns", "tf2onnx/rewriter")], ["results of the returned model"],
     na="equivalence of the matched computation to the replacement for all constants and bodies is a semantic question over tensor values that patterns answer by convention, not by checks an analysis could compare with an oracle")
prop("C34", "Quantization parameters of converted models reproduce the quantized arithmetic",
     "Quantized TFLite and fake-quantized TensorFlow models convert to Q/DQ graphs whose rounding agrees with the source runtime.",
     ["inputs", "programs"], "all quantized models and inputs", "Tests compare with tolerance on random inputs.",
     ["tf2onnx/onnx_opset/quantize.py", "tf2onnx/tflite_utils.py"], [("quantization", "tf2onnx/onnx_opset/quantize.py")], ["results of the returned model"],
     na="rounding behaviour of two runtimes over all values; that scales, zero points and the axis reach the operators whole is part of C28")
