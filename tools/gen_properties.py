"""Writes properties.jsonl (one place to edit the property texts)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
            "observe_at": observe, "hook_needed": None,
        },
    })


S = "src/cwl_utils/"
prop("C01", "Interpolation delimits, escapes and joins expressions exactly",
     "Interpolating a string replaces exactly its embedded $(...) and ${...} expressions, each delimited by balanced brackets with quoted strings skipped, and keeps all other text apart from the backslash escapes of the document's CWL version. A string that is one expression yields that expression's value unchanged; otherwise string values are inserted as they are and all other values as JSON. A string with an unterminated expression is rejected, never partially evaluated.",
     ["inputs"], "every string, every escape rule, every value of the embedded expressions",
     "The tests interpolate a dozen fixed strings; delimiting and escaping interact over every arrangement of brackets, quotes, dollars and backslashes.",
     [S + "expression.py"], [("character scanner with a state stack", S + "expression.py:scanner"), ("segment joining and escape rules", S + "expression.py:interpolate"), ("escape rule chosen by version", S + "expression.py:do_eval")],
     ["return value or error of interpolate / do_eval, and the fragments handed to the JavaScript engine"])
prop("C02", "Parameter references mean the same with and without JavaScript",
     "A parameter reference that resolves in the evaluation context yields exactly the value that the same property path has in JavaScript, whether or not JavaScript is enabled. A reference that does not resolve (missing key, index out of range, indexing a scalar, unknown root) without JavaScript is reported as an expression error, never as a value or an internal error, and with JavaScript enabled it is handed over to the JavaScript engine unchanged.",
     ["inputs", "configurations"], "every parameter reference over every context document, with and without InlineJavascriptRequirement, for plain and awaitable engines",
     "Tests look at a few references; agreement with JavaScript has to hold for every path shape (quoting styles, list indexes, length, nulls, File and Directory fields).",
     [S + "expression.py", S + "sandboxjs.py"], [("reference grammar", S + "sandboxjs.py:param_re/segment_re"), ("path walk", S + "sandboxjs.py:NodeJSEngine.regex_eval"), ("fallback to JavaScript", S + "expression.py:evaluator")],
     ["do_eval result and exception type; JavaScript engine calls"])
prop("C03", "Expression evaluation sees the right context and leaves it intact",
     "Evaluation exposes inputs, self and runtime (with outdir and tmpdir) to expressions with every byte string at any depth decoded to text, and changes nothing else in the caller's objects. JavaScript is enabled exactly when an InlineJavascriptRequirement is among the requirements, and the expression library of the last one in the list is the one in force. Values that contain no expression come back untouched and every evaluation failure surfaces as a workflow error.",
     ["inputs", "configurations"], "every context document, every requirement list, every kind of value passed as expression",
     "Tests use flat contexts and at most one requirement; nesting, byte strings in lists and requirement precedence are not sampled.",
     [S + "expression.py", S + "utils.py"], [("context preparation", S + "expression.py:do_eval"), ("library header", S + "expression.py:jshead"), ("bytes to text", S + "utils.py:bytes2str_in_dicts")],
     ["do_eval result, engine input, caller's objects after the call"])
prop("C04", "Every JavaScript evaluation gets its own complete answer",
     "For every history of evaluations (successes, exceptions, syntax errors, timeouts, engine crashes) and however the operating system chunks or delays the engine's output, each evaluation returns the value of its own script or an error about that script, never data of another evaluation, a truncated value or an internal error. No evaluation can influence a later one: a timed-out, crashed or misbehaving script only affects its own result. An evaluation that exceeds its time limit is stopped and reported as such.",
     ["histories", "schedules", "fault_sequences"], "all evaluation histories, chunkings of the engine's output streams, process death and kill-latency points",
     "Tests run single evaluations whose output arrives in one read; torn reads, leftovers and kill races need specific schedules.",
     [S + "sandboxjs.py", S + "cwlNodeEngine.js", S + "cwlNodeEngineWithContext.js", S + "cwlNodeEngineJSConsole.js"],
     [("request/response protocol with end marker", S + "sandboxjs.py:NodeJSEngine.exec_js_process"), ("fresh context per script", S + "cwlNodeEngine.js"), ("process reuse per thread", S + "sandboxjs.py:NodeJSEngine.localdata")],
     ["return values and exceptions of NodeJSEngine.eval / exec_js_process"],
     [("localdata.procs", "live engine processes of this thread", S + "sandboxjs.py:NodeJSEngine.localdata")])
prop("C05", "The JavaScript engine is found, version-checked and started correctly",
     "The engine process is started from the first candidate command (nodejs, then node) that works; one older than the minimum version is not used, and when no local engine is usable the configured container engine is used instead, pulling the node image only if it is absent or a pull is forced. If neither is available a JavaScript error says so.",
     ["configurations", "fault_sequences"], "every combination of answers of nodejs, node and the container engine, for each container engine kind",
     "Tests run with the node installed on the host; the other environments are only mocked in a few single cases.",
     [S + "sandboxjs.py"], [("candidate probing and fallback", S + "sandboxjs.py:NodeJSEngine.new_js_proc"), ("version threshold", S + "sandboxjs.py:NodeJSEngine.check_js_threshold_version")],
     ["the command lines executed and the resulting process or error"])
prop("C06", "Type compatibility of links follows the CWL rules",
     "Linking a source type to a sink type is judged pass when every alternative of the source is acceptable to the sink, warning when only some non-null alternative is, and exception otherwise, structurally through arrays, unions and records and with Any accepting everything. A merge_nested or merge_flattened link is judged on the merged array type, a link with valueFrom always passes and an unknown merge method is rejected.",
     ["inputs"], "every pair of type terms (primitives, unions, arrays, records, enums, Any) and every merge method",
     "Tests check some twenty pairs; strictness has to hold at every nesting position.",
     [S + "parser/utils.py"], [("assignability", S + "parser/utils.py:can_assign_src_to_sink/_compare_records"), ("verdict", S + "parser/utils.py:check_types"), ("flattening", S + "parser/utils.py:merge_flatten_type")],
     ["result of check_types / can_assign_src_to_sink / merge_flatten_type"])
prop("C07", "The static checker accepts exactly the well-typed workflows",
     "Static checking of a workflow rejects it exactly when some link (step input or workflow output) has incompatible types, taking scatter, linkMerge, pickValue, conditional and looping steps into account, names a source that does not exist, or lists a step input of a required tool parameter without source, default or valueFrom. Every incompatible link is named in the error, and well-typed workflows are accepted for every supported CWL version.",
     ["programs", "configurations"], "every small workflow: link shape x types x scatter x merge x pickValue x conditional x CWL version",
     "Tests load a fixed set of workflow files; the verdict has to be right for every combination of the features.",
     [S + "parser/utils.py", S + "parser/cwl_v1_0_utils.py", S + "parser/cwl_v1_1_utils.py", S + "parser/cwl_v1_2_utils.py"],
     [("link collection", S + "parser/utils.py:static_checker"), ("per-version link check", S + "parser/cwl_v1_2_utils.py:check_all_types")],
     ["exception raised by static_checker and the sources and sinks it names"])
prop("C08", "The type of a source is its declared type lifted by scatter and merge",
     "The type reported for one or several sources of a workflow or step is the declared type of the referenced parameter, wrapped in one array per scatter level of the producing step (one per scattered input for nested cross products), then merged according to linkMerge and reduced according to pickValue. For several sources all distinct types are represented, and an unknown source is an error.",
     ["programs"], "every combination of producing parameter, scatter, scatter method, number of sources, merge and pick method, and CWL version",
     "Tests check about forty named combinations on two workflow files.",
     [S + "parser/utils.py", S + "parser/cwl_v1_0_utils.py", S + "parser/cwl_v1_1_utils.py", S + "parser/cwl_v1_2_utils.py"],
     [("lookup", S + "parser/utils.py:param_for_source_id"), ("lifting", S + "parser/cwl_v1_2_utils.py:type_for_source/type_for_step_input/type_for_step_output")],
     ["result of type_for_source, type_for_step_input and type_for_step_output"])
prop("C09", "File format checking is subclass reachability in the ontology",
     "A file's format satisfies a required format exactly when the required one is reachable from it through subclass links and equivalences (in either direction) of the ontology, or is identical; cycles never prevent an answer. A list of files is accepted exactly when every non-empty file has a format satisfying at least one of the allowed formats.",
     ["inputs"], "every small ontology graph, format pair, file list and list of allowed formats",
     "Tests use one ontology and three lookups; reachability must hold on cyclic and branching graphs, and for every file of a list.",
     [S + "file_formats.py"], [("graph search", S + "file_formats.py:formatSubclassOf"), ("per-file check", S + "file_formats.py:check_format")],
     ["formatSubclassOf result, check_format exception"])
prop("C10", "Loading and saving a document preserves it",
     "Saving a loaded CWL document and loading it again gives the same document: every field of every construct of the supported CWL versions survives with its value, identifiers and references stay resolvable, and a second round trip changes nothing. Saving with relative or absolute references denotes the same objects.",
     ["programs", "configurations"], "every schema construct and field, each value form, for v1.0, v1.1 and v1.2, and every save option",
     "The conformance-style tests round-trip some documents; most constructs, fields and value forms never appear in them.",
     [S + "parser/__init__.py", S + "parser/cwl_v1_0.py", S + "parser/cwl_v1_1.py", S + "parser/cwl_v1_2.py"],
     [("fromDoc/save of each generated class", S + "parser/cwl_v1_2.py"), ("save dispatch", S + "parser/__init__.py:save")],
     ["the saved document, and the object tree after reloading it"])
prop("C11", "The parser accepts exactly the valid forms and resolves the shorthands",
     "A document that is valid for its declared CWL version is loaded, with every shorthand (map form of identified lists, type suffixes ? and [], secondary file patterns) denoting the same object as its long form. A document with an unknown field, a missing required field, a value of the wrong type or an unknown class is rejected with a validation error.",
     ["programs", "configurations"], "every construct x {each single-field deletion, wrong-typed value, unknown field, shorthand versus long form} for v1.0, v1.1 and v1.2",
     "Tests hold a handful of invalid documents; the rejection rules must hold for each field of each construct.",
     [S + "parser/cwl_v1_0.py", S + "parser/cwl_v1_1.py", S + "parser/cwl_v1_2.py"],
     [("generated loaders", S + "parser/cwl_v1_2.py"), ("type and secondaryFiles shorthand", S + "parser/cwl_v1_2.py:_TypeDSLLoader/_SecondaryDSLLoader")],
     ["loaded object or ValidationException"])
prop("C12", "Every way of loading a document gives the same, right process",
     "Loading from a path, a URI, a YAML string or parsed YAML gives equivalent objects for the declared version, and unsupported or absent versions are rejected. In a multi-process document the process asked for (by fragment or id, by default main) is loaded with the document's version, loading everything returns all processes in order, and an absent target is reported.",
     ["inputs", "configurations"], "every entry point x document shape x id selection x version",
     "Tests load existing files through one or two entry points each.",
     [S + "parser/__init__.py"], [("entry points", S + "parser/__init__.py:load_document*"), ("graph selection", S + "parser/__init__.py:_get_id_from_graph"), ("version", S + "parser/__init__.py:cwl_version")],
     ["the loaded objects or error"])
prop("C13", "Input objects load without loss",
     "Loading an input object yields the same values as the document, with File and Directory literals (at any depth, with secondary files and listings) turned into objects carrying all their fields and with locations resolved against the base; all entry points and versions agree, and an unsupported version is an error.",
     ["inputs", "configurations"], "every small nesting of values, Files and Directories, for each entry point and version",
     "Tests load three input files.",
     [S + "parser/utils.py", S + "parser/cwl_v1_0_utils.py", S + "parser/cwl_v1_1_utils.py", S + "parser/cwl_v1_2_utils.py"],
     [("entry points", S + "parser/utils.py:load_inputfile*"), ("loader", S + "parser/cwl_v1_2_utils.py:_inputfile_load")],
     ["loaded values"])
prop("C14", "Stream shortcuts become equivalent explicit files",
     "Expanding the stdin, stdout and stderr shortcuts of a tool turns each shortcut output into a File that globs the stream's file name (the declared one, else one generated and recorded on the tool) and a stdin input into a File whose path is redirected to standard input; two different streams or tools never share a generated name by accident, other parameters are untouched, and illegal combinations are rejected. Expanding twice changes nothing more.",
     ["programs", "configurations"], "every combination of stream declarations, shortcut parameters and bindings for each version",
     "Tests expand a few tools with one stream each.",
     [S + "parser/cwl_v1_0_utils.py", S + "parser/cwl_v1_1_utils.py", S + "parser/cwl_v1_2_utils.py", S + "parser/utils.py"],
     [("expansion", S + "parser/cwl_v1_2_utils.py:convert_stdstreams_to_files")],
     ["the tool after expansion or the ValidationException"])
prop("C15", "File content reading respects the 64 KiB limit",
     "Reading file contents for an expression returns the complete content for files of at most 64 KiB; for larger files it returns exactly the first 64 KiB under v1.0 and v1.1 and is an error under v1.2, and text is the UTF-8 decoding of those bytes, without a character that the limit cuts off.",
     ["inputs"], "every file size around the limit and every byte pattern at the boundary, per version",
     "Tests probe two sizes of ASCII text.",
     [S + "parser/cwl_v1_0_utils.py", S + "parser/cwl_v1_1_utils.py", S + "parser/cwl_v1_2_utils.py"],
     [("limited read", S + "parser/cwl_v1_2_utils.py:content_limit_respected_read_bytes")],
     ["returned bytes or text, or WorkflowException"])
prop("C16", "Packing yields a self-contained document with the same meaning",
     "A packed document contains no reference to another file: every imported fragment and every linked step process, at any depth and from any directory, is embedded in place, resolved relative to the file that refers to it. Apart from the embedding, list normalisation and any added feature requirement, everything the original says is kept, the declared version is the highest one of the embedded processes, and the result is a valid document that loads to an equivalent process.",
     ["programs", "configurations"], "every small tree of documents over directories, import sites, list/map forms and versions",
     "Tests pack five documents with fixed layouts.",
     [S + "pack.py", S + "pack_cli.py", S + "utils.py", S + "schemadef.py"],
     [("recursion", S + "pack.py:pack_process/resolve_steps/resolve_imports/resolve_linked_processes"), ("link resolution", S + "utils.py:resolved_path/load_linked_file"), ("normalisation", S + "pack.py:listify_everything/normalize_sources")],
     ["the packed document"])
prop("C17", "Packing inlines user types faithfully, whatever was packed before",
     "Each reference to a user-defined type is replaced by a definition structurally equal to the one named, resolved through nested references and files, and an undefined name is an error. Type names within a packed document stay unique, and the result does not depend on documents packed earlier in the same process except for the uniquifying suffix of names.",
     ["programs", "histories"], "every small set of type definitions and references, and every history of pack calls",
     "Tests pack each document once per process with little type sharing.",
     [S + "schemadef.py", S + "pack.py"], [("type table", S + "schemadef.py:build_user_defined_type_dict"), ("inlining", S + "schemadef.py:inline_types"), ("name uniqueness", S + "schemadef.py:_inline_type_names")],
     ["types of the packed document's parameters"],
     [("_inline_type_names", "names already used in this process", S + "schemadef.py"), ("_inline_type_name_uniq_id", "suffix counter", S + "schemadef.py")])
prop("C18", "Splitting a packed document preserves every process",
     "Splitting a packed multi-process document writes one file per process which, loaded from its main file, denotes the same workflow: same inputs, outputs, types, steps, links and requirements, with references between processes turned into references between files. The result is the same for JSON and YAML output and when the split is repeated into the same folder.",
     ["programs", "histories", "configurations"], "every small packed graph (process ids, links, scatter, formats, user types), output options and repeated runs",
     "Tests split four documents and check that no error occurs.",
     [S + "graph_split.py"], [("reference rewriting", S + "graph_split.py:rewrite"), ("type extraction", S + "graph_split.py:rewrite_schemadef/rewrite_types"), ("writing", S + "graph_split.py:graph_split")],
     ["the files written, and the documents loaded from them"])
prop("C19", "Container requirements are all found and correctly named",
     "Listing the container requirements of a document yields every one in its requirements and hints, in its steps and in all nested or linked processes, each once per occurrence and in document order, with images of processes that have no tag or digest defaulted to latest. The command line tool pulls exactly those images.",
     ["programs"], "every small tree of workflows and tools with requirements at every position",
     "Tests extract from five documents.",
     [S + "docker_extract.py"], [("traversal", S + "docker_extract.py:traverse/traverse_workflow"), ("tag default", S + "docker_extract.py:extract_docker_requirements")],
     ["the sequence of requirements and the pull commands executed"])
prop("C20", "Image saving runs the right commands for every cache state",
     "Saving an image issues the pull (and, for tar archives, save) command for that image and target file, uses an existing Singularity image file unless a fresh pull is forced, works whether or not the target exists, and reports a failing command as an error instead of success. Distinct tags of an image map to distinct file names, with the suffix fitting the installed container software version.",
     ["configurations", "fault_sequences"], "every combination of engine, version, target state, force option and command failure",
     "Tests run one pull per engine with the command stubbed or skipped.",
     [S + "image_puller.py", S + "singularity.py"], [("commands", S + "image_puller.py:DockerImagePuller/SingularityImagePuller.save_docker_image"), ("version parsing and cache", S + "singularity.py:get_version")],
     ["commands executed, files, exceptions"])
prop("C21", "Software requirements are all reported",
     "The citation listing prints one line per software package of every SoftwareRequirement found in the document's requirements and hints, in its steps and in all nested or linked processes, with package name, versions and identifiers, in document order and nothing else.",
     ["programs"], "every small tree of workflows and tools with requirements at every position",
     "Tests extract from two documents.",
     [S + "cite_extract.py"], [("traversal", S + "cite_extract.py:traverse/traverse_workflow")],
     ["the sequence of requirements and the printed lines"])
prop("C22", "Generated JSON Schemas accept exactly the valid input objects",
     "The JSON Schema generated for a tool or workflow accepts an input object that provides every required input with a value of the declared CWL type, and rejects one that omits a required input or gives a value of another type, for primitives, unions, optional inputs, arrays, enums, records and user-defined types at any nesting.",
     ["inputs", "programs"], "every small input type term and every value of a finite value universe",
     "Tests validate one sample input object per document.",
     [S + "inputs_schema_gen.py", S + "utils.py"], [("property generation", S + "inputs_schema_gen.py:generate_json_schema_property_from_input_parameter"), ("definitions", S + "inputs_schema_gen.py:generate_definition_from_schema"), ("assembly", S + "inputs_schema_gen.py:cwl_to_jsonschema")],
     ["verdict of a JSON Schema validator on the generated schema"])
prop("C23", "Generated JSON Schemas keep exactly the definitions in use",
     "After slimming, the schema contains precisely the definitions reachable from its properties through references, including mutually recursive ones, each unchanged, and the given schema is not modified.",
     ["inputs"], "every reference graph over a few definitions and properties",
     "Tests check one schema.",
     [S + "inputs_schema_gen.py"], [("reachability", S + "inputs_schema_gen.py:get_property_dependencies"), ("pruning", S + "inputs_schema_gen.py:slim_definitions")],
     ["slim_definitions result"])
prop("C24", "Expression refactoring leaves a valid document without expressions",
     "Refactoring turns every single-process document with JavaScript expressions in arguments, input bindings, globs, outputEval, stdout, stderr, ResourceRequirement, EnvVarRequirement, InitialWorkDirRequirement, step valueFrom, when or ExpressionTools, and workflow outputs with pickValue, into one that loads in the same CWL version, in which every link, scatter and process input refers to something that exists, identifiers are unique, feature requirements are declared, and no JavaScript expression remains outside the generated ExpressionTools (--etools) or scripts; inputs, outputs, their types and defaults, and label and doc are unchanged; everything else the document says about its processes, parameters and steps (format, secondaryFiles, streamable, other requirements and hints, metadata and extension fields) is kept, and the result loads without the source files. A document without any of these is reported as unmodified (exit code 7) and nothing is written; the original file never changes.",
     ["programs", "configurations"], "every expression site x expression form x version x refactoring option, singly and in pairs",
     "Tests refactor single example documents and mostly only check that it runs.",
     [S + "cwl_v1_0_expression_refactor.py", S + "cwl_v1_1_expression_refactor.py", S + "cwl_v1_2_expression_refactor.py", S + "expression_refactor.py"],
     [("traversal", S + "cwl_v1_2_expression_refactor.py:traverse"), ("site rewriting", S + "cwl_v1_2_expression_refactor.py:process_level_reqs/traverse_CommandLineTool/traverse_step")],
     ["the refactored document and the modified flag"])
prop("C25", "Refactored expressions compute the same values",
     "Running the refactored document gives, for every assignment of input values, the same outputs, failures and tool invocations (command line, environment, resources, staged files, stream names) as the original: each value an expression had is delivered in its place by the generated step, whether that is an ExpressionTool or a CommandLineTool, with its expression library, self, inputs and string interpolation, in tools, workflow steps, scattered and nested steps, and when the result is refactored once more.",
     ["programs", "inputs"], "every expression form and site x input values x target kind x version",
     "Tests do not execute refactored documents.",
     [S + "cwl_v1_0_expression_refactor.py", S + "cwl_v1_1_expression_refactor.py", S + "cwl_v1_2_expression_refactor.py", S + "expression_refactor.py", S + "expression.py"],
     [("expression normalisation", S + "cwl_v1_2_expression_refactor.py:get_expression"), ("tool generation", S + "cwl_v1_2_expression_refactor.py:generate_etool_from_expr/etool_to_cltool"), ("interpolation to JavaScript", S + "expression.py:interpolate")],
     ["values produced by running the generated scripts"])
prop("C26", "The refactoring and normalising commands write correct results",
     "The refactoring command, given any sequence of documents with relative or absolute paths and any options, writes each of them under its name to the output folder (an unmodified one as an exact copy if there are several) exactly as it would alone, changes no input and nothing elsewhere, continues after a document it has to refuse and then ends with an error, ends with 7 for a single unmodified document, and with an error at an unsupported version. The normalising command writes for every supported document one packed v1.2 JSON document, complete without the source and linked files, with the same interface, without JavaScript outside of generated steps unless refactoring is switched off, and which computes the same as the original.",
     ["configurations", "inputs"], "every sequence of document kinds up to a length x options x path forms x version; every expression site and form x version x options for the normaliser",
     "Tests run each command on a few documents with one option set and do not run the results.",
     [S + "expression_refactor.py", S + "normalizer.py"], [("refactor loop", S + "expression_refactor.py:refactor/run"), ("normalise loop", S + "normalizer.py:run")],
     ["exit code and files written"])
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
with open("properties.jsonl", "w") as h:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        h.write(json.dumps(p) + "\n")
