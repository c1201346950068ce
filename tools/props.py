GEN = "Generated-input search only: it can miss inputs outside the generator's domain (bounds in DESIGN.md). Trusts the harness's reference model and the YAML/JSON serializers it shares with the code. "
prop("C01", "Resolution implements the override rules exactly",
 "For every valid registry, each resolved group carries exactly its own fields and exactly the attributes it defines, references or inherits through extends. Every attribute field has the value of the nearest override on the path from the group to the attribute's definition, and the definition's value where nothing overrides it.",
 ["inputs"], "all valid definition registries, any split over files",
 "Golden tests compare a few dozen hand-written registries; combinations of extends depth, definition site, override field and file order are unbounded.",
 [R+"registry.rs", R+"attribute.rs", R+"lib.rs"], [("resolve_registry_with_dependencies: fixpoint over references and extends", R+"registry.rs"), ("attribute catalog: reference resolution and override merge", R+"attribute.rs")],
 "property-based testing against an independent reference resolver", GEN)
prop("C02", "Resolution does not depend on file layout, load order or scheduling",
 "For every set of definitions, distributing them over different files, directories, file names and orders yields the same resolved registry and the same diagnostics (source locations aside). Repeated runs and runs with different numbers of worker threads give identical results, and hidden or non-YAML files never influence the outcome.",
 ["inputs", "schedules"], "all registries, all layouts of one registry, all loader schedules",
 "Each fixture exists in one layout, and the parallel loader's order is whatever the machine produces.",
 [R+"loader.rs", R+"registry.rs", S+"registry_repo.rs"], [("parallel directory walk and sort", R+"loader.rs"), ("sorted groups and catalog", R+"registry.rs")],
 "metamorphic property-based testing (two layouts / several thread pools, same observation)", GEN + "Schedules are sampled by thread-pool size, not controlled.")
prop("C03", "A resolved schema is self-contained, canonical, and its lineage is truthful",
 "In every resolved schema all attribute references are in range, the catalog has no duplicate and no unused entry, and groups, references and catalog are in canonical order. The recorded lineage of an attribute names a group that has that attribute, lists exactly the fields overridden on the way from it as overridden, and every field not listed as overridden equals the source's value; provenance names the defining file.",
 ["inputs"], "all valid definition registries",
 "Tests compare fixed expected files; invariants linking lineage with the sources are nowhere asserted.",
 [R+"registry.rs", R+"attribute.rs", "crates/weaver_resolved_schema/src/lineage.rs"], [("catalog gc and reordering", R+"registry.rs"), ("AttributeLineage construction", "crates/weaver_resolved_schema/src/lineage.rs")],
 "property-based testing of structural invariants over resolved schemas", GEN)
prop("C04", "Every mistake in a registry is reported and names the offender",
 "Whatever mistake a registry contains (dangling or cyclic references, duplicate ids or names, missing or misplaced fields, wrong example types, unknown entities, malformed documents), loading and resolving it reports a diagnostic naming the offending item. Mistakes of error severity are never accepted silently, mistakes of warning severity never turn a registry into an error, and no mistake makes the tool panic.",
 ["inputs"], "all registries with one or more mistakes of the documented kinds",
 "Each mistake is tested in one fixture, at one place, alone.",
 [S+"group.rs", S+"attribute.rs", R+"registry.rs", R+"lib.rs"], [("GroupSpec::validate", S+"group.rs"), ("unresolved reference and duplicate checks", R+"registry.rs")],
 "mistake-planting property-based testing", GEN)
prop("C06", "A registry resolves against exactly one version of each dependency",
 "Whatever the dependency graph, resolution ends with the right outcome: an error for a cycle, for two majors of one registry or for a chain beyond the limit, otherwise success with every registry reached and a warning per upgraded dependency. The root then resolves exactly as if only the latest requested version of each registry existed, whatever the order of dependencies and whatever the resolver resolved before.",
 ["inputs", "configurations", "histories"], "all dependency graphs, all versions, manifest orders and earlier uses of one resolver",
 "Fixtures hold a few diamonds; orders, version pairs and items reached through several versions combine without bound.",
 [R+"loader.rs", R+"conflict_strategy.rs", R+"attribute.rs", R+"dependency.rs", R+"imports.rs"], [("graph loading", R+"loader.rs"), ("version choice", R+"conflict_strategy.rs"), ("upgrade of attributes", R+"attribute.rs"), ("upgrade of signals", R+"imports.rs")],
 "model-based and metamorphic property testing", GEN)
prop("C07", "A published package means the same as the definitions it was made from",
 "Packaging a resolved registry and loading the package back yields the same registry, byte-stable under re-packaging. A consumer that references, refines, associates or imports items of a dependency resolves to the same registry whether the dependency is given as definitions or as a package, and to exactly its own items plus those its import patterns match.",
 ["inputs", "configurations"], "all v2 registries, all consumers using them, both forms of dependency",
 "Fixtures pair a handful of registries with one published form each.",
 [R+"imports.rs", R+"attribute.rs", R+"registry.rs", "crates/weaver_resolved_schema/src/v2/mod.rs", S+"manifest.rs"], [("import matching and conversion", R+"imports.rs"), ("attribute lookup in published schemas", R+"attribute.rs"), ("publication manifest", S+"manifest.rs")],
 "differential and model-based property testing", GEN + "Three listed known findings are recognised by exact signature.")
prop("C08", "The v2 view of a v1 registry loses, adds and changes nothing",
 "Converting any resolved v1 registry to the v2 view yields every span, metric, event, entity and attribute exactly once, with the values derived from the source, and every signal that refines another as a refinement. Nothing else appears, all references are in range, and provenance names the defining file.",
 ["inputs"], "all valid v1 registries",
 "Tests convert a few hand-built schemas.",
 ["crates/weaver_resolved_schema/src/v2/mod.rs", F+"v2/registry.rs"], [("convert_v1_to_v2", "crates/weaver_resolved_schema/src/v2/mod.rs"), ("materialization of references", F+"v2/registry.rs")],
 "property-based testing against an independent model of the conversion", GEN)
prop("C09", "v2 definitions materialize to exactly what they declare",
 "For every v2 definition registry, each signal and public attribute group exposes exactly the attributes it references, includes through attribute groups or inherits by refinement, with per-field precedence inline reference over included group over refined signal over definition. Refinements inherit every field they leave unset, internal groups are invisible, and the resolved form reloads unchanged.",
 ["inputs"], "all valid v2 registries",
 "Fixtures contain a few refinements and groups; layering combinations are unbounded.",
 [S+"v2", R+"registry.rs", "crates/weaver_resolved_schema/src/v2", F+"v2"], [("v2 to v1 group conversion", S+"v2/mod.rs"), ("refinement inheritance", R+"registry.rs")],
 "property-based testing against an independent reference materializer", GEN)
prop("C13", "Live check reports exactly the findings the telemetry deserves",
 "For any registry and any telemetry sample tree, the findings attached to each sample are exactly those the built-in advisors and default policies define (missing, template, deprecated, unstable, type, enum, namespace, presence, unit and instrument checks), each with its documented level, context and signal. No finding is lost, duplicated, invented or attached to another sample.",
 ["inputs"], "all registries (v1 and v2 view) and all sample trees",
 "Tests feed fixed sample files against fixed registries.",
 [L+"lib.rs", L+"live_checker.rs", L+"advice.rs", L+"sample_attribute.rs", L+"sample_metric.rs", L+"sample_span.rs"], [("advisors", L+"advice"), ("index of the registry", L+"live_checker.rs"), ("LiveCheckRunner", L+"lib.rs")],
 "property-based testing against an independent findings model", GEN + "Finding messages are not compared.")
prop("C15", "Live check statistics and exit threshold equal the reported findings",
 "The statistics of a live-check report are exactly the tallies of the findings and samples of that report: entities per type, findings per level, id and message, highest level per sample, seen and unseen registry items, and coverage. The run is failed exactly when some reported finding reaches the configured fail threshold.",
 ["inputs", "histories"], "all registries and sample streams, with and without finding filters",
 "Tests check a few counters on fixed input.",
 [L+"stats.rs", L+"lib.rs"], [("LiveCheckStatistics::update and finalize", L+"stats.rs")],
 "property-based testing: recount of the report", GEN)
prop("C16", "Finding filters and level overrides do exactly what the configuration says",
 "For any configured rules, every finding gets the level of the first matching override and is then dropped exactly when a filter matches it; rules match only on the ids, levels, signal types and sample names they name. Rules never change which registry items count as seen.",
 ["inputs", "configurations"], "all rule sets, registries and sample streams",
 "Tests cover single rules on hand-made findings.",
 [L+"finding_modifier.rs", L+"lib.rs", "crates/weaver_config/src"], [("FindingModifier", L+"finding_modifier.rs")],
 "metamorphic property-based testing (rules applied to the unmodified report)", GEN)
prop("C17", "Custom live-check policies see the truth and all they report is kept",
 "For every sample checked, a custom policy is evaluated on exactly that sample with its resource, its scope and the registry attribute and group it matches, and with exactly the data configured: advice data nested by path and the preprocessor's output. Every finding any configured policy yields is reported on that sample unchanged, nothing else is; a policy, data file or preprocessor that cannot be used is an error.",
 ["inputs", "configurations"], "all registries, samples, policy trees, data trees and patterns, preprocessors",
 "Tests run two fixed policies on a handful of samples; which inputs a policy sees for every kind of sample, and how data files combine, is not asserted.",
 [L+"advice/rego_advisor.rs", "crates/weaver_checker/src/lib.rs", "crates/weaver_checker/src/finding.rs", L+"live_checker.rs"], [("RegoAdvisor: input and data", L+"advice/rego_advisor.rs"), ("Engine: policies, data files, evaluation", "crates/weaver_checker/src/lib.rs"), ("finding forms", "crates/weaver_checker/src/finding.rs")],
 "property-based testing: echo policies compared with a model of input, data and findings", GEN + "Policies use a small Rego subset.")
prop("C10", "The diff of two registries is exactly what changed",
 "For any two registries, the reported schema changes are exactly these: an item only in the head is added, one only in the baseline is removed, and one whose deprecation in the head differs from the baseline's is renamed, obsoleted or uncategorized with the target and note it declares. Unrelated edits, file layout and refinements produce no change, and a registry compared with itself has none.",
 ["inputs"], "all pairs of valid v1 and v2 registries",
 "Tests compare a few pairs of registries differing in one or two items.",
 ["crates/weaver_resolved_schema/src/lib.rs", "crates/weaver_resolved_schema/src/v2", "crates/weaver_version/src/schema_changes.rs"], [("v1 diff", "crates/weaver_resolved_schema/src/lib.rs"), ("v2 diff", "crates/weaver_resolved_schema/src/v2/mod.rs")],
 "property-based testing against a reference diff", GEN + "Order of changes is not compared; spans are not compared in v1.")
prop("C18", "Code generation writes exactly the files the configuration describes",
 "For every template directory, weaver.yaml and context, generation writes exactly the files the matching template entries call for: one per object in each mode, one or none in single mode, none when the when clause is false. Each file has the content its template yields with the right filter result, parameters and escape mode, on any number of threads; layered configurations merge as documented, mistakes are errors, and builtin formats parse back to the data.",
 ["inputs", "configurations", "schedules"], "all template trees, configurations and contexts; any thread count",
 "Golden tests render a few fixed template directories.",
 [F+"lib.rs", F+"config.rs", F+"output_processor.rs", F+"jq.rs", F+"file_loader.rs"], [("TemplateEngine::generate", F+"lib.rs"), ("WeaverConfig::override_with", F+"config.rs"), ("OutputProcessor", F+"output_processor.rs")],
 "property-based testing against a reference evaluator", GEN + "Templates use a small Jinja subset.")
prop("C19", "Comments keep the text, the frame and the line width",
 "For every description and comment format, the rendered comment contains all of the text in order with its markup rendered for the target format. Every line carries the configured header, prefix, indent and footer, trimming and trailing dots are handled as configured, and no line that can be broken exceeds the configured length.",
 ["inputs", "configurations"], "all Markdown descriptions, all comment formats",
 "Golden tests render two fixed texts in a few formats.",
 [F+"extensions/code.rs", F+"formats"], [("comment filter", F+"extensions/code.rs"), ("word wrapping", F+"formats/mod.rs"), ("markdown and html renderers", F+"formats/markdown.rs")],
 "property-based testing against a reference wrapper and text-preservation invariants", GEN + "Unsupported Markdown nodes are not generated.")
prop("C20", "Template filters and JQ helpers compute what they document",
 "For every input, the template filters and tests (case conversion, namespace and id splitting, acronyms, text and type mapping, sorting, requirement and type filters, Prometheus naming) and the semconv_* JQ functions (selection by stability, deprecation, namespace and code-generation annotations, grouping, sorting) return exactly the documented result. Inputs outside a filter's domain are errors, never wrong values.",
 ["inputs"], "all filter inputs and option combinations, v1 and v2 registries",
 "Tests try a few values per filter.",
 [F+"extensions", F+"config.rs", "defaults/jq/semconv.jq"], [("minijinja filters", F+"extensions/otel.rs"), ("case conventions", F+"config.rs"), ("semconv.jq", "defaults/jq/semconv.jq")],
 "property-based testing against independent reference functions", GEN + "Case conversion is checked on ASCII identifiers plus a few accented letters.")
prop("C11", "Schema version histories are ordered and give the newest rename in force",
 "For any history of schema versions, versions are listed in semantic-version order and the name reported for an attribute or metric at a version is the target of the newest rename of that name at or before it, in the section it is asked for, or the name itself. Extending a history with a parent adds every version and rename of the parent that the history does not define itself, and never overrides its own.",
 ["inputs", "histories"], "all version histories and pairs of histories",
 "Tests look up a few names in two fixed files.",
 ["crates/weaver_version/src/lib.rs", "crates/weaver_otel_schema/src/lib.rs"], [("version_changes_for", "crates/weaver_version/src/lib.rs"), ("Versions::extend", "crates/weaver_version/src/lib.rs")],
 "model-based property testing over generated version histories", GEN)
prop("C26", "Bearer tokens go to the URLs they are configured for, and nowhere else",
 "For any set of auth rules and any URL, the credential used is that of the rule with the longest url_prefix the URL starts with, from its token, environment variable or command, and requests to URLs matching no rule carry none. A token configured for one host is never sent to another host, also when the first redirects to it.",
 ["inputs", "configurations", "histories"], "all rule sets, request URLs and redirect chains",
 "Tests try a few fixed prefixes and one redirect.",
 ["crates/weaver_common/src/http_auth.rs", "crates/weaver_common/src/vdir.rs", "crates/weaver_config/src/auth.rs"], [("HttpAuthResolver::resolve", "crates/weaver_common/src/http_auth.rs"), ("attach_auth", "crates/weaver_common/src/vdir.rs")],
 "property-based testing against a reference matcher, and real requests to a loopback server", GEN + "GitHub URL rewriting needs github.com and is not exercised.")
prop("C27", "A registry source is read completely, and archives cannot write outside",
 "A registry path is understood as documented for every source, refspec and sub-folder, and prints back to itself. Opening an archive, local or remote, yields exactly the files of the archive or of the sub-folder asked for, and nothing an archive contains can create or change anything outside the extraction directory, which disappears with its last user. The same registry or package gives the same resolved registry from a folder, an archive or a URL.",
 ["inputs", "configurations"], "all path strings, archive contents (also hostile and truncated) and sub-folders",
 "Tests open three fixed archives with well-formed contents.",
 ["crates/weaver_common/src/vdir.rs", "crates/weaver_semconv/src/registry_repo.rs"], [("VirtualDirectoryPath parsing and unpacking", "crates/weaver_common/src/vdir.rs"), ("resolved_registry_uri", "crates/weaver_semconv/src/registry_repo.rs")],
 "property-based testing with generated archives against a model tree, containment invariants, and differential resolution", GEN + "Git sources are parsed but not fetched.")
CLI = "Runs the real binary in scratch directories; outputs and exit status are compared with the library's results on the same files. "
prop("C05", "Commands report every diagnostic, exit accordingly and write what they computed",
 "For every registry and every option combination, check, resolve, generate, stats, diff and package report exactly the diagnostics that loading, resolving and policy checking produce, in every diagnostic format. They exit with status 1 exactly when one of them is an error, never crash, and the files or text they write equal what the library computes for the same registry.",
 ["inputs", "configurations"], "all registries (valid or not, v1, v2, packaged) and all option combinations of the six commands",
 "CLI tests run a few commands on a few fixtures and mostly check the exit status.",
 ["src/main.rs", "src/weaver.rs", "src/registry/check.rs", "src/registry/resolve.rs", "src/registry/stats.rs", "src/registry/diff.rs", "src/registry/package.rs", "defaults/diagnostic_templates"], [("load_and_resolve_repo: collection of non-fatal errors", "src/weaver.rs"), ("process_diagnostics: exit status and rendering", "src/main.rs"), ("diagnostic templates", "defaults/diagnostic_templates")],
 "differential property-based testing: weaver binary against library results", GEN + CLI)
prop("C12", "Policies see exactly their stage's data and every finding is reported",
 "Every deny rule of every policy file is evaluated exactly at the stage its package names, on exactly that stage's registry data (with the baseline for comparisons), and each finding it yields is reported once with its id, level, message, context, signal and provenance. Skipping policies reports none, and a broken policy or ill-formed finding is an error, never silence.",
 ["inputs", "configurations"], "all registries, baselines and policy sets in all places policies are found",
 "Tests use a few rego files with fixed violations.",
 ["crates/weaver_checker/src/lib.rs", "crates/weaver_checker/src/finding.rs", "src/weaver.rs"], [("Engine::add_policy and stages", "crates/weaver_checker/src/lib.rs"), ("prepare_policy_engine, check_policy, check_policy_stage", "src/weaver.rs")],
 "property-based testing: generated policies against direct evaluation over the library's views", GEN + CLI)
prop("C25", "Options come from the command line, else .weaver.toml, else the default",
 "For every command and every set of option values spread over the command line, a discovered .weaver.toml or a --config file, the command behaves exactly as if each option had its effective value on the command line: the flag wins over the file, the file over the default, and only the nearest file is used. Options that exist only in the file (dependency overrides, acronyms, text maps) have the effect of the corresponding manifest or weaver.yaml setting, and a broken file is an error.",
 ["configurations", "inputs"], "all assignments of values to the options of eight commands, all placements of config files",
 "Tests set one or two options per command and check one effect.",
 ["src/registry/mod.rs", "src/main.rs", "crates/weaver_config/src", "crates/weaver_macros/src/weaver_command.rs", "src/registry/generate.rs", "src/registry/update_markdown.rs"], [("load_config: layering", "src/registry/mod.rs"), ("WeaverCommand derive", "crates/weaver_macros/src/weaver_command.rs"), ("config discovery", "crates/weaver_config/src/lib.rs")],
 "metamorphic property-based testing: configuration file against equivalent command line", GEN + CLI)
prop("C21", "update-markdown rewrites the snippets and nothing else",
 "For any Markdown tree and registry, update-markdown replaces the contents of each snippet by what its template renders for the group or query it names and leaves every other line as it was. Running it again changes nothing, a dry run writes nothing and succeeds exactly when every file is up to date, and a file with an unknown id or an unclosed snippet is reported and left alone.",
 ["inputs", "configurations"], "all Markdown files, snippet directives and registries",
 "Tests update three fixed files.",
 ["crates/weaver_semconv_gen/src/lib.rs", "crates/weaver_semconv_gen/src/parser.rs", "crates/weaver_semconv_gen/src/v1.rs", "crates/weaver_semconv_gen/src/v2.rs", "src/registry/update_markdown.rs"], [("update_markdown_contents", "crates/weaver_semconv_gen/src/lib.rs"), ("directive parser", "crates/weaver_semconv_gen/src/parser.rs"), ("update-markdown command", "src/registry/update_markdown.rs")],
 "property-based testing against a reference rewriting", GEN + CLI)
prop("C14", "Live check examines exactly the telemetry it was given",
 "Telemetry handed to live-check as OTLP over gRPC (any number of concurrent clients, with or without resource and scope), JSON or text, from a file or standard input, is checked sample by sample exactly as sent: nothing acknowledged is lost, invented, altered or attributed to another batch's resource, whatever stops the receiver. The report, in every output mode, holds these samples with their findings and statistics, the exit status follows --fail-on, and unreadable input or a port in use is an error.",
 ["inputs", "schedules", "configurations"], "all export requests, client interleavings, stop conditions, input formats and output modes",
 "Tests send a handful of fixed requests to the receiver and check single conversions.",
 ["src/registry/otlp", "src/registry/live_check.rs", L+"json_file_ingester.rs", L+"text_stdin_ingester.rs", L+"sample_attribute.rs"], [("OTLP conversion", "src/registry/otlp/conversion.rs"), ("receiver and shutdown", "src/registry/otlp/mod.rs"), ("live-check loop", "src/registry/live_check.rs")],
 "property-based testing: generated OTLP/JSON/text input to the real process against the library's result for the same samples", GEN + CLI)
prop("C22", "Search, lookup, MCP and REST answers agree with the registry",
 "For any registry, every answer of the search library, of the MCP tools and of the REST server is what the resolved registry holds: a search returns exactly the matching items of the requested type and stability with their documented scores, best first, and its pages put together are the whole list. Lookups, namespace browsing, filters, statistics and live checks give the registry's own data or say that there is none, for any number of pipelined or concurrent requests, and no request ends the server.",
 ["inputs", "histories", "schedules"], "all registries, queries, filters, pages and request sequences",
 "Tests ask a few fixed questions about one tiny registry.",
 ["crates/weaver_search/src/lib.rs", "crates/weaver_mcp/src/service.rs", "src/serve/handlers.rs", "src/serve/server.rs", "src/registry/mcp.rs"], [("SearchContext", "crates/weaver_search/src/lib.rs"), ("MCP tools", "crates/weaver_mcp/src/service.rs"), ("REST handlers", "src/serve/handlers.rs")],
 "stateful property-based testing of the library and of the real servers against a reference search", GEN + "The servers are the real binary, spoken to over stdio and loopback HTTP.")
prop("C23", "An inferred registry describes the telemetry it was inferred from",
 "Whatever telemetry is sent to `registry infer`, in any order and from any number of clients, the registry it writes is valid and defines every span, metric, event and attribute received and nothing else, each signal with the kind, instrument and unit first observed and with every attribute observed on it, and each attribute once with an observed type and up to five of its observed values as examples. The same telemetry always gives the same registry, and where an attribute has one type the order of arrival does not change what is inferred for it.",
 ["inputs", "schedules", "histories"], "all telemetry histories and arrival orders",
 "Tests feed the accumulator single samples.",
 ["crates/weaver_infer/src/lib.rs", "src/registry/infer.rs"], [("accumulation", "crates/weaver_infer/src/lib.rs"), ("infer command", "src/registry/infer.rs")],
 "property-based testing: reference inference, order metamorphism, and a round trip through live-check", GEN + CLI)
prop("C24", "Emitted telemetry is one conforming example of each signal",
 "For any registry, `registry emit` sends exactly one example of every span, metric and event the registry defines, however many there are, with the defined kind, instrument and unit and every attribute of the signal holding a value of the defined type, taken from the examples where there are some. A receiver that cannot be reached is an error.",
 ["inputs"], "all registries, including ones larger than the SDK's queues and limits",
 "Tests emit one fixed registry to standard output.",
 ["crates/weaver_emit/src", "src/registry/emit.rs"], [("signal emission", "crates/weaver_emit/src/lib.rs"), ("emit command", "src/registry/emit.rs")],
 "round-trip property-based testing: emitted to the real live-check receiver and compared with the registry", GEN + CLI)
