"""Writes /verif/properties.jsonl (one source of truth for the property texts)."""
import json, os
P = []
I = "gyp/pylib/gyp/input.py"
C = "gyp/pylib/gyp/common.py"
MK = "gyp/pylib/gyp/generator/make.py"
NJ = "gyp/pylib/gyp/generator/ninja.py"
G0 = "gyp/pylib/gyp/__init__.py"
def p(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
        "anchors": {"files": files,
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "observe_at": observe, "hook_needed": None}})

p("C01", "Settings are combined exactly as the documented merge operators say",
  "Whenever one dictionary of settings is combined into another (an included file, a command-line include, target defaults, a condition's branch), every key of the result is what the documented operators give: scalars replaced, dictionaries merged recursively, lists appended, prepended ('+'), replaced ('=') or set only if absent ('?'), with non-dash string items kept only once at their earliest place. A source of settings is never altered by being merged, so merging it into several places gives each the same result. Contradictory operators for one key and values of mismatched types are rejected.",
  ["inputs", "programs"], "all nestings of dictionaries and lists, all operator suffixes, all chains of includes / defaults / conditions feeding one or several targets",
  "No unit test touches merging at all (the input tests cover cycle finding only); the space of operator x type x nesting x number of sources is unbounded.",
  [I], [("MergeLists / MergeDicts", I), ("LoadBuildFileIncludesIntoDict", I), ("target_defaults merge in LoadTargetBuildFile", I)],
  ["fully processed target dictionaries handed to a generator (gypd output, custom -f generator)"])

p("C02", "Relative paths keep naming the same file wherever they are merged",
  "A string in a path-valued key (sources, include_dirs, inputs, outputs, libraries, destination, files, and keys ending in _dir/_dirs/_file/_files/_path/_paths), written relative to the file that defines it, still names the same file when it arrives in a target defined in another directory, through any chain of includes, command-line includes, defaults, conditions or dependent settings. Absolute paths, items starting with '-', '$', '<', '>' or '^', and values of keys that are not path-valued arrive unchanged, and a trailing slash survives. References between projects and targets resolve to the target the writer named, relative to the file that names it.",
  ["inputs", "programs", "configurations"], "all directory layouts of build files and includes, all path spellings, all key names, all invocation directories and --depth values",
  "No test exercises path rewriting across build files; correctness depends on the relation of three directories and the spelling of each path.",
  [I, C], [("MakePathRelative / IsPathSection", I), ("RelativePath, FixIfRelativePath, InvertRelativePath", C), ("ResolveTarget", C)],
  ["processed target dictionaries", "arguments received by compilers"])

p("C03", "Variable and command expansion give exactly the referenced values",
  "Every early, late and latelate reference to a variable is replaced by that variable's value as seen from the innermost enclosing scope at that phase (automatic variables, defaults with '%', command-line definitions and nested references included), joined as shell words in string context, spliced item by item in list context, and converted to an integer exactly when the text is a canonical decimal. Command and file-list expansions substitute the command's output (respectively a file holding the list), run once from the directory of the file that contains them. References to undefined variables and failing commands are errors, and text that is not a reference is untouched.",
  ["inputs", "programs"], "all variable graphs, scopes, contexts (string, list, key), nesting depths, phases and values",
  "No test runs an expansion; scoping, phase ordering and context splicing interact for unboundedly many programs.",
  [I], [("ExpandVariables, ProcessVariablesAndConditionsInDict/List", I), ("LoadVariablesFromVariablesDict, LoadAutomaticVariablesFromDict", I), ("EncodePOSIXShellList", C)],
  ["processed target dictionaries"])

p("C04", "Conditional sections contribute exactly the branch that holds",
  "For every condition list, at either phase and at any nesting, the settings of the first branch whose expression is true (or of the trailing else dictionary when none is) are merged into the enclosing dictionary in written order, and the settings of all other branches have no effect. The expression sees the values variables have at that point: early conditions before defaults are applied to targets, target conditions with the target's own type, name and toolset. Malformed conditions and expressions naming undefined variables are rejected.",
  ["inputs", "programs"], "all boolean expressions over the supported operators, all branch shapes (if, if/else, else-if chains), nestings and phases",
  "No test evaluates a condition; the combination of chains, nesting, phases and scoping is unbounded.",
  [I], [("EvalCondition, EvalSingleCondition, ProcessConditionsInDict", I)], ["processed target dictionaries"])

p("C05", "List filters keep exactly the items not excluded, in their original order",
  "For any list and its '!' and '/' filter lists, the final list contains exactly the items that the exact exclusions followed by the regular-expression include/exclude actions, applied in order, leave included, in their original relative order. Excluded items are reported in the companion '_excluded' list in order, nothing is lost or invented, and the filter keys themselves disappear. Filters reached through configurations and nested dictionaries follow the same rule, and malformed filters are rejected.",
  ["inputs"], "all base lists, exclusion lists and pattern lists at any depth of a target",
  "No test applies a filter; correctness is a function of arbitrary sequences of regular expressions over arbitrary lists.",
  [I], [("ProcessListFiltersInDict / ProcessListFiltersInList", I)], ["processed target dictionaries"])

p("C06", "Each configuration gets the target's settings plus its own, with inheritance",
  "After processing, every concrete configuration of a target holds exactly the target's non-structural settings combined with the configuration's inherited chain and its own settings under the ordinary merge rules, structural keys stay on the target, and abstract configurations are gone. No setting of one configuration leaks into another or into the bare target. A target without configurations gets exactly one default configuration, and the default configuration is the one declared or the first concrete one by name.",
  ["inputs", "configurations"], "all sets of configurations, inheritance chains (including multiple parents), abstract markers and settings placed on either level",
  "No test defines a configuration; the inheritance graph and key placement space is unbounded.",
  [I], [("SetUpConfigurations, MergeConfigWithInheritance", I), ("non_configuration_keys", I)], ["processed target dictionaries"])

p("C07", "Dependent settings reach exactly the targets they are meant for",
  "all_dependent_settings of a target reach every direct and indirect dependent, direct_dependent_settings reach direct dependents (and those reached through export_dependent_settings or through targets that pass them on), and link_settings reach exactly the linkable targets into which the target's code is linked, each contribution exactly once per dependency and in dependency order. No other target is changed by them. Exporting the settings of something that is not a dependency is rejected.",
  ["inputs", "programs"], "all acyclic target graphs over all target types, with any placement of the three kinds of settings and exports",
  "No test processes a dependency edge; the property is about paths in arbitrary graphs.",
  [I], [("DependencyGraphNode.DirectAndImportedDependencies, DeepDependencies, DependenciesForLinkSettings", I), ("DoDependentSettings", I)], ["processed target dictionaries", "compile and link command lines"])

p("C08", "Linkable targets link every library they need, static libraries carry no links",
  "Every executable, shared library or loadable module ends up depending directly on each static library it reaches without crossing another linked target, and on the shared libraries it reaches through static ones, so that its link line contains every object the program needs exactly once and in an order in which users precede what they use. Static libraries keep only hard and non-linkable (file-producing) dependencies, so no ordering that generated files rely on is lost. Libraries already absorbed by a shared library are not linked again.",
  ["inputs", "programs"], "all acyclic graphs of executables, static/shared libraries, loadable modules and none targets with hard_dependency, link_dependency and none-target forwarding",
  "Graph-shaped input; no test builds a graph with libraries.",
  [I], [("AdjustStaticLibraryDependencies", I), ("_LinkDependenciesInternal, DirectAndImportedDependencies", I)], ["processed dependency lists", "link command lines under make and ninja"])

p("C09", "Targets are ordered after their dependencies, and every cycle is rejected",
  "The order in which targets are handed to a generator contains every target exactly once and places each after all of its dependencies. A project whose targets depend on each other in a cycle, or (unless disabled) whose files do, is rejected with an error naming targets or files on the cycle; an acyclic project is never rejected, and processing always terminates.",
  ["inputs", "programs"], "all directed target graphs spread over any number of files, with self-loops, cycles unreachable from other targets, host/target toolsets and pruned self-dependencies",
  "The four existing tests call the cycle finder on hand-built graphs of at most a dozen nodes; nothing checks ordering or whole-project rejection.",
  [I, C], [("DependencyGraphNode.FlattenToList / FindCycles", I), ("VerifyNoGYPFileCircularDependencies, BuildDependencyList", I), ("TopologicallySorted", C)], ["order of targets received by generator", "exit status and diagnostics"])

p("C10", "Every target is selected and identified exactly once, by file, name and toolset",
  "Each target written in a loaded file exists exactly once per requested toolset under its file, name and toolset; wildcard, cross-file, default-toolset and explicitly qualified references denote exactly the matching targets, and duplicates in a dependency list collapse to one. A reference to a missing target, a target defined twice, and two targets of one directory and toolset that would collide are rejected. Suppressed wildcards and root-target selection keep exactly the requested targets plus everything they need.",
  ["inputs", "programs"], "all sets of files, names, toolsets, wildcard forms, duplicate references and root-target selections",
  "Only the string form of names is touched by tests indirectly; selection over arbitrary file sets is not.",
  [I, C], [("BuildTargetsDict, QualifyDependencies, ExpandWildcardDependencies, RemoveDuplicateDependencies, PruneUnwantedTargets, VerifyNoCollidingTargets", I), ("ParseQualifiedTarget, ResolveTarget, QualifiedTarget", C)], ["targets received by generator"])

p("C11", "An invalid project is rejected with a diagnostic and no build files",
  "A project that breaks a documented rule anywhere (syntax error, duplicate key under checking, missing file, bad type, undefined variable, malformed condition or filter, unknown target type, ill-formed rule, action or run_as, missing target, cycle, failing command) makes the generator exit with a nonzero status and a message, and no build file is written or altered. A project that breaks none is accepted.",
  ["inputs", "programs"], "all valid projects with one rule violation injected at any place, under every command-line format",
  "No test runs the command line on invalid input; the injection points are every place of every project.",
  [I, G0], [("Validate* functions, GypError handling in gyp_main", I), ("main / gyp_main", G0)], ["exit status, stderr, files in the output tree"])

p("C12", "The same project always generates byte-identical build files",
  "Generating twice from the same project with the same options writes byte-for-byte the same set of files, whatever the process's hash seed, the order in which the file system lists files, or the presence of previous output. This holds for every output format that runs on this platform.",
  ["programs", "configurations", "schedules"], "all projects x all formats x hash seeds x previous state of the output tree",
  "Tests never generate a project twice; hash-order dependence shows only under particular seeds and set sizes.",
  [MK, NJ, "gyp/pylib/gyp/generator/cmake.py", "gyp/pylib/gyp/generator/msvs.py", "gyp/pylib/gyp/generator/xcode.py", C, I], [("sorted traversals in generators", MK), ("OrderedSet, uniquer", C)], ["bytes of every generated file"])

p("C13", "Loading build files in parallel gives the same result as one at a time",
  "For every project spread over any number of files, loading with parallel processing enabled hands a generator the same targets, in the same order, with the same contents as loading sequentially, and a project that fails to load one way fails the other way too, without hanging.",
  ["schedules", "programs", "fault_sequences"], "all projects of several files x both loading modes, including files with errors",
  "No test loads more than one file; parallel results depend on completion order.",
  [I], [("LoadTargetBuildFilesParallel, ParallelState, CallLoadTargetBuildFile", I)], ["targets received by generator", "exit status"])

p("C14", "Make builds pass defines, flags, include paths and sources on verbatim",
  "In a build driven by the generated makefiles, each compiler invocation receives every preprocessor define, C/C++ flag, include directory and source path of its target and configuration exactly as written (after processing), in order, each as one argument where it was one define or path, whatever shell, make or preprocessor metacharacters it contains. Link invocations receive linker flags and libraries in order, and language-specific flags reach only that language.",
  ["inputs", "programs"], "all defines, flags and paths over the characters the make format supports",
  "No test runs a generated makefile; escaping passes through gyp, make and sh and breaks on rare characters only.",
  [MK, C], [("EscapeCppDefine, EscapeMakeVariableExpansion, EscapeShellArgument, QuoteSpaces", MK), ("WriteList, WriteDefines, WriteSources", MK)], ["argv of the compiler and linker recorded by a stand-in"])

p("C15", "All output formats describe the same compilations",
  "For every project, the make, ninja and compile-database formats lead to the same set of compilations: the same source files, each with the same defines, include directories and flags for its configuration. Generated objects of different targets never share a path, and each source of a linked target is compiled once per target.",
  ["programs", "configurations"], "all projects x the formats that run here",
  "Tests for generators cover a single name computation; no test compares two generators.",
  [MK, NJ, "gyp/pylib/gyp/generator/compile_commands_json.py"], [("WriteSources", MK), ("WriteSourcesForArch", NJ), ("AddCommandsForTarget", "gyp/pylib/gyp/generator/compile_commands_json.py")], ["argv of compilers recorded by a stand-in; compile_commands.json"])

p("C16", "Generated builds produce every artifact from its inputs, at any parallelism",
  "Building a generated project with make or ninja, at any job count, produces exactly the artifacts the targets describe at their documented places and names, each made from exactly its own objects and the libraries it must link, and never reads a file before the step that makes it has finished. Building one named target builds everything it needs, and each configuration gets its own output directory.",
  ["schedules", "programs", "configurations"], "all project graphs with actions, copies and all target types x job counts x requested goals",
  "No test executes a generated build, let alone under an adversarial schedule.",
  [MK, NJ], [("WriteTarget, ComputeDeps, ComputeOutput, order-only dependencies", MK), ("WriteCollapsedDependencies, WriteTarget", NJ)], ["artifacts and their recorded inputs"])

p("C17", "Custom actions, rules and copies produce their outputs and feed the build",
  "Each action runs from the directory of the file that defines it with exactly the arguments written, each rule runs once per matching source with its input-name variables substituted, and each copy places each file, unchanged, in its destination. Their outputs exist before anything that depends on the target is compiled, outputs declared as sources are compiled into the target, and a multi-output action runs once per build.",
  ["programs", "inputs"], "all sets of actions, rules and copies, argument strings, source names and directories, under make and ninja",
  "No test contains an action, rule or copy.",
  [MK, NJ], [("WriteActions, WriteRules, WriteCopies, WriteMakeRule", MK), ("WriteActions, WriteRules, WriteCopies", NJ)], ["argv, cwd and outputs recorded by a stand-in tool"])

p("C18", "An incremental make build ends in the state a clean build would give",
  "After any sequence of edits (source, header or input contents, flags, defines, project files or included files, missing or stale outputs, switching configuration), running the generated build again leaves the artifacts a clean build of the final project would leave, including automatic regeneration of the makefiles with the original options. When nothing changed, nothing is rebuilt.",
  ["histories"], "all sequences of edits and builds over all projects",
  "Tests never build twice; staleness appears only after specific edit histories.",
  [MK, G0], [("command_changed / do_cmd machinery, depfiles, WriteAutoRegenerationRule", MK), ("RegenerateFlags, RegenerateAppendFlag", G0)], ["artifacts and list of commands run"])

p("C19", "Visual Studio output is well-formed and describes the same project",
  "Every project, filter and solution file generated for Visual Studio is well-formed, lists each target once with a stable unique identifier, references between them resolve, and each configuration of each project carries exactly the target's defines, include directories, libraries, build events, sources and output type. Text from the project survives XML and command-line escaping.",
  ["programs", "inputs"], "all projects over all target types, defines, paths and configurations",
  "The one Visual Studio generator test checks a single table lookup.",
  ["gyp/pylib/gyp/generator/msvs.py", "gyp/pylib/gyp/MSVSNew.py", "gyp/pylib/gyp/easy_xml.py"], [("_GenerateMSBuildProject, _GenerateMSVSProject", "gyp/pylib/gyp/generator/msvs.py"), ("MSVSSolution, MakeGuid", "gyp/pylib/gyp/MSVSNew.py")], ["generated .vcxproj, .vcproj, .filters and .sln files"])

p("C20", "Compiler settings survive conversion between Visual Studio formats",
  "Every valid old-style compiler, linker, librarian or manifest setting is converted to the new-style setting with the same meaning and value, the converted set passes new-style validation without warnings, and moved settings land in the tool that now owns them. Invalid names and out-of-range values of either style are reported and never silently passed on, and conversion of a valid set never fails.",
  ["inputs"], "all subsets of settings and all values of each setting's domain, valid and invalid",
  "Existing tests check fixed settings dictionaries; per-setting value domains and combinations are not enumerated.",
  ["gyp/pylib/gyp/MSVSSettings.py"], [("ConvertToMSBuildSettings, ValidateMSVSSettings, ValidateMSBuildSettings, _Type classes", "gyp/pylib/gyp/MSVSSettings.py")], ["returned settings and warnings"])

p("C21", "Arguments quoted for Windows are parsed back unchanged",
  "Any list of arguments encoded for a Windows command line or response file is parsed back by the documented Windows argument-splitting rules into exactly the original arguments, whatever quotes, backslashes, percent signs, spaces or control characters supported by the format they contain. Percent signs come through batch-file expansion unchanged where the text passes through a batch file.",
  ["inputs"], "all argument lists over all characters the format supports",
  "No existing test quotes a Windows argument; errors need particular runs of backslashes before quotes.",
  ["gyp/pylib/gyp/msvs_emulation.py", "gyp/pylib/gyp/generator/msvs.py"], [("QuoteForRspFile, EncodeRspFileList", "gyp/pylib/gyp/msvs_emulation.py"), ("_EscapeCommandLineArgumentForMSVS / MSBuild, _EscapeCppDefineFor*", "gyp/pylib/gyp/generator/msvs.py")], ["returned strings decoded by a model of CommandLineToArgvW"])

p("C22", "Arguments quoted for POSIX shells are read back unchanged",
  "Any list of arguments encoded for a POSIX shell is split back by a real shell into exactly the original arguments, except that variable references keep being expanded as documented for that encoding. The same holds for arguments spliced into ninja and make recipes by each format's quoting.",
  ["inputs"], "all argument lists over all printable characters and whitespace",
  "No test quotes a shell argument.",
  [C, NJ, MK, "gyp/pylib/gyp/ninja_syntax.py"], [("EncodePOSIXShellArgument, EncodePOSIXShellList", C), ("QuoteShellArgument", NJ), ("EscapeShellArgument", MK)], ["argv received by a process started by sh, make or ninja"])

p("C23", "Structured XML is written so that parsing it back gives the same document",
  "Every element tree written as XML parses back into the same element names, attributes and text for all text the format can represent, pretty-printed or not, and the file on disk is rewritten exactly when its content differs. Attributes are written in a fixed order.",
  ["inputs", "histories"], "all element trees and strings valid in XML, all encodings used, all previous file contents",
  "Existing tests compare three fixed documents.",
  ["gyp/pylib/gyp/easy_xml.py", "gyp/pylib/gyp/xml_fix.py"], [("XmlToString, _ConstructContentList, _XmlEscape, WriteXmlIfChanged", "gyp/pylib/gyp/easy_xml.py")], ["returned string parsed by an XML parser; file content and mtime"])

p("C24", "Xcode output is a well-formed, self-consistent object graph",
  "Every Xcode project file generated parses as a property list in which every object identifier is unique, every reference resolves to an object of the right kind, every object is reachable from the project, and strings survive quoting. Each target appears once with its sources, dependencies, configurations and product, and generating again gives the same identifiers.",
  ["programs", "inputs"], "all projects over all target types, names, paths and settings",
  "The Xcode generator's single test checks one helper.",
  ["gyp/pylib/gyp/xcodeproj_file.py", "gyp/pylib/gyp/generator/xcode.py"], [("XCObject.Print/_EncodeString/ComputeIDs/EnsureNoIDCollisions", "gyp/pylib/gyp/xcodeproj_file.py"), ("GenerateOutput, XcodeProject", "gyp/pylib/gyp/generator/xcode.py")], ["generated project.pbxproj parsed as an OpenStep property list"])

p("C25", "Files are rewritten only on change, and atomically",
  "A build file written through the conditional writer ends with exactly the new content; if the content is unchanged the existing file is left untouched (same inode and times). A failure at any point of writing leaves the previous file complete and no temporary file behind, and file permissions follow the user's umask.",
  ["fault_sequences", "crash_points", "histories"], "all old and new contents, all write chunkings, all points of failure",
  "No test calls the conditional writer.",
  [C], [("WriteOnDiff", C)], ["file content, inode, mode and directory listing"])

p("C26", "Change-impact analysis reports exactly the affected targets",
  "Given changed files and requested targets, the analyzer reports as to be compiled and tested exactly those targets that depend, directly or transitively, on a changed file through sources, inputs or project files, restricted to what was asked for. Changes to files no target uses report no dependency, a change to a project file affects all of its targets, and unknown requested targets are reported as invalid.",
  ["inputs", "programs"], "all target graphs, all sets of changed files and requested targets",
  "No test covers the analyzer.",
  ["gyp/pylib/gyp/generator/analyzer.py"], [("_GenerateTargets, TargetCalculator, _GetUnqualifiedToTargetMapping", "gyp/pylib/gyp/generator/analyzer.py")], ["analyzer's JSON output"])

p("C30", "The command line is parsed into the documented commands, arguments and options",
  "For every command line and set of npm_config_* environment variables, the commands run are the documented command words in order with aliases resolved, words that are not commands are arguments of the command they follow, and each option has the value given on the command line, typed as declared, unless npm's environment sets it, whose text then replaces it. Unknown options are kept for the generator, words after '--' are never taken for options, the single-letter and level shorthands mean their documented expansions, and later values win.",
  ["inputs", "configurations"], "all argument vectors and environments",
  "The existing option test has two fixed examples and does not run here.",
  ["lib/node-gyp.js", "bin/node-gyp.js"], [("Gyp.parseArgv, configDefs, shorthands, aliases", "lib/node-gyp.js"), ("run", "bin/node-gyp.js")], ["parsed todo queue and options"])

p("C31", "The generated build configuration carries every option to the build unchanged",
  "The configuration file written by configure is readable both by the generator and by build, and holds the base configuration with exactly the documented overrides: default configuration, architecture, thin-archive, node directory and each user option as a variable, with every other base value preserved. Flags the user must control (cflags, defines, include_dirs, libraries) are reset, and values survive writing and re-reading whatever characters they contain.",
  ["inputs", "configurations"], "all base configurations (process or shipped, single or double quoted with comments), option sets and values",
  "The existing test has three fixed cases and does not run here.",
  ["lib/create-config-gypi.js", "lib/build.js"], [("getBaseConfigGypi, getCurrentConfigGypi, createConfigGypi, parseConfigGypi", "lib/create-config-gypi.js"), ("loadConfigGypi", "lib/build.js")], ["build/config.gypi as read by node and by gyp"])

p("C32", "Download locations and install directory follow from version and options",
  "For every target version, runtime release information and override (dist-url option, distribution URL environment variable, runtime-provided URLs), the header tarball, checksum and import-library URLs and the install directory name are the documented functions of them, with explicit overrides beating the runtime's own URLs. Invalid version strings are recognised as invalid, and different versions never share a directory.",
  ["inputs", "configurations"], "all version strings, release descriptions and overrides",
  "Existing tests fix about ten releases and do not run here.",
  ["lib/process-release.js"], [("processRelease, normalizePath, bindingGetURL", "lib/process-release.js")], ["returned release description"])

p("C33", "Only complete, checksum-verified headers are ever considered installed",
  "After any install attempt, successful or failing at any point (connection refused or cut, error status, corrupted or truncated tarball, wrong or missing checksum, unwritable directory), a version is treated as installed only if every expected header was extracted from a tarball whose checksum matched the published one. A failed install reports an error and removes what it had written; a successful one leaves exactly the header and gypi files of the tarball and the current install version stamp, and nothing outside the version's directory (files of an earlier install of the same version may stay; a tarball given by the user is trusted as it is).",
  ["fault_sequences", "crash_points", "inputs"], "all tarball contents, checksum files and fault points on a local distribution server",
  "The existing install tests need the network and do not run here; they cover the success path and a few errors.",
  ["lib/install.js", "lib/download.js", "lib/remove.js"], [("install, go, rollback, ShaSum, downloadShasums", "lib/install.js")], ["exit status and content of the development directory"])

p("C34", "install, list, remove and ensure behave as a set of installed versions",
  "Over any sequence of install, install with ensure, reinstall, list and remove commands, the versions listed are exactly those installed and not since removed, ensure neither downloads nor changes an up-to-date version but installs again one with an older or no install stamp, and removing an absent version is reported without being an error. Nothing but the named version is ever removed, and an install for an invalid target version fails without changes.",
  ["histories", "inputs"], "all sequences of commands over all version strings",
  "No existing test runs a sequence of commands.",
  ["lib/install.js", "lib/list.js", "lib/remove.js"], [("install (ensure, installVersion)", "lib/install.js"), ("list", "lib/list.js"), ("remove", "lib/remove.js")], ["listed versions, requests received by a local server, directory content"],
  [("installVersion", "stamp of the layout a version was installed with", "<devdir>/<version>/installVersion")])

p("C35", "Cleaning and removing delete only what they own",
  "clean deletes the build directory of the current project and nothing else; remove deletes exactly one version's directory inside the development directory. No argument, option, link or directory name makes either of them delete anything outside, and both succeed when there is nothing to delete.",
  ["inputs", "configurations"], "all arguments and options, all contents (links, dot names, read-only entries) of project and development directory",
  "No test runs either command.",
  ["lib/clean.js", "lib/remove.js"], [("clean", "lib/clean.js"), ("remove", "lib/remove.js")], ["file tree before and after"])

p("C36", "The Python used is the first acceptable one in documented order",
  "For any combination of the forced-Python variable, the python option, the PYTHON variable and interpreters found on the path or at default locations, the interpreter used is the first in documented order that runs and reports a supported version; a forced one is the only one considered. When none is acceptable the search fails with an error listing what was tried, and a broken candidate never stops the search.",
  ["configurations", "inputs", "fault_sequences"], "all combinations of candidates, each working, too old, too new, failing, missing or printing rubbish",
  "Existing tests mock six fixed situations and do not run here.",
  ["lib/find-python.js"], [("PythonFinder.findPython, checkCommand, checkExecPath, run", "lib/find-python.js")], ["interpreter returned or error"])

p("C37", "The Visual Studio chosen is the newest usable one that the user allows",
  "From any list of detected installations, the one chosen is the first reported of the newest supported year that has the build tool, a matching toolset and an SDK and that matches the requested version or path and the active command prompt; the reported toolset, SDK and build-tool path belong to that installation. If there is none, discovery falls back to the older detection methods allowed for the target Node version and otherwise fails. Malformed detection output never makes it crash or choose wrongly.",
  ["inputs", "configurations"], "all lists of installations (versions, package sets, paths), user requests, environment and Node versions",
  "Existing tests replay about a dozen recorded outputs and do not run here.",
  ["lib/find-visualstudio.js"], [("VisualStudioFinder.processData, getVersionInfo, getMSBuild, getToolset, getSDK, checkConfigVersion", "lib/find-visualstudio.js")], ["returned installation or error"])

p("C38", "configure hands the generator the right files, variables and format",
  "For every option set and project directory, configure creates the build directory and configuration file, and starts the generator once with the chosen format, the configuration, addon and user include files in order, the definitions of node directory, library file, module root and engine, and the user's extra arguments. Headers come from the given node directory or the installed version's directory, and a missing prerequisite or failing generator makes configure fail.",
  ["inputs", "configurations"], "all option sets, node directory layouts and extra arguments",
  "Existing tests check two single arguments and do not run here.",
  ["lib/configure.js", "lib/find-node-directory.js"], [("configure, findConfigs, runGyp", "lib/configure.js")], ["argv and environment received by a stand-in Python; files in build/"])

p("C39", "build runs the build tool with the requested configuration and reports failure",
  "For every option set and saved configuration, build invokes the chosen make once in the build directory with the requested or saved configuration, job count, verbosity and the user's extra targets, with a python3 of the chosen interpreter first on the path during the build and nothing of it left behind. It succeeds exactly when the tool exits with status zero, and otherwise fails naming the exit code or signal.",
  ["inputs", "configurations", "fault_sequences"], "all option sets, saved configurations, extra arguments and tool outcomes",
  "Existing tests build one addon and do not run here.",
  ["lib/build.js"], [("build, loadConfigGypi, doBuild, onExit", "lib/build.js")], ["argv, cwd and environment received by a stand-in make; exit status"])

p("C40", "Commands run in order, stop at the first failure, and set the exit status",
  "The commands of one invocation run strictly one after another in the order given, with rebuild standing for clean, configure and build at its place; after the first command that fails no further command runs and the process exits nonzero, otherwise it exits zero and says ok. No failure of any kind, including unexpected ones, ends with a zero status.",
  ["histories", "fault_sequences"], "all command sequences with any command failing",
  "No existing test runs more than one command.",
  ["bin/node-gyp.js", "lib/rebuild.js", "lib/node-gyp.js"], [("run queue, errorMessage, exit handler", "bin/node-gyp.js"), ("rebuild", "lib/rebuild.js")], ["exit status and tool invocations recorded by stand-ins"])

p("C41", "Downloads honour the proxy, proxy-exception and certificate settings",
  "Every request for headers goes through the configured proxy unless its host is covered by the proxy exceptions, trusts exactly the certificates of the given CA file when one is given, and identifies itself with node-gyp's and Node's versions. A CA file that cannot be read or a server it does not vouch for makes the download fail; an explicit proxy option takes precedence over the environment.",
  ["inputs", "configurations"], "all combinations of proxy, exception list, CA file and server",
  "Existing download tests need fixed local servers and do not run here; they cover one case per setting.",
  ["lib/download.js"], [("download, readCAFile", "lib/download.js")], ["requests received by local origin and proxy servers"])

p("C42", "A described addon builds end to end and behaves as described",
  "For every addon description using sources, defines, include directories, static libraries, generated sources and configurations, configuring and building it for the running Node produces a loadable module at the documented place for the selected configuration, and the loaded module shows exactly the defines and code the description gives it. Rebuilding after edits shows the new values.",
  ["programs", "configurations", "histories"], "all small addon projects, options (debug, release, directory, jobs) and edit sequences",
  "The addon tests that exist need npm packages and do not run here; they build one fixed addon.",
  ["lib/configure.js", "lib/build.js", "addon.gypi", MK], [("configure + build pipeline", "lib/build.js"), ("addon defaults", "addon.gypi")], ["values exported by the loaded module"])

p("C43", "The generator takes options from every source and repeats them to regenerate",
  "The definitions, generator flags, formats, output directory, project files and forcibly included files of a generator run are exactly those of the environment (unless ignored), followed and overridden by the command line, and of the configuration directory or the home directory; a definition given twice has its last value. The flags saved for regeneration lead, run from the depth directory in any other environment, to the same options, definitions and inclusions. A run without any project file fails with a usage message.",
  ["inputs", "configurations"], "all command lines, GYP_* environment variables, home and configuration directories, depths and invocation directories",
  "No test runs the command line; each option has up to three sources whose precedence and quoting interact.",
  [G0], [("gyp_main, Load", G0), ("RegenerateFlags, RegenerateAppendFlag", G0), ("ShlexEnv, NameValueListToDict", G0)], ["definitions as a project sees them", "parameters handed to an output format"])

p("C44", "The log shows exactly the messages of the chosen level and above, in order",
  "Every message logged at the chosen level or a more serious one is written to the log exactly once, in the order logged, each of its lines carrying the program, level and prefix; messages of other levels, and all of them under silent or an unknown level, are not. Messages logged while the log is held back appear when it is released, at the level chosen by then, and only a terminal receives colours. The level never changes what a command does, prints or returns.",
  ["inputs", "histories"], "all sequences of messages, level changes, holds, releases and streams, and whole runs at every level",
  "The existing tests switch the log off; ordering around holds and levels depends on the history.",
  ["lib/log.js", "lib/node-gyp.js", "bin/node-gyp.js"], [("Logger", "lib/log.js"), ("level from options", "lib/node-gyp.js")], ["text written to the log stream", "standard error of whole runs"])

p("C45", "A project written for CMake builds the same program",
  "CMake accepts the project files written for every project and builds from them every target of the requested project files and what they depend on: each source, action, rule and copy once, with the compiler settings, linker flags and libraries of the selected configuration, and every product from exactly the parts that belong to it. A second build does nothing; a build after an edit leaves what a build from nothing would.",
  ["inputs", "configurations", "schedules"], "all projects (targets, dependencies, sources, actions, rules, copies, settings, configurations), at any parallelism",
  "No test writes a CMake project.",
  ["gyp/pylib/gyp/generator/cmake.py"], [("WriteTarget, WriteActions, WriteRules, WriteCopies", "gyp/pylib/gyp/generator/cmake.py"), ("GenerateOutputForConfig", "gyp/pylib/gyp/generator/cmake.py")], ["commands run by a build that real cmake configured", "files the build leaves"])

p("C46", "An incremental ninja build ends in the state a clean build would give",
  "After any sequence of edits (source, header or input contents, flags, defines, project files, missing outputs, switching configuration), each followed by generating and building, the artifacts are those a clean build of the final project leaves and the ninja files are those a fresh generation writes. When nothing changed nothing is rebuilt, and after a change of one source only its compilation and what depends on the result run again.",
  ["histories"], "all sequences of edits, regenerations and builds over all projects",
  "Tests never build twice; staleness and needless rebuilding appear only after specific edit histories.",
  ["gyp/pylib/gyp/generator/ninja.py"], [("WriteTarget, WriteSources, WriteActions, WriteRules, WriteLink", "gyp/pylib/gyp/generator/ninja.py"), ("WriteCollapsedDependencies, GenerateOutputForConfig", "gyp/pylib/gyp/generator/ninja.py")], ["artifacts, ninja files and commands run"])
p("C47", "On macOS the xcode_settings reach compiler, linker and postbuild steps",
  "For the mac flavour of the make and ninja generators every command line holds exactly the flags that the effective xcode_settings (file, target and configuration level), mac_framework_dirs, libraries, defines and include directories stand for in the language or link step concerned, with relative paths taken from the gyp file's directory and the user's own flags in their order after the general ones. Products have their macOS names, links take in the right inputs, and prefix headers are included or precompiled once per language. dSYM, strip and the user's postbuilds run in this order after the link, in the gyp file's directory and with Xcode's variables; when one fails the build fails and the product is removed.",
  ["inputs", "configurations"], "all targets, sources and xcode_settings over all Xcode versions and both generators",
  "The suite checks no macOS generation; wrong flags appear only for particular settings, languages, target types and configurations.",
  ["gyp/pylib/gyp/xcode_emulation.py", "gyp/pylib/gyp/generator/make.py", "gyp/pylib/gyp/generator/ninja.py"], [("XcodeSettings.GetCflags, GetCflagsC, GetCflagsCC, GetCflagsObjC, GetLdflags, GetLibtoolflags, AdjustLibraries, AddImplicitPostbuilds", "gyp/pylib/gyp/xcode_emulation.py"), ("MacPrefixHeader, XcodeVersion, GetXcodeArchsDefault, GetSortedXcodeEnv", "gyp/pylib/gyp/xcode_emulation.py"), ("WriteSources, WriteTarget", "gyp/pylib/gyp/generator/make.py"), ("WriteSourcesForArch, WriteLinkForArch, GetPostbuildCommand", "gyp/pylib/gyp/generator/ninja.py")], ["argument lists of the stand-in tools under real make and ninja", "postbuild environment", "products"])

p("C48", "With Ninja on Windows the msvs_settings reach cl, link, lib, rc, ml and midl",
  "For the Windows flavour of the Ninja generator every command line holds exactly the options that the effective msvs_settings, msvs_* keys, defines, include directories, library directories and libraries of the target, configuration, architecture and Visual Studio version stand for, split by Windows' own quoting rules, with relative paths taken from the gyp file's directory and AdditionalOptions in their order. Every source is compiled once by the tool for its extension, links take in the right objects, import libraries and module-definition files, precompiled headers are made once and waited for, and the generated manifest asks for the configured execution level. Actions and rules run with their exact arguments, through cygwin or not, with a response file of their own.",
  ["inputs", "configurations"], "all targets, sources and msvs_settings over all Visual Studio versions and architectures",
  "The suite checks no Ninja build for Windows; a wrong option appears only for particular settings, target types, versions and platforms.",
  ["gyp/pylib/gyp/msvs_emulation.py", "gyp/pylib/gyp/generator/ninja.py"], [("QuoteForRspFile, EncodeRspFileList, MsvsSettings, PrecompiledHeader, ExpandMacros", "gyp/pylib/gyp/msvs_emulation.py"), ("WriteSourcesForArch, WriteLinkForArch, WriteNewNinjaRule, _WinIdlRule", "gyp/pylib/gyp/generator/ninja.py")], ["argument lists in the generated Ninja files", "build steps, their inputs and outputs", "generated manifests"])

p("C49", "The formats that describe a project to other tools describe it exactly",
  "The dependency dump names every target of the loaded build files with exactly its direct dependencies. The gypd dump of each build file reads back as a Python literal holding exactly the processed targets. The Eclipse settings and classpath of each configuration are well-formed XML and name exactly the include directories, -I flags, defines, compiler defaults, Java source directories and archives of the project's targets.",
  ["inputs", "configurations"], "all targets, dependencies, settings, paths and configurations",
  "No test runs these formats.",
  ["gyp/pylib/gyp/generator/dump_dependency_json.py", "gyp/pylib/gyp/generator/gypd.py", "gyp/pylib/gyp/generator/eclipse.py"], [("GenerateOutput", "gyp/pylib/gyp/generator/dump_dependency_json.py"), ("GenerateOutput", "gyp/pylib/gyp/generator/gypd.py"), ("GetAllIncludeDirectories, GetAllDefines, GenerateClasspathFile", "gyp/pylib/gyp/generator/eclipse.py")], ["dump.json", ".gypd files", "eclipse-cdt-settings.xml and eclipse-classpath.xml"])

# what the statements leave out: input the documented file format gives another meaning or cannot carry
SCOPE = {
"C02": "(References to targets resolve relative to the build file of the target that carries them.)",
"C08": "(Libraries come before what they use only where the output format orders them itself; make and ninja group them for the linker.)",
"C13": "(A project file is not at the same time included into another one.)",
"C14": "(Defines are delivered with every character except newlines; flags, include directories and source paths when they are free of white space and of characters the shell or make interpret.)",
"C15": "(Sources of one target differ before their extensions.)",
"C17": "(Arguments hold no newline, and a dollar sign in one is the shell's.)",
"C18": "(Edits have later time stamps; outputs no longer described may stay behind.)",
"C19": "(Paths hold no list separators or doubled pieces; a target split into shards has no identifier or precompiled source of its own.)",
"C20": "(A setting that was moved between tools is given once.)",
"C21": "(A slash in an argument counts as the system's path separator; the program of a command is normalised.)",
"C23": "(Names are ASCII and texts hold only characters XML can carry.)",
"C24": "(Target names hold no slash, actions have distinct outputs and project files have distinct base names.)",
"C25": "(The guarantee after a failure covers failures while the write is completed.)",
"C45": "(Defines hold none of CMake's own separators, and no source file belongs to two targets whose flags differ by language.)",
"C46": "(Edits have later time stamps; outputs no longer described may stay behind.)",
"C47": "(One architecture per target; variables in postbuilds are written with braces.)",
"C48": "(The user supplies the environment files; slashes in arguments count as Windows path separators.)",
"C49": "(Of several defines of one name Eclipse is shown one.)",
"C26": "(Target names are unique; files of copies do not count as inputs.)",
}
for x in P:
    if x["id"] in SCOPE:
        t = SCOPE[x["id"]][1:-2]
        x["statement"] = x["statement"].rstrip(".") + " (" + t[0].lower() + t[1:] + ").".replace("()", "")

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
