"""Per-property text of DESIGN.md (gen, oracle, bounds, why)."""
T = {
"C01": ("A set of build files (main file, includes, command-line includes, target_defaults, conditions) with random keys, "
        "operators and nested values, placed so that one dictionary is merged into several places.",
        "An independent reference of the documented operators (`lib/vh/refgyp.py`) applied to the same project; the processed targets "
        "(seen through the plug-in format `vdump`) must be equal, and contradictory or ill-typed merges must be rejected.",
        "≤4 files, depth ≤3, lists ≤6 items.",
        "The unit tests sample no merge at all; operator order, sharing of one source by several destinations and key orders only show in combinations."),
"C02": ("Projects over several directories whose path-valued keys hold relative, absolute, dotted, dashed and variable-led items, "
        "reached through includes, defaults, conditions and dependent settings.",
        "The file system path each item names, computed from the directory of the file that wrote it, against the path the processed item names.",
        "≤4 directories deep, all path-valued key suffixes.", "The rebasing happens at each merge; errors need chains of different directories."),
"C03": ("Scopes of nested variables (all phases, defaults, automatic, `-D`), strings and lists with references, commands and file lists.",
        "Reference evaluator written from the documentation; commands log their working directory and run count.",
        "≤3 scopes, nesting ≤3.", "Scoping × phase × context (string/list/integer) is combinatorial."),
"C04": ("Condition trees (early and target phase, nested, multi-branch, malformed) over variables defined before or after.",
        "Reference evaluator; rejected/accepted must agree and targets must be equal.", "nesting ≤3, ≤4 branches.",
        "Order of phases is only visible when a branch's variables feed other conditions."),
"C05": ("Lists with `!` and `/` filters in targets, configurations, conditions and nested dictionaries; malformed ones.",
        "Reference filter; survivors, `_excluded` list and removal of filter keys.", "lists ≤10, filters ≤5.", "Order of actions and repeated items."),
"C06": ("Configuration graphs with abstract parents, diamonds, own settings, and structural keys in odd places.",
        "Reference merge per configuration; bare target and other configurations compared for leaks.", "≤5 configurations, inheritance ≤4 deep.",
        "Leaks need two configurations with a shared parent."),
"C07": ("Target graphs with all four kinds of dependent settings, exports, `none` pass-through and hard dependencies.",
        "Set definitions (who must receive which item how often) plus the reference model of order.", "≤8 targets, ≤3 files.",
        "Import order, diamonds and multi-step exports."),
"C08": ("Target graphs of all linkable types, in several toolsets and files.",
        "Set definitions of the link closure, an order relation (user before used) and the reference model.", "≤9 targets.",
        "Closures crossing shared libraries and loadable modules."),
"C09": ("Random acyclic graphs, graphs with an injected target or file cycle, and dense layered graphs.",
        "Graph-theoretic check of the order; the error must name the nodes of a real cycle; a time limit stands for termination.",
        "≤12 targets, dense: ≤22 layers of ≤3.", "Termination and cycle naming on shapes nobody wrote down."),
"C10": ("Targets with toolsets, wildcards, qualified references, duplicates, clashing names, root selections.",
        "Reference resolution to the set of fully qualified names; reject/accept.", "≤4 files, ≤6 targets.", "Products of toolset × wildcard × suppression."),
"C11": ("A valid generated project plus exactly one injected violation (kinds: `KINDS` in the check) at a random place; and the same project without it.",
        "Nonzero exit, a message naming what is wrong, no traceback, and an unchanged directory tree; the unmodified project is accepted.",
        "all formats that run here.", "A rule must be enforced at every place it can be broken."),
"C12": ("One generated project, every output format, several hash seeds and directory-listing orders, from clean and over previous output.",
        "Metamorphic: byte-identical output trees.", "every format that runs on this platform.", "Needs many hash seeds and projects rich enough to have sets of several items."),
"C13": ("Projects of several files; delays injected into each file's opening, number of workers varied; also failing projects.",
        "Differential against the sequential load: same targets, same order, same contents; same verdict; a time limit.",
        "≤8 files, 1–4 workers.", "Schedules of worker completion."),
"C14": ("Projects whose defines, flags, include dirs, file names and linker settings are full of shell/make/C metacharacters.",
        "The argument vectors an argv-logging compiler really received from real make.", "make (Linux flavour).",
        "Three layers of quoting (gyp, make, shell) compose only in a real run."),
"C15": ("One generated project through make, ninja and compile_commands_json.",
        "Differential between the three sets of compilations; object paths disjoint.", "≤5 targets.", "Three generators, one meaning."),
"C16": ("Projects with actions, rules, copies, libraries, modules; `-j` 1–8; stand-in tools that delay and expose half-written files.",
        "Every artifact is a digest of exactly its inputs; a premature or missing read is visible in the log; documented places and names.",
        "make and ninja.", "Ordering edges missing from the graph only fail under some schedules."),
"C17": ("Actions, rules and copies with hostile arguments, names and layouts.",
        "Logged working directory, argument vectors, run counts, contents and modes.", "make and ninja.", "Quoting × layout × multi-outputs."),
"C18": ("Stateful: a sequence of edits (sources, headers, inputs, flags, defines, gyp files, missing or stale outputs, configuration), each followed by make.",
        "The final artifacts equal those of a clean build of the final project; a further build does nothing.", "≤4 edits.", "History dependence."),
"C19": ("Projects through the msvs and msbuild formats, options and versions varied; build steps before and after, system/resource/interface directories, settings the target makes itself.",
        "Parsed XML/solution model compared with the target description.", "generation only: Visual Studio itself cannot run here.", "Text survival and references."),
"C20": ("Exhaustive enumeration of every setting and value of the reviewed table `lib/vh/msvs_table.json`, plus random combinations and invalid values.",
        "The table (meaning of every old/new setting), validation without warnings.", "all tools.", "Hundreds of settings, moved ones interact."),
"C21": ("Argument lists over an alphabet of quotes, backslashes, percents, spaces, control characters.",
        "Round trip through a model of CommandLineToArgvW, of batch-file expansion and of project-file list parsing.", "model of Windows' documented rules.", "Backslash runs before quotes."),
"C22": ("Argument lists over shell, ninja and make metacharacters.", "Round trip through the real sh, bash, ninja and make.", "—", "Same."),
"C23": ("Element trees and histories of writes over an existing file.", "Two XML parsers (expat, ElementTree) and a model of the file's history (inode, time).", "—", "Escaping in every position."),
"C24": ("Projects through the xcode format, several gyp files, options varied.", "Own property-list parser; reference graph checks; comparison with the targets.", "generation only.", "Object graphs."),
"C25": ("Contents, histories, injected failures (open, write, close, rename, chmod) and crash points (the process is killed between system calls).",
        "A model of the directory: old or new content, nothing else, mode by umask.", "—", "Fault and crash points."),
"C26": ("Target graphs and change queries to the analyzer.", "Reachability in the generated graph.", "≤9 targets.", "Search with shared state over many queries."),
"C30": ("Command lines (words, aliases, options of every type and spelling, shorthands, `--`) and npm_config_* environments.",
        "Independent model of the documented parsing.", "all options in `configDefs`.", "Interaction of environment, order and types."),
"C31": ("Base configurations (process.config, header config.gypi), options and platforms; strings with quotes, hashes and unicode.",
        "Model of the overrides; written file re-read by node (as build does) and by gyp's own loader.", "—", "Two readers of one text."),
"C32": ("Versions (releases, prereleases, io.js-era, nightlies), release information, overrides, platforms, architectures.",
        "Independent composition of the documented URLs; pairs of versions for directory uniqueness.", "—", "Version arithmetic."),
"C33": ("Tarballs (layout, entries, links), checksum files, server faults (refused, cut, status, truncated, corrupt), unwritable places, and kill points.",
        "What the server published decides the verdict; directory contents; stamp only after verification.", "loopback server.", "Fault and crash points between extraction, verification and stamp."),
"C34": ("Histories of install/ensure/reinstall/list/remove with versions, stamps and broken servers.", "Map version → files kept by the check.", "≤9 steps.", "Histories."),
"C35": ("Project and development directories with links, odd names and permissions; arguments like `../x`, absolute, empty, dotted.",
        "Whole scratch tree before/after.", "run as an unprivileged user who owns only the scratch directory.", "Containment must hold for every argument."),
"C36": ("Sets of interpreters (missing, failing, odd output, every version), settings, platforms.", "Model of the documented order; a second campaign runs real generated programs.", "Windows launch paths are exercised by an emulated platform.", "Order × failures."),
"C37": ("Machines: installations, tool sets, SDKs, detection outputs (malformed too), prompts, requests, Node versions.", "Model of the selection.", "detection commands replaced by generated output.", "Order × filters × fallbacks."),
"C38": ("Options, node directories, project files, platforms, outcomes of the generator.", "The one recorded call (parsed as gyp parses it) and the files in build/.", "stand-in Python.", "Option combinations."),
"C39": ("Options, saved configurations, tool outcomes (status, signal, not startable), leftovers in build/.", "The recorded call, its environment, the tree left behind and the result.", "stand-in make; msbuild by emulated platform.", "Outcomes × leftovers."),
"C40": ("Command sequences with stand-in tools that fail at generated places, unexpected failures included.", "Sequential model: which tools ran, what is printed, what is on disk, exit status.", "≤5 commands.", "Sequences and failures."),
"C41": ("Proxy, exceptions, CA file, server certificate, environment.", "Computed route and trust; what origin and proxy servers recorded.", "http/https origins and a proxy on the loopback interface.", "Products of settings."),
"C42": ("Addon descriptions (sources, defines, include dirs, libraries, generated sources, configurations) and edits.", "Values the module loaded in Node exports, computed from the description.",
        "real gcc, make and the Node headers installed in /usr/include/node.", "End to end."),
"C43": ("Command lines, GYP_* variables, home and configuration directories, depths, project locations.", "Model of the documented sources of every option; a second run with the saved flags in a hostile environment.",
        "Up to four definitions and flags per source, three formats, three project files.", "Product of sources, and regeneration from another directory and environment."),
"C44": ("Sequences of messages, levels, holds and streams; whole runs at every level.", "Model of the log; the same run at the loudest level, filtered.", "14 steps; three commands.",
        "Histories, and a metamorphic relation between runs."),
"C45": ("Buildable projects with quoted defines, same-named targets, assembly and object files, shared sources, directory copies, paths with spaces, messages, standalone archives, executables without sources, a second output directory; one edit.",
        "Model of the steps a build must run; compilation database of the same project; null build; clean build.", "Real cmake and ninja, stand-in tools; up to five targets.",
        "CMake's own escaping and ordering rules only show when real cmake reads the files."),
"C46": ("Stateful: the edits of C18 (without outputs made stale by hand), each followed by generating and ninja.",
        "Differential: artifacts and ninja files after the edits against those of a fresh tree; null build; the reach of one changed source from the dependency graph.",
        "Up to 4 targets, 4 steps of up to 3 edits, real ninja with stand-in tools whose `nm` prints a digest.",
        "Histories; the table-of-contents shortcut and order-only edges only matter after edits."),
"C47": ("Up to three targets of four types in six languages with random xcode_settings at file, target and configuration level, prefix "
        "headers, libraries, frameworks, postbuilds, five Xcode versions, sub-directories; a postbuild that fails.",
        "A table of Xcode's build settings (`lib/vh/mac.py`); the argument lists real make or ninja hand to stand-ins for Apple's tools, "
        "taken apart into flags with absolute paths, are the table's, no more and no less.",
        "One architecture per target; every setting gyp documents for plain targets, both configurations, both generators.",
        "Each setting acts on some languages and steps only; a wrong default, language or level shows on specific combinations."),
"C49": ("Up to six targets in four build files with dependencies, settings per configuration, Java inputs, names and paths special to XML or Python; a stand-in compiler named in four ways.",
        "Dependencies and Eclipse settings are computed from the generated case; the gypd text is evaluated and compared with what a custom format receives.",
        "Defines of one name may show any of their values.", "Text that must survive XML and Python quoting, and paths that depend on where the build file lies."),
"C48": ("Up to three targets of four types with C, C++, resource, assembler, IDL, .def and object sources, random msvs_settings and msvs_* "
        "keys at target and configuration level, precompiled headers, actions and rules with and without cygwin, eight Visual Studio "
        "versions, two architectures with both ways of choosing one.",
        "A small evaluator of Ninja files (`lib/vh/ninjafile.py`, cross-checked with `ninja -t compdb`) expands every build step; its "
        "arguments, split by a model of CommandLineToArgvW, are those of a table of Visual Studio's options, no more and no less.",
        "Nothing is compiled: the command lines are the observed behaviour; the user supplies the environment files.",
        "No Ninja build for Windows is tested upstream; on Python 3 rules, precompiled headers and lists did not work at all."),
}

WHY = {
"c15-same-name-object": "Objects of one target name share `obj.target/NAME/`; a repair would rename object directories users rely on",
"c17-repeated-argument": "The uniqueness rule of list merging is documented for all lists; a repair would change the merge semantics",
"c18-multi-output": "The intermediate-file scheme of multi-output rules would have to be replaced",
"c18-rule-command": "Rules are plain pattern rules without command tracking; a repair restructures the rule output of the make generator",
"c18-archive-members": "`alink` updates the archive in place; removing it first was judged a change of build behaviour on every platform flavour",
}

NOTES = {
"C14": ["Defines are passed with every character but newlines; for flags and paths the make generator documents no quoting, so they are "
        "limited to characters neither the shell nor make interprets."],
"C18": ["Three genuine defects of the make generator are recorded as findings; the generator of cases keeps producing them at a low rate "
        "so that the KNOWN-FINDING lines stay backed by a real run, and a different violation is still reported."],
"C19": ["Visual Studio cannot run here; what is checked is the generated project as a document."],
"C24": ["Xcode cannot run here; what is checked is the generated project as a document."],
"C33": ["Kill points: the installing process is killed with SIGKILL at generated positions of its server conversation and file system work; "
        "the tree left behind is judged and a following install must recover."],
}

FALSE = """
## False alarms met while building, and what was corrected

* C02: a reference to a target is resolved relative to the build file of the target that carries it, also when an include in
  another directory wrote it; the statement was too strong and now says so.
* C08: order on the link line is only promised by formats that order libraries themselves; make and ninja use groups.
* C13: a file that is loaded as a project and included by another is parsed once sequentially and twice in parallel; out of scope.
* C14: flags with shell syntax are documented to be the shell's; limited the alphabet of flags and paths.
* C17: `$` in an argument is the shell's, as documented; a newline ends a recipe line.
* C18: an edit within the time stamp resolution is invisible to make; edits now advance the clock. Outputs that no longer belong to the
  project may stay.
* C19/C20/C24: lists of names that collide with the format's own separators, and moved settings given twice, are outside the format.
* C21: slashes of arguments that look like paths are turned into the system's separator on purpose.
* C48: `$(OutDir)` in an include directory expands to nothing there and is not generated; two IDL files of a directory share
  `dlldata.c` unless told otherwise.
* C26: files of copies are not inputs in the analyzer's model, and names (not qualified names) identify targets in its answers.
* C34/C33: files an older install of the same version left behind may stay after a reinstall.
* C46: ninja's log decides about outputs that are older than their inputs (its rules use `restat`), so that edit is left out; a link may wait
  for a product it does not contain, so such links may but need not run again.
* C47: make quotes flags that hold a double quote and ninja does not; `$NAME` without braces in a postbuild is make's, not the
  shell's; libraries of a static library reach its users through `link_settings` only. All three are left as they are.
* C45: CMake itself drops `#` and macro arguments from defines, treats `$`, `;` and brackets as syntax, repeats static libraries on link
  lines and adds NAME_EXPORTS to shared libraries; the oracle allows for these.
* C41: the exceptions listed in the environment also apply to a proxy given on the command line (npm's agent does so); left unspecified.
"""
