From 618b590054f3895c1084280dd2a25f0b6ff99c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:35 +0000
Subject: [PATCH 01/81] fix: merging an integer item of a path section across
 directories raised TypeError

---
 gyp/pylib/gyp/input.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gyp/pylib/gyp/input.py b/gyp/pylib/gyp/input.py
index 5e71fda..9706a00 100644
--- a/gyp/pylib/gyp/input.py
+++ b/gyp/pylib/gyp/input.py
@@ -2191,6 +2191,10 @@ def MakePathRelative(to_file, fro_file, item):
     #   "/' Used when a value is quoted.  If these are present, then we
     #       check the second character instead.
     #
+    if isinstance(item, int):
+        # Expansion has turned a name made of digits into an int.
+        ret = MakePathRelative(to_file, fro_file, str(item))
+        return int(ret) if IsStrCanonicalInt(ret) else ret
     if to_file == fro_file or exception_re.match(item):
         return item
     else:
-- 
2.43.0


From a848a181c8195c0fbeafd6cba6b087ae7045c2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:35 +0000
Subject: [PATCH 02/81] fix: a command expansion killed by a signal was treated
 as a success

---
 gyp/pylib/gyp/input.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gyp/pylib/gyp/input.py b/gyp/pylib/gyp/input.py
index 9706a00..ba28017 100644
--- a/gyp/pylib/gyp/input.py
+++ b/gyp/pylib/gyp/input.py
@@ -973,7 +973,7 @@ def ExpandVariables(input, phase, variables, build_file):
                             % (e, contents, build_file)
                         )
 
-                    if result.returncode > 0:
+                    if result.returncode != 0:
                         raise GypError(
                             "Call to '%s' returned exit status %d while in %s."
                             % (contents, result.returncode, build_file)
-- 
2.43.0


From 7ee279c2bedd62318e48051d4097578c4a2c3ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:06 +0000
Subject: [PATCH 03/81] fix: file lists split list items that need quoting and
 gained lines for empty lists

---
 gyp/pylib/gyp/input.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gyp/pylib/gyp/input.py b/gyp/pylib/gyp/input.py
index ba28017..486ffac 100644
--- a/gyp/pylib/gyp/input.py
+++ b/gyp/pylib/gyp/input.py
@@ -871,7 +871,7 @@ def ExpandVariables(input, phase, variables, build_file):
         # fit on the command line.
         if file_list:
             contents_list = (contents if isinstance(contents, list)
-                             else contents.split(" "))
+                             else shlex.split(contents))
             replacement = contents_list[0]
             if os.path.isabs(replacement):
                 raise GypError('| cannot handle absolute paths, got "%s"' % replacement)
-- 
2.43.0


From fac86fdc78e0d166f8276eb88e830086d228efc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:04 +0000
Subject: [PATCH 04/81] fix: a list reference next to an empty expansion was
 spliced into its parent

---
 gyp/pylib/gyp/input.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/gyp/pylib/gyp/input.py b/gyp/pylib/gyp/input.py
index 486ffac..e1f6ffa 100644
--- a/gyp/pylib/gyp/input.py
+++ b/gyp/pylib/gyp/input.py
@@ -851,8 +851,13 @@ def ExpandVariables(input, phase, variables, build_file):
         # is to be expecting a list in return, and not all callers do
         # because not all are working in list context.  Also, for list
         # expansions, there can be no other text besides the variable
-        # expansion in the input string.
-        expand_to_list = "@" in match["type"] and input_str == replacement
+        # expansion in the input string, as it was before other expansions in
+        # it were replaced by nothing.
+        expand_to_list = (
+            "@" in match["type"]
+            and input_str == replacement
+            and FindEnclosingBracketGroup(str(input))[1] == len(str(input))
+        )
 
         if run_command or file_list:
             # Find the build file's directory, so commands can be run or file lists
-- 
2.43.0


From 56b06c758e0eeff9583209354a3057c39a0df5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:25 +0000
Subject: [PATCH 05/81] fix: referring to a list from an inner scope expanded
 the outer scope's list with inner values

---
 gyp/pylib/gyp/input.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gyp/pylib/gyp/input.py b/gyp/pylib/gyp/input.py
index e1f6ffa..f0cf5c4 100644
--- a/gyp/pylib/gyp/input.py
+++ b/gyp/pylib/gyp/input.py
@@ -1031,7 +1031,9 @@ def ExpandVariables(input, phase, variables, build_file):
                     )
             # Run through the list and handle variable expansions in it.  Since
             # the list is guaranteed not to contain dicts, this won't do anything
-            # with conditions sections.
+            # with conditions sections.  Expand a copy: the list belongs to the
+            # scope that defines it, which may see other values than this one.
+            replacement = gyp.simple_copy.deepcopy(replacement)
             ProcessVariablesAndConditionsInList(
                 replacement, phase, variables, build_file
             )
-- 
2.43.0


From b0ffc6ce8d17827cf05e208173b4e9dd70df4054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:44 +0000
Subject: [PATCH 06/81] fix: a condition that expands to an integer raised
 TypeError

---
 gyp/pylib/gyp/input.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gyp/pylib/gyp/input.py b/gyp/pylib/gyp/input.py
index f0cf5c4..8c7034b 100644
--- a/gyp/pylib/gyp/input.py
+++ b/gyp/pylib/gyp/input.py
@@ -1184,7 +1184,7 @@ def EvalSingleCondition(cond_expr, true_dict, false_dict, phase, variables, buil
         if cond_expr_expanded in cached_conditions_asts:
             ast_code = cached_conditions_asts[cond_expr_expanded]
         else:
-            ast_code = compile(cond_expr_expanded, "<string>", "eval")
+            ast_code = compile(str(cond_expr_expanded), "<string>", "eval")
             cached_conditions_asts[cond_expr_expanded] = ast_code
         env = {"__builtins__": {}, "v": Version}
         if eval(ast_code, env, variables):
-- 
2.43.0


From ccdf471bc476e71fa680fff06e038237cabee8f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:29 +0000
Subject: [PATCH 07/81] fix: a regular expression filter over a list with
 integers raised TypeError

---
 gyp/pylib/gyp/input.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gyp/pylib/gyp/input.py b/gyp/pylib/gyp/input.py
index 8c7034b..3d0904d 100644
--- a/gyp/pylib/gyp/input.py
+++ b/gyp/pylib/gyp/input.py
@@ -2613,7 +2613,7 @@ def ProcessListFiltersInDict(name, the_dict):
         if regex_key in the_dict:
             for regex_item in the_dict[regex_key]:
                 [action, pattern] = regex_item
-                pattern_re = re.compile(pattern)
+                pattern_re = re.compile(str(pattern))
 
                 if action == "exclude":
                     # This item matches an exclude regex, set its value to 0 (exclude).
@@ -2637,7 +2637,7 @@ def ProcessListFiltersInDict(name, the_dict):
                         # Even if the regex matches, nothing will change so continue
                         # (regex searches are expensive).
                         continue
-                    if pattern_re.search(list_item):
+                    if pattern_re.search(str(list_item)):
                         # Regular expression match.
                         list_actions[index] = action_value
 
-- 
2.43.0


From 66c5c0f86e1f573dda842881b14cb0d1e76dd121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:35 +0000
Subject: [PATCH 08/81] fix: a dependency cycle apart from the targets without
 dependencies was reported without naming it

---
 gyp/pylib/gyp/input.py | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/gyp/pylib/gyp/input.py b/gyp/pylib/gyp/input.py
index 3d0904d..b1206df 100644
--- a/gyp/pylib/gyp/input.py
+++ b/gyp/pylib/gyp/input.py
@@ -1978,13 +1978,11 @@ def BuildDependencyList(targets):
     # If there's anything left unvisited, there must be a circular dependency
     # (cycle).
     if len(flat_list) != len(targets):
-        if not root_node.dependents:
-            # If all targets have dependencies, add the first target as a dependent
-            # of root_node so that the cycle can be discovered from root_node.
-            target = next(iter(targets))
-            target_node = dependency_nodes[target]
-            target_node.dependencies.append(root_node)
-            root_node.dependents.append(target_node)
+        # Add every unvisited target as a dependent of root_node so that the cycles
+        # can be discovered from root_node.
+        for target in targets:
+            if target not in flat_list:
+                root_node.dependents.append(dependency_nodes[target])
 
         cycles = []
         for cycle in root_node.FindCycles():
@@ -2042,12 +2040,11 @@ def VerifyNoGYPFileCircularDependencies(targets):
     # If there's anything left unvisited, there must be a circular dependency
     # (cycle).
     if len(flat_list) != len(dependency_nodes):
-        if not root_node.dependents:
-            # If all files have dependencies, add the first file as a dependent
-            # of root_node so that the cycle can be discovered from root_node.
-            file_node = next(iter(dependency_nodes.values()))
-            file_node.dependencies.append(root_node)
-            root_node.dependents.append(file_node)
+        # Add every unvisited file as a dependent of root_node so that the cycles
+        # can be discovered from root_node.
+        for build_file, file_node in dependency_nodes.items():
+            if build_file not in flat_list:
+                root_node.dependents.append(file_node)
         cycles = []
         for cycle in root_node.FindCycles():
             paths = [node.ref for node in cycle]
-- 
2.43.0


From cd2ca44c5cb20f4b128677ed45c2ca8f6f43c634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:02 +0000
Subject: [PATCH 09/81] fix: the eclipse generator crashed on a configuration
 without cflags or defines

---
 gyp/pylib/gyp/generator/eclipse.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gyp/pylib/gyp/generator/eclipse.py b/gyp/pylib/gyp/generator/eclipse.py
index 52aeae6..b4079f1 100644
--- a/gyp/pylib/gyp/generator/eclipse.py
+++ b/gyp/pylib/gyp/generator/eclipse.py
@@ -140,7 +140,7 @@ def GetAllIncludeDirectories(
                 msvs_settings = gyp.msvs_emulation.MsvsSettings(target, generator_flags)
                 cflags = msvs_settings.GetCflags(config_name)
             else:
-                cflags = config["cflags"]
+                cflags = config.get("cflags", [])
             for cflag in cflags:
                 if cflag.startswith("-I"):
                     include_dir = cflag[2:]
@@ -221,7 +221,7 @@ def GetAllDefines(target_list, target_dicts, data, config_name, params, compiler
             extra_defines = []
         if config_name in target["configurations"]:
             config = target["configurations"][config_name]
-            target_defines = config["defines"]
+            target_defines = config.get("defines", [])
         else:
             target_defines = []
         for define in target_defines + extra_defines:
-- 
2.43.0


From d4c736b9e3d474204216d98c2a34800cf0e94809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:43 +0000
Subject: [PATCH 10/81] fix: exporting settings of a non-dependency raised
 KeyError in a target without dependencies

---
 gyp/pylib/gyp/input.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gyp/pylib/gyp/input.py b/gyp/pylib/gyp/input.py
index b1206df..13290fe 100644
--- a/gyp/pylib/gyp/input.py
+++ b/gyp/pylib/gyp/input.py
@@ -1508,7 +1508,7 @@ def QualifyDependencies(targets):
                 # appears in the "dependencies" list.
                 if (
                     dependency_key != "dependencies"
-                    and dependency not in target_dict["dependencies"]
+                    and dependency not in target_dict.get("dependencies", [])
                 ):
                     raise GypError(
                         "Found "
-- 
2.43.0


From 35c98fe6601889d9d8357d85928562aa8cb7c367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:57 +0000
Subject: [PATCH 11/81] fix: make: keep defines with a backslash before '#'
 intact

EscapeCppDefine escaped '#' with a backslash, but a backslash already in
front of it then escaped that one, and make took the rest of the line for
a comment.
---
 gyp/pylib/gyp/generator/make.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gyp/pylib/gyp/generator/make.py b/gyp/pylib/gyp/generator/make.py
index 634da89..7f5dc66 100644
--- a/gyp/pylib/gyp/generator/make.py
+++ b/gyp/pylib/gyp/generator/make.py
@@ -722,8 +722,9 @@ def EscapeCppDefine(s):
     s = EscapeShellArgument(s)
     s = EscapeMakeVariableExpansion(s)
     # '#' characters must be escaped even embedded in a string, else Make will
-    # treat it as the start of a comment.
-    return s.replace("#", r"\#")
+    # treat it as the start of a comment. Backslashes right before a '#' must be
+    # doubled, or they would escape the one added here.
+    return re.sub(r"(\\*)#", r"\1\1\\#", s)
 
 
 def QuoteIfNecessary(string):
-- 
2.43.0


From aa29d85979f4c4c33a1814bfd3a93563e2d85a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:53 +0000
Subject: [PATCH 12/81] fix: ninja: quote arguments that hold a backslash

QuoteShellArgument left them unquoted on every platform, so a POSIX shell
dropped the backslash from defines such as X=\n.
---
 gyp/pylib/gyp/generator/ninja.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gyp/pylib/gyp/generator/ninja.py b/gyp/pylib/gyp/generator/ninja.py
index ae3dded..339c5f6 100644
--- a/gyp/pylib/gyp/generator/ninja.py
+++ b/gyp/pylib/gyp/generator/ninja.py
@@ -76,7 +76,8 @@ def QuoteShellArgument(arg, flavor):
     by the shell."""
     # Rather than attempting to enumerate the bad shell characters, just
     # allow common OK ones and quote anything else.
-    if re.match(r"^[a-zA-Z0-9_=.\\/-]+$", arg):
+    # A backslash is only common and OK on Windows; elsewhere the shell eats it.
+    if re.match(r"^[a-zA-Z0-9_=.\\/-]+$", arg) and (flavor == "win" or "\\" not in arg):
         return arg  # No quoting necessary.
     if flavor == "win":
         return gyp.msvs_emulation.QuoteForRspFile(arg)
-- 
2.43.0


From 264e5896db4a6e8a5ca23dd61285061e80ec8372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:32 +0000
Subject: [PATCH 13/81] fix: make: allow '%' next to rule input variables

ExpandInputRoot ran the whole string through the % operator, so an argument
such as '100%-<(RULE_INPUT_ROOT)' raised ValueError.
---
 gyp/pylib/gyp/generator/make.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/gyp/pylib/gyp/generator/make.py b/gyp/pylib/gyp/generator/make.py
index 7f5dc66..5ef61c4 100644
--- a/gyp/pylib/gyp/generator/make.py
+++ b/gyp/pylib/gyp/generator/make.py
@@ -2336,13 +2336,8 @@ $(obj).$(TOOLSET)/$(TARGET)/%%.o: $(obj)/%%%s FORCE_DO_CMD
         return os.path.normpath(os.path.join(self.path, path))
 
     def ExpandInputRoot(self, template, expansion, dirname):
-        if "%(INPUT_ROOT)s" not in template and "%(INPUT_DIRNAME)s" not in template:
-            return template
-        path = template % {
-            "INPUT_ROOT": expansion,
-            "INPUT_DIRNAME": dirname,
-        }
-        return path
+        path = template.replace("%(INPUT_ROOT)s", expansion)
+        return path.replace("%(INPUT_DIRNAME)s", dirname)
 
     def _InstallableTargetInstallPath(self):
         """Returns the location of the final output for an installable target."""
-- 
2.43.0


From 17f8d8de15d045a5ad8154be27d9203dcddf4f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:32 +0000
Subject: [PATCH 14/81] fix: make: escape '#' in the commands of actions and
 rules

The command is assigned to a make variable, where an unescaped '#' starts a
comment: the rest of the command line was dropped.
---
 gyp/pylib/gyp/generator/make.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/gyp/pylib/gyp/generator/make.py b/gyp/pylib/gyp/generator/make.py
index 5ef61c4..eb839af 100644
--- a/gyp/pylib/gyp/generator/make.py
+++ b/gyp/pylib/gyp/generator/make.py
@@ -721,6 +721,11 @@ def EscapeCppDefine(s):
     """Escapes a CPP define so that it will reach the compiler unaltered."""
     s = EscapeShellArgument(s)
     s = EscapeMakeVariableExpansion(s)
+    return EscapeMakeComment(s)
+
+
+def EscapeMakeComment(s):
+    """Escapes the '#' characters of a value assigned to a make variable."""
     # '#' characters must be escaped even embedded in a string, else Make will
     # treat it as the start of a comment. Backslashes right before a '#' must be
     # doubled, or they would escape the one added here.
@@ -1054,6 +1059,7 @@ $(obj).$(TOOLSET)/$(TARGET)/%%.o: $(obj)/%%%s FORCE_DO_CMD
                     for command in action_commands
                 ]
             command = gyp.common.EncodePOSIXShellList(action_commands)
+            command = EscapeMakeComment(command)
             if "message" in action:
                 self.WriteLn(
                     "quiet_cmd_{} = ACTION {} $@".format(name, action["message"])
@@ -1238,6 +1244,7 @@ $(obj).$(TOOLSET)/$(TARGET)/%%.o: $(obj)/%%%s FORCE_DO_CMD
                         for command in action
                     ]
                 action = gyp.common.EncodePOSIXShellList(action)
+                action = EscapeMakeComment(action)
                 action = action.replace("$(TARGET)", self.target)
                 cd_action = cd_action.replace("$(TARGET)", self.target)
                 mkdirs = mkdirs.replace("$(TARGET)", self.target)
-- 
2.43.0


From a29e8af1ada14dc63cbb7d92cae3f892e6980d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:07 +0000
Subject: [PATCH 15/81] fix: make: give every action and rule a command
 variable of its own

The variable's name was made from the action's or rule's name with other
characters replaced, so 'gen-a' and 'gen_a' (or the rule 'gen' and the
action 'gen_0') shared one and ran the command of the last one written.
---
 gyp/pylib/gyp/generator/make.py | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/gyp/pylib/gyp/generator/make.py b/gyp/pylib/gyp/generator/make.py
index eb839af..af0fe31 100644
--- a/gyp/pylib/gyp/generator/make.py
+++ b/gyp/pylib/gyp/generator/make.py
@@ -777,6 +777,17 @@ target_outputs = {}
 # include liba in the linker line; when otherbinary depends on
 # mybinary, we just want to build mybinary first.
 target_link_deps = {}
+# Names of the commands of actions and rules written so far.
+command_names = set()
+
+
+def UniqueCommandName(name):
+    """Turns a name into a make variable name that no other command has."""
+    name = StringToMakefileVariable(name)
+    while name in command_names:
+        name += "_"
+    command_names.add(name)
+    return name
 
 
 class MakefileWriter:
@@ -1032,7 +1043,7 @@ $(obj).$(TOOLSET)/$(TARGET)/%%.o: $(obj)/%%%s FORCE_DO_CMD
         """
         env = self.GetSortedXcodeEnv()
         for action in actions:
-            name = StringToMakefileVariable(
+            name = UniqueCommandName(
                 "{}_{}".format(self.qualified_target, action["action_name"])
             )
             self.WriteLn('### Rules for action "%s":' % action["action_name"])
@@ -1157,7 +1168,7 @@ $(obj).$(TOOLSET)/$(TARGET)/%%.o: $(obj)/%%%s FORCE_DO_CMD
         """
         env = self.GetSortedXcodeEnv()
         for rule in rules:
-            name = StringToMakefileVariable(
+            name = UniqueCommandName(
                 "{}_{}".format(self.qualified_target, rule["rule_name"])
             )
             count = 0
@@ -1189,7 +1200,8 @@ $(obj).$(TOOLSET)/$(TARGET)/%%.o: $(obj)/%%%s FORCE_DO_CMD
                     Sourceify(self.Absolutify(i))
                     for i in [rule_source] + rule.get("inputs", [])
                 ]
-                actions = ["$(call do_cmd,%s_%d)" % (name, count)]
+                command = UniqueCommandName("%s_%d" % (name, count))
+                actions = ["$(call do_cmd,%s)" % command]
 
                 if name == "resources_grit":
                     # HACK: This is ugly.  Grit intentionally doesn't touch the
@@ -1211,9 +1223,7 @@ $(obj).$(TOOLSET)/$(TARGET)/%%.o: $(obj)/%%%s FORCE_DO_CMD
                 # accidentally writing duplicate dummy rules for those outputs.
                 self.WriteLn("%s: obj := $(abs_obj)" % outputs[0])
                 self.WriteLn("%s: builddir := $(abs_builddir)" % outputs[0])
-                self.WriteMakeRule(
-                    outputs, inputs, actions, command="%s_%d" % (name, count)
-                )
+                self.WriteMakeRule(outputs, inputs, actions, command=command)
                 # Spaces in rule filenames are not supported, but rule variables have
                 # spaces in them (e.g. RULE_INPUT_PATH expands to '$(abspath $<)').
                 # The spaces within the variables are valid, so remove the variables
@@ -1256,21 +1266,20 @@ $(obj).$(TOOLSET)/$(TARGET)/%%.o: $(obj)/%%%s FORCE_DO_CMD
                 # target libraries.
                 # TODO(piman): when everything is cross-compile safe, remove lib.target
                 self.WriteLn(
-                    "cmd_%(name)s_%(count)d = LD_LIBRARY_PATH="
+                    "cmd_%(command)s = LD_LIBRARY_PATH="
                     "$(builddir)/lib.host:$(builddir)/lib.target:$$LD_LIBRARY_PATH; "
                     "export LD_LIBRARY_PATH; "
                     "%(cd_action)s%(mkdirs)s%(action)s"
                     % {
                         "action": action,
                         "cd_action": cd_action,
-                        "count": count,
+                        "command": command,
                         "mkdirs": mkdirs,
-                        "name": name,
                     }
                 )
                 self.WriteLn(
-                    "quiet_cmd_%(name)s_%(count)d = RULE %(name)s_%(count)d $@"
-                    % {"count": count, "name": name}
+                    "quiet_cmd_%(command)s = RULE %(command)s $@"
+                    % {"command": command}
                 )
                 self.WriteLn()
                 count += 1
@@ -2407,6 +2416,7 @@ def PerformBuild(data, configurations, params):
 
 
 def GenerateOutput(target_list, target_dicts, data, params):
+    command_names.clear()
     options = params["options"]
     flavor = gyp.common.GetFlavor(params)
     generator_flags = params.get("generator_flags", {})
-- 
2.43.0


From 0d35532e53f826aed1c3bd80738de1c650d948b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:23 +0000
Subject: [PATCH 16/81] fix: ninja: do not break lines between two spaces

Ninja skips the leading spaces of a continuation line, so an argument
with several spaces in a row lost some of them, depending on where the
line happened to be wrapped.
---
 gyp/pylib/gyp/ninja_syntax.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/gyp/pylib/gyp/ninja_syntax.py b/gyp/pylib/gyp/ninja_syntax.py
index 0e3e86c..17c752c 100644
--- a/gyp/pylib/gyp/ninja_syntax.py
+++ b/gyp/pylib/gyp/ninja_syntax.py
@@ -121,6 +121,16 @@ class Writer:
             dollar_index -= 1
         return dollar_count
 
+    def _can_wrap_at(self, text, space):
+        """Returns whether a line may be continued after the space at index |space|.
+
+        Ninja skips the spaces a continuation line starts with, so there must be
+        no other space behind this one."""
+        return (
+            self._count_dollars_before_index(text, space) % 2 == 0
+            and text[space + 1 : space + 2] != " "
+        )
+
     def _line(self, text, indent=0):
         """Write 'text' word-wrapped at self.width characters."""
         leading_space = "  " * indent
@@ -133,7 +143,7 @@ class Writer:
             space = available_space
             while True:
                 space = text.rfind(" ", 0, space)
-                if space < 0 or self._count_dollars_before_index(text, space) % 2 == 0:
+                if space < 0 or self._can_wrap_at(text, space):
                     break
 
             if space < 0:
@@ -141,10 +151,7 @@ class Writer:
                 space = available_space - 1
                 while True:
                     space = text.find(" ", space + 1)
-                    if (
-                        space < 0
-                        or self._count_dollars_before_index(text, space) % 2 == 0
-                    ):
+                    if space < 0 or self._can_wrap_at(text, space):
                         break
             if space < 0:
                 # Give up on breaking.
-- 
2.43.0


From fa6b0e76d53fb7452d491f0b82361a3ed546ca92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:24 +0000
Subject: [PATCH 17/81] fix: make: write the same makefiles every time

Several lists in the makefiles were written in the iteration order of a
set, which differs from process to process.
---
 gyp/pylib/gyp/generator/make.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/gyp/pylib/gyp/generator/make.py b/gyp/pylib/gyp/generator/make.py
index af0fe31..c0878e5 100644
--- a/gyp/pylib/gyp/generator/make.py
+++ b/gyp/pylib/gyp/generator/make.py
@@ -955,7 +955,7 @@ $(obj).$(TOOLSET)/$(TARGET)/%%.o: $(obj)/%%%s FORCE_DO_CMD
             sources = [x for x in all_sources if Compilable(x)]
             if sources:
                 self.WriteLn(SHARED_HEADER_SUFFIX_RULES_COMMENT1)
-                extensions = {os.path.splitext(s)[1] for s in sources}
+                extensions = sorted({os.path.splitext(s)[1] for s in sources})
                 for ext in extensions:
                     if ext in self.suffix_rules_srcdir:
                         self.WriteLn(self.suffix_rules_srcdir[ext])
@@ -1078,7 +1078,7 @@ $(obj).$(TOOLSET)/$(TARGET)/%%.o: $(obj)/%%%s FORCE_DO_CMD
             else:
                 self.WriteLn(f"quiet_cmd_{name} = ACTION {name} $@")
             if len(dirs) > 0:
-                command = "mkdir -p %s" % " ".join(dirs) + "; " + command
+                command = "mkdir -p %s" % " ".join(sorted(dirs)) + "; " + command
 
             cd_action = "cd %s; " % Sourceify(self.path or ".")
 
@@ -1242,7 +1242,7 @@ $(obj).$(TOOLSET)/$(TARGET)/%%.o: $(obj)/%%%s FORCE_DO_CMD
                 ]
                 mkdirs = ""
                 if len(dirs) > 0:
-                    mkdirs = "mkdir -p %s; " % " ".join(dirs)
+                    mkdirs = "mkdir -p %s; " % " ".join(sorted(dirs))
                 cd_action = "cd %s; " % Sourceify(self.path or ".")
 
                 # action, cd_action, and mkdirs get written to a toplevel variable
@@ -2395,7 +2395,7 @@ def WriteAutoRegenerationRule(params, root_makefile, makefile_name, build_files)
         % {
             "makefile_name": makefile_name,
             "deps": replace_sep(
-                " ".join(SourceifyAndQuoteSpaces(bf) for bf in build_files)
+                " ".join(SourceifyAndQuoteSpaces(bf) for bf in sorted(build_files))
             ),
             "cmd": replace_sep(gyp.common.EncodePOSIXShellList(
                 [gyp_binary, "-fmake"] + gyp.RegenerateFlags(options) + build_files_args
@@ -2446,7 +2446,7 @@ def GenerateOutput(target_list, target_dicts, data, params):
     # away when we add verification that all targets have the
     # necessary configurations.
     default_configuration = None
-    toolsets = {target_dicts[target]["toolset"] for target in target_list}
+    toolsets = sorted({target_dicts[target]["toolset"] for target in target_list})
     for target in target_list:
         spec = target_dicts[target]
         if spec["default_configuration"] != "Default":
@@ -2710,7 +2710,7 @@ def GenerateOutput(target_list, target_dicts, data, params):
 
     # Write out per-gyp (sub-project) Makefiles.
     depth_rel_path = gyp.common.RelativePath(options.depth, os.getcwd())
-    for build_file in build_files:
+    for build_file in sorted(build_files):
         # The paths in build_files were relativized above, so undo that before
         # testing against the non-relativized items in target_list and before
         # calculating the Makefile path.
-- 
2.43.0


From df4ae43f7fd9750a9ebb9a77c5d0a850357c8128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:53 +0000
Subject: [PATCH 18/81] fix: make: regenerate when an included build file is
 gone

Deleting an include file along with the reference to it left make with no
rule to make the file, and so unable to regenerate the makefiles.
---
 gyp/pylib/gyp/generator/make.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gyp/pylib/gyp/generator/make.py b/gyp/pylib/gyp/generator/make.py
index c0878e5..f0707b4 100644
--- a/gyp/pylib/gyp/generator/make.py
+++ b/gyp/pylib/gyp/generator/make.py
@@ -2392,6 +2392,8 @@ def WriteAutoRegenerationRule(params, root_makefile, makefile_name, build_files)
         "cmd_regen_makefile = cd $(srcdir); %(cmd)s\n"
         "%(makefile_name)s: %(deps)s\n"
         "\t$(call do_cmd,regen_makefile)\n\n"
+        "# A build file may be gone because the others no longer refer to it.\n"
+        "%(deps)s:\n\n"
         % {
             "makefile_name": makefile_name,
             "deps": replace_sep(
-- 
2.43.0


From 48812b0de9a2b01d7003a16748850e9cfe77ffc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:33 +0000
Subject: [PATCH 19/81] fix: load build files and order targets independently
 of hash seeds

The build files to load and the files holding targets were kept in sets, so
the order of the targets, and with it the output of generators that follow
it, differed from run to run.
---
 gyp/pylib/gyp/input.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gyp/pylib/gyp/input.py b/gyp/pylib/gyp/input.py
index 13290fe..d76e73a 100644
--- a/gyp/pylib/gyp/input.py
+++ b/gyp/pylib/gyp/input.py
@@ -1460,7 +1460,7 @@ def BuildTargetsDict(data):
   """
 
     targets = {}
-    for build_file in data["target_build_files"]:
+    for build_file in sorted(data["target_build_files"]):
         for target in data[build_file].get("targets", []):
             target_name = gyp.common.QualifiedTarget(
                 build_file, target["target_name"], target["toolset"]
@@ -2981,7 +2981,7 @@ def Load(
     data = {"target_build_files": set()}
     # Normalize paths everywhere.  This is important because paths will be
     # used as keys to the data dict and for references between input files.
-    build_files = set(map(os.path.normpath, build_files))
+    build_files = list(dict.fromkeys(map(os.path.normpath, build_files)))
     if parallel:
         LoadTargetBuildFilesParallel(
             build_files, data, variables, includes, depth, check, generator_input_info
-- 
2.43.0


From f6691a6d290460e0b0aab990e5f60c1116feba53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:07 +0000
Subject: [PATCH 20/81] fix: msvs, android: write the same files whatever the
 hash seed

---
 gyp/pylib/gyp/generator/android.py | 4 ++--
 gyp/pylib/gyp/generator/msvs.py    | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/gyp/pylib/gyp/generator/android.py b/gyp/pylib/gyp/generator/android.py
index 64da385..b55dad4 100644
--- a/gyp/pylib/gyp/generator/android.py
+++ b/gyp/pylib/gyp/generator/android.py
@@ -289,7 +289,7 @@ class AndroidMkWriter:
             else:
                 quiet_cmd = "Gyp action: %s ($@)" % name
             if len(dirs) > 0:
-                command = "mkdir -p %s" % " ".join(dirs) + "; " + command
+                command = "mkdir -p %s" % " ".join(sorted(dirs)) + "; " + command
 
             cd_action = "cd $(gyp_local_path)/%s; " % self.path
             command = cd_action + command
@@ -415,7 +415,7 @@ class AndroidMkWriter:
                 cd_action = "cd $(gyp_local_path)/%s; " % self.path
                 command = cd_action + command
                 if dirs:
-                    command = "mkdir -p %s" % " ".join(dirs) + "; " + command
+                    command = "mkdir -p %s" % " ".join(sorted(dirs)) + "; " + command
 
                 # We set up a rule to build the first output, and then set up
                 # a rule for each additional output to depend on the first.
diff --git a/gyp/pylib/gyp/generator/msvs.py b/gyp/pylib/gyp/generator/msvs.py
index bea6e64..36e87ca 100644
--- a/gyp/pylib/gyp/generator/msvs.py
+++ b/gyp/pylib/gyp/generator/msvs.py
@@ -2116,7 +2116,7 @@ def GenerateOutput(target_list, target_dicts, data, params):
             configs.add(config_name)
             if config_name == "Release|arm64":
                 configs.add("Release|x64")
-    configs = list(configs)
+    configs = sorted(configs)
 
     # Figure out all the projects that will be generated and their guids
     project_objects = _CreateProjectObjects(
@@ -3872,7 +3872,7 @@ def _GetMSBuildExternalBuilderTargets(spec):
 
 def _GetMSBuildExtensions(props_files_of_rules):
     extensions = ["ImportGroup", {"Label": "ExtensionSettings"}]
-    for props_file in props_files_of_rules:
+    for props_file in sorted(props_files_of_rules):
         extensions.append(["Import", {"Project": props_file}])
     return [extensions]
 
-- 
2.43.0


From b46f9ef8c66314c335e84c6383d462f95caf432d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:35 +0000
Subject: [PATCH 21/81] fix: write XML files under any locale, and only when
 they change

---
 gyp/pylib/gyp/easy_xml.py | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/gyp/pylib/gyp/easy_xml.py b/gyp/pylib/gyp/easy_xml.py
index 02567b2..b5f8119 100644
--- a/gyp/pylib/gyp/easy_xml.py
+++ b/gyp/pylib/gyp/easy_xml.py
@@ -5,7 +5,6 @@
 import sys
 import re
 import os
-import locale
 from functools import reduce
 
 
@@ -121,25 +120,19 @@ def WriteXmlIfChanged(content, path, encoding="utf-8", pretty=False,
     if win32 and os.linesep != "\r\n":
         xml_string = xml_string.replace("\n", "\r\n")
 
-    try:  # getdefaultlocale() was removed in Python 3.11
-        default_encoding = locale.getdefaultlocale()[1]
-    except AttributeError:
-        default_encoding = locale.getencoding()
-
-    if default_encoding and default_encoding.upper() != encoding.upper():
-        xml_string = xml_string.encode(encoding)
+    xml_bytes = xml_string.encode(encoding)
 
     # Get the old content
     try:
-        with open(path) as file:
+        with open(path, "rb") as file:
             existing = file.read()
     except OSError:
         existing = None
 
     # It has changed, write it
-    if existing != xml_string:
+    if existing != xml_bytes:
         with open(path, "wb") as file:
-            file.write(xml_string)
+            file.write(xml_bytes)
 
 
 _xml_escape_map = {
-- 
2.43.0


From ee55d24ffbe0c353a64d9fe733e0edd566c8fa6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:44 +0000
Subject: [PATCH 22/81] fix: cmake: create output directories in a fixed order

---
 gyp/pylib/gyp/generator/cmake.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gyp/pylib/gyp/generator/cmake.py b/gyp/pylib/gyp/generator/cmake.py
index 8720a3d..1e3d428 100644
--- a/gyp/pylib/gyp/generator/cmake.py
+++ b/gyp/pylib/gyp/generator/cmake.py
@@ -276,7 +276,7 @@ def WriteActions(target_name, actions, extra_sources, extra_deps, path_to_gyp, o
 
         # Build up a list of outputs.
         # Collect the output dirs we'll need.
-        dirs = {dir for dir in (os.path.dirname(o) for o in outputs) if dir}
+        dirs = sorted({dir for dir in map(os.path.dirname, outputs) if dir})
 
         if int(action.get("process_outputs_as_sources", False)):
             extra_sources.extend(zip(cmake_outputs, outputs))
@@ -371,7 +371,7 @@ def WriteRules(target_name, rules, extra_sources, extra_deps, path_to_gyp, outpu
 
             # Build up a list of outputs.
             # Collect the output dirs we'll need.
-            dirs = {dir for dir in (os.path.dirname(o) for o in outputs) if dir}
+            dirs = sorted({dir for dir in map(os.path.dirname, outputs) if dir})
 
             # Create variables for the output, as 'local' variable will be unset.
             these_outputs = []
-- 
2.43.0


From 271f6c50da8769d16b1d68068b0abfd61347eed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:55 +0000
Subject: [PATCH 23/81] fix: make: order commands with several outputs after
 the dependencies

---
 gyp/pylib/gyp/generator/make.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gyp/pylib/gyp/generator/make.py b/gyp/pylib/gyp/generator/make.py
index f0707b4..84bfc7e 100644
--- a/gyp/pylib/gyp/generator/make.py
+++ b/gyp/pylib/gyp/generator/make.py
@@ -880,6 +880,8 @@ $(obj).$(TOOLSET)/$(TARGET)/%%.o: $(obj)/%%%s FORCE_DO_CMD
         # link dependencies.  All of the out params of the functions that
         # follow use names like extra_foo.
         extra_outputs = []
+        # Files standing for the commands that make several of these outputs.
+        self.intermediates = []
         extra_sources = []
         extra_link_deps = []
         extra_mac_bundle_resources = []
@@ -1714,7 +1716,7 @@ $(obj).$(TOOLSET)/$(TARGET)/%%.o: $(obj)/%%%s FORCE_DO_CMD
         if extra_outputs:
             self.WriteDependencyOnExtraOutputs(self.output_binary, extra_outputs)
             self.WriteMakeRule(
-                extra_outputs,
+                extra_outputs + self.intermediates,
                 deps,
                 comment=("Preserve order dependency of " "special output on deps."),
                 order_only=True,
@@ -2184,6 +2186,7 @@ $(obj).$(TOOLSET)/$(TARGET)/%%.o: $(obj)/%%%s FORCE_DO_CMD
                 (command or self.target).encode("utf-8")
             ).hexdigest()
             intermediate = "%s.intermediate" % cmddigest
+            self.intermediates.append(intermediate)
             self.WriteLn("{}: {}".format(" ".join(outputs), intermediate))
             self.WriteLn("\t%s" % "@:")
             self.WriteLn("{}: {}".format(".INTERMEDIATE", intermediate))
-- 
2.43.0


From 688f86047978e914387fe05b5634be2c669b7104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:41 +0000
Subject: [PATCH 24/81] fix: ninja: order every rule after the dependencies,
 also after one with many inputs

---
 gyp/pylib/gyp/generator/ninja.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gyp/pylib/gyp/generator/ninja.py b/gyp/pylib/gyp/generator/ninja.py
index 339c5f6..c9aeee7 100644
--- a/gyp/pylib/gyp/generator/ninja.py
+++ b/gyp/pylib/gyp/generator/ninja.py
@@ -746,6 +746,7 @@ class NinjaWriter:
             # write m * n inputs. Collapsing reduces this to m + n.
             sources = rule.get("rule_sources", [])
             num_inputs = len(inputs)
+            order_only = prebuild
             if prebuild:
                 num_inputs += 1
             if num_inputs > 2 and len(sources) > 2:
@@ -754,7 +755,7 @@ class NinjaWriter:
                         rule["rule_name"], inputs, order_only=prebuild
                     )
                 ]
-                prebuild = []
+                order_only = []
 
             # For each source file, write an edge that generates all the outputs.
             for source in sources:
@@ -822,7 +823,7 @@ class NinjaWriter:
                     rule_name,
                     self.GypPathToNinja(source),
                     implicit=inputs,
-                    order_only=prebuild,
+                    order_only=order_only,
                     variables=extra_bindings,
                 )
 
-- 
2.43.0


From 4eae5c663e32b31af3365cb596966469b1550a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:59 +0000
Subject: [PATCH 25/81] fix: make: run commands with several outputs with
 absolute output directories

make may run such a command on behalf of any of its outputs; on behalf of
other than the first, it wrote the files to the wrong directory when the .gyp
file was in a subdirectory.
---
 gyp/pylib/gyp/generator/make.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/gyp/pylib/gyp/generator/make.py b/gyp/pylib/gyp/generator/make.py
index 84bfc7e..afce8ee 100644
--- a/gyp/pylib/gyp/generator/make.py
+++ b/gyp/pylib/gyp/generator/make.py
@@ -1116,12 +1116,12 @@ $(obj).$(TOOLSET)/$(TARGET)/%%.o: $(obj)/%%%s FORCE_DO_CMD
             # are defined relative to their containing dir.  This replaces the obj
             # variable for the action rule with an absolute version so that the output
             # goes in the right place.
-            # Only write the 'obj' and 'builddir' rules for the "primary" output (:1);
-            # it's superfluous for the "extra outputs", and this avoids accidentally
-            # writing duplicate dummy rules for those outputs.
-            # Same for environment.
-            self.WriteLn("%s: obj := $(abs_obj)" % QuoteSpaces(outputs[0]))
-            self.WriteLn("%s: builddir := $(abs_builddir)" % QuoteSpaces(outputs[0]))
+            # This is needed for all outputs, as make runs the action on behalf of
+            # whichever output it needs first.
+            quoted_outputs = " ".join(QuoteSpaces(o) for o in outputs)
+            self.WriteLn("%s: obj := $(abs_obj)" % quoted_outputs)
+            self.WriteLn("%s: builddir := $(abs_builddir)" % quoted_outputs)
+            # Only write the environment for the "primary" output (:1).
             self.WriteSortedXcodeEnv(outputs[0], self.GetSortedXcodeEnv())
 
             for input in inputs:
@@ -1220,11 +1220,9 @@ $(obj).$(TOOLSET)/$(TARGET)/%%.o: $(obj)/%%%s FORCE_DO_CMD
 
                 outputs = [self.Absolutify(o) for o in outputs]
                 all_outputs += outputs
-                # Only write the 'obj' and 'builddir' rules for the "primary" output
-                # (:1); it's superfluous for the "extra outputs", and this avoids
-                # accidentally writing duplicate dummy rules for those outputs.
-                self.WriteLn("%s: obj := $(abs_obj)" % outputs[0])
-                self.WriteLn("%s: builddir := $(abs_builddir)" % outputs[0])
+                # As for actions, write the 'obj' and 'builddir' rules for all outputs.
+                self.WriteLn("%s: obj := $(abs_obj)" % " ".join(outputs))
+                self.WriteLn("%s: builddir := $(abs_builddir)" % " ".join(outputs))
                 self.WriteMakeRule(outputs, inputs, actions, command=command)
                 # Spaces in rule filenames are not supported, but rule variables have
                 # spaces in them (e.g. RULE_INPUT_PATH expands to '$(abspath $<)').
-- 
2.43.0


From 0d64c0c1de13d70cc52b794f2a69cc9d5ab1808c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:03 +0000
Subject: [PATCH 26/81] fix: msvs: keep AdditionalOptions when a setting
 becomes one of its flags

A setting converted to a flag was lost when AdditionalOptions followed it, and
turned a list of options into its Python representation.
---
 gyp/pylib/gyp/MSVSSettings.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/gyp/pylib/gyp/MSVSSettings.py b/gyp/pylib/gyp/MSVSSettings.py
index fea6e67..8db8bfb 100644
--- a/gyp/pylib/gyp/MSVSSettings.py
+++ b/gyp/pylib/gyp/MSVSSettings.py
@@ -28,6 +28,10 @@ _msbuild_validators = {}
 _msvs_to_msbuild_converters = {}
 
 
+# The (tool name, setting name) pairs that are converted to AdditionalOptions.
+_converted_to_additional_option = set()
+
+
 # Tool name mapping from MSVS to MSBuild.
 _msbuild_name_of_tool = {}
 
@@ -337,14 +341,18 @@ def _ConvertedToAdditionalOption(tool, msvs_name, flag):
     def _Translate(value, msbuild_settings):
         if value == "true":
             tool_settings = _GetMSBuildToolSettings(msbuild_settings, tool)
-            if "AdditionalOptions" in tool_settings:
-                new_flags = "{} {}".format(tool_settings["AdditionalOptions"], flag)
+            options = tool_settings.get("AdditionalOptions")
+            if isinstance(options, list):
+                new_flags = options + [flag]
+            elif options is not None:
+                new_flags = f"{options} {flag}"
             else:
                 new_flags = flag
             tool_settings["AdditionalOptions"] = new_flags
 
     _msvs_validators[tool.msvs_name][msvs_name] = _boolean.ValidateMSVS
     _msvs_to_msbuild_converters[tool.msvs_name][msvs_name] = _Translate
+    _converted_to_additional_option.add((tool.msvs_name, msvs_name))
 
 
 def _CustomGeneratePreprocessedFile(tool, msvs_name):
@@ -459,7 +467,12 @@ def ConvertToMSBuildSettings(msvs_settings, stderr=sys.stderr):
     for msvs_tool_name, msvs_tool_settings in msvs_settings.items():
         if msvs_tool_name in _msvs_to_msbuild_converters:
             msvs_tool = _msvs_to_msbuild_converters[msvs_tool_name]
-            for msvs_setting, msvs_value in msvs_tool_settings.items():
+            # Flags are added to AdditionalOptions after that has been converted.
+            for msvs_setting, msvs_value in sorted(
+                msvs_tool_settings.items(),
+                key=lambda item: (msvs_tool_name, item[0])
+                in _converted_to_additional_option,
+            ):
                 if msvs_setting in msvs_tool:
                     # Invoke the translation function.
                     try:
-- 
2.43.0


From 6773cf44e315aa803e0425abd89bc3cbef860b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:34 +0000
Subject: [PATCH 27/81] fix: msvs: report a list given for a setting that takes
 no list

It raised TypeError.
---
 gyp/pylib/gyp/MSVSSettings.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gyp/pylib/gyp/MSVSSettings.py b/gyp/pylib/gyp/MSVSSettings.py
index 8db8bfb..b8efda6 100644
--- a/gyp/pylib/gyp/MSVSSettings.py
+++ b/gyp/pylib/gyp/MSVSSettings.py
@@ -477,7 +477,7 @@ def ConvertToMSBuildSettings(msvs_settings, stderr=sys.stderr):
                     # Invoke the translation function.
                     try:
                         msvs_tool[msvs_setting](msvs_value, msbuild_settings)
-                    except ValueError as e:
+                    except (TypeError, ValueError) as e:
                         print(
                             "Warning: while converting %s/%s to MSBuild, "
                             "%s" % (msvs_tool_name, msvs_setting, e),
@@ -543,7 +543,7 @@ def _ValidateSettings(validators, settings, stderr):
                 if setting in tool_validators:
                     try:
                         tool_validators[setting](value)
-                    except ValueError as e:
+                    except (TypeError, ValueError) as e:
                         print(
                             f"Warning: for {tool_name}/{setting}, {e}",
                             file=stderr,
-- 
2.43.0


From 9ea87f3e21bdbe4fee2b6559f9a4bdf302729fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:42 +0000
Subject: [PATCH 28/81] fix: msvs: a define with a backslash before a quote
 raised TypeError

---
 gyp/pylib/gyp/generator/msvs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gyp/pylib/gyp/generator/msvs.py b/gyp/pylib/gyp/generator/msvs.py
index 36e87ca..91b8ddb 100644
--- a/gyp/pylib/gyp/generator/msvs.py
+++ b/gyp/pylib/gyp/generator/msvs.py
@@ -860,7 +860,7 @@ def _EscapeCommandLineArgumentForMSBuild(s):
     """Escapes a Windows command-line argument for use by MSBuild."""
 
     def _Replace(match):
-        return (len(match.group(1)) / 2 * 4) * "\\" + '\\"'
+        return (len(match.group(1)) // 2 * 4) * "\\" + '\\"'
 
     # Escape all quotes so that they are interpreted literally.
     s = quote_replacer_regex2.sub(_Replace, s)
-- 
2.43.0


From f00dbbf4a1e76c1bdeaf742241b078e58afd8c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:42 +0000
Subject: [PATCH 29/81] fix: quote Windows arguments that end with a backslash

The backslash escaped the closing quote, joining the argument with the next.
---
 gyp/pylib/gyp/generator/msvs.py | 3 +++
 gyp/pylib/gyp/msvs_emulation.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/gyp/pylib/gyp/generator/msvs.py b/gyp/pylib/gyp/generator/msvs.py
index 91b8ddb..2a306b2 100644
--- a/gyp/pylib/gyp/generator/msvs.py
+++ b/gyp/pylib/gyp/generator/msvs.py
@@ -760,6 +760,7 @@ def _EscapeEnvironmentVariableExpansion(s):
 
 
 quote_replacer_regex = re.compile(r'(\\*)"')
+trailing_backslashes_regex = re.compile(r"(\\+)\Z")
 
 
 def _EscapeCommandLineArgumentForMSVS(s):
@@ -785,6 +786,8 @@ def _EscapeCommandLineArgumentForMSVS(s):
 
     # Escape all quotes so that they are interpreted literally.
     s = quote_replacer_regex.sub(_Replace, s)
+    # Backslashes at the end would otherwise escape the closing quote.
+    s = trailing_backslashes_regex.sub(lambda match: 2 * match.group(1), s)
     # Now add unescaped quotes so that any whitespace is interpreted literally.
     s = '"' + s + '"'
     return s
diff --git a/gyp/pylib/gyp/msvs_emulation.py b/gyp/pylib/gyp/msvs_emulation.py
index adda5a0..95b56e2 100644
--- a/gyp/pylib/gyp/msvs_emulation.py
+++ b/gyp/pylib/gyp/msvs_emulation.py
@@ -18,6 +18,7 @@ import gyp.MSVSUtil
 import gyp.MSVSVersion
 
 windows_quoter_regex = re.compile(r'(\\*)"')
+trailing_backslashes_regex = re.compile(r"(\\+)\Z")
 
 
 def QuoteForRspFile(arg, quote_cmd=True):
@@ -39,6 +40,8 @@ def QuoteForRspFile(arg, quote_cmd=True):
     # in 2* what we match, +1 more, plus the quote.
     if quote_cmd:
         arg = windows_quoter_regex.sub(lambda mo: 2 * mo.group(1) + '\\"', arg)
+        # Backslashes at the end would otherwise escape the closing quote.
+        arg = trailing_backslashes_regex.sub(lambda mo: 2 * mo.group(1), arg)
 
     # %'s also need to be doubled otherwise they're interpreted as batch
     # positional arguments. Also make sure to escape the % so that they're
-- 
2.43.0


From 8d2bacda7afe4feb7718ce44635322d15fa8c37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:40 +0000
Subject: [PATCH 30/81] fix: write XML attributes with tabs and characters
 outside the encoding intact

A tab in an attribute was read back as a space, and a character that the
encoding lacks raised UnicodeEncodeError.
---
 gyp/pylib/gyp/easy_xml.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gyp/pylib/gyp/easy_xml.py b/gyp/pylib/gyp/easy_xml.py
index b5f8119..be699ed 100644
--- a/gyp/pylib/gyp/easy_xml.py
+++ b/gyp/pylib/gyp/easy_xml.py
@@ -120,7 +120,7 @@ def WriteXmlIfChanged(content, path, encoding="utf-8", pretty=False,
     if win32 and os.linesep != "\r\n":
         xml_string = xml_string.replace("\n", "\r\n")
 
-    xml_bytes = xml_string.encode(encoding)
+    xml_bytes = xml_string.encode(encoding, "xmlcharrefreplace")
 
     # Get the old content
     try:
@@ -141,6 +141,7 @@ _xml_escape_map = {
     "<": "&lt;",
     ">": "&gt;",
     "&": "&amp;",
+    "\t": "&#x9;",
     "\n": "&#xA;",
     "\r": "&#xD;",
 }
-- 
2.43.0


From 21a70c325c51682824b036b17db70ccbd0e393e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:00 +0000
Subject: [PATCH 31/81] fix: analyzer: resolve ../ in a top-level gyp file to a
 path outside the tree

---
 gyp/pylib/gyp/generator/analyzer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gyp/pylib/gyp/generator/analyzer.py b/gyp/pylib/gyp/generator/analyzer.py
index 64573ad..50c96c6 100644
--- a/gyp/pylib/gyp/generator/analyzer.py
+++ b/gyp/pylib/gyp/generator/analyzer.py
@@ -191,7 +191,7 @@ def _ExtractSources(target, target_dict, toplevel_dir):
     # source paths are always posix. Convert |target| to a posix path relative to
     # |toplevel_dir_|. This is done to make it easy to build source paths.
     base_path = posixpath.dirname(_ToLocalPath(toplevel_dir, _ToGypPath(target)))
-    base_path_components = base_path.split("/")
+    base_path_components = base_path.split("/") if base_path else []
 
     # Add a trailing '/' so that _AddSources() can easily build paths.
     if len(base_path):
-- 
2.43.0


From 1bb3d7f56028f7d532cf18e4366eeb32a0294332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:00 +0000
Subject: [PATCH 32/81] fix: analyzer: report a changed static library however
 it is reached

---
 gyp/pylib/gyp/generator/analyzer.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gyp/pylib/gyp/generator/analyzer.py b/gyp/pylib/gyp/generator/analyzer.py
index 50c96c6..42bcd70 100644
--- a/gyp/pylib/gyp/generator/analyzer.py
+++ b/gyp/pylib/gyp/generator/analyzer.py
@@ -490,6 +490,11 @@ def _AddCompileTargets(target, roots, add_if_no_ancestor, result):
     target.visited = True
     target.in_roots = target in roots
 
+    # A target that contains a changed file is treated the same whether it is
+    # reached directly or by way of one of its dependencies.
+    if target.match_status == MATCH_STATUS_MATCHES:
+        add_if_no_ancestor = True
+
     for back_dep_target in target.back_deps:
         _AddCompileTargets(back_dep_target, roots, False, result)
         target.added_to_compile_targets |= back_dep_target.added_to_compile_targets
-- 
2.43.0


From d604ebfc2d454796c749b67473c67a14448ea958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:04 +0000
Subject: [PATCH 33/81] fix: msvs: keep underscores in configuration names

---
 gyp/pylib/gyp/generator/msvs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gyp/pylib/gyp/generator/msvs.py b/gyp/pylib/gyp/generator/msvs.py
index 2a306b2..f2249b2 100644
--- a/gyp/pylib/gyp/generator/msvs.py
+++ b/gyp/pylib/gyp/generator/msvs.py
@@ -2898,7 +2898,7 @@ def _GenerateMSBuildRuleXmlFile(xml_path, msbuild_rules):
 
 
 def _GetConfigurationAndPlatform(name, settings, spec):
-    configuration = name.rsplit("_", 1)[0]
+    configuration = _ConfigBaseName(name, _ConfigPlatform(settings))
     platform = settings.get("msvs_configuration_platform", "Win32")
     if spec["toolset"] == "host" and platform == "arm64":
         platform = "x64"  # Host-only tools are always built for x64
-- 
2.43.0


From a7524760b3bbbc0d2e44c53c11bee065c94b8773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:04 +0000
Subject: [PATCH 34/81] fix: msvs: exclude a source from only some
 configurations without crashing

---
 gyp/pylib/gyp/generator/msvs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gyp/pylib/gyp/generator/msvs.py b/gyp/pylib/gyp/generator/msvs.py
index f2249b2..de09fef 100644
--- a/gyp/pylib/gyp/generator/msvs.py
+++ b/gyp/pylib/gyp/generator/msvs.py
@@ -3577,7 +3577,7 @@ def _AddSources2(
                 else:
                     for config_name, configuration in sorted(excluded_configurations):
                         condition = _GetConfigurationCondition(
-                            config_name, configuration
+                            config_name, configuration, spec
                         )
                         detail.append(
                             ["ExcludedFromBuild", {"Condition": condition}, "true"]
-- 
2.43.0


From dcb4214e1c640b1f820068d246280786dca1cf8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:05 +0000
Subject: [PATCH 35/81] fix: msvs: attach actions without inputs to the
 target's own gyp file

---
 gyp/pylib/gyp/generator/msvs.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/gyp/pylib/gyp/generator/msvs.py b/gyp/pylib/gyp/generator/msvs.py
index de09fef..1147b93 100644
--- a/gyp/pylib/gyp/generator/msvs.py
+++ b/gyp/pylib/gyp/generator/msvs.py
@@ -1052,8 +1052,6 @@ def _GenerateMSVSProject(project, options, version, generator_flags):
 
     # Get directory project file is in.
     project_dir = os.path.split(project.path)[0]
-    gyp_path = _NormalizedSource(project.build_file)
-    relative_path_of_gyp_file = gyp.common.RelativePath(gyp_path, project_dir)
 
     config_type = _GetMSVSConfigurationType(spec, project.build_file)
     for config_name, config in spec["configurations"].items():
@@ -1079,7 +1077,7 @@ def _GenerateMSVSProject(project, options, version, generator_flags):
 
     _AddToolFilesToMSVS(p, spec)
     _HandlePreCompiledHeaders(p, sources, spec)
-    _AddActions(actions_to_add, spec, relative_path_of_gyp_file)
+    _AddActions(actions_to_add, spec, gyp_file)
     _AddCopies(actions_to_add, spec)
     _WriteMSVSUserFile(project.path, version, spec)
 
@@ -1706,7 +1704,7 @@ def _HandlePreCompiledHeaders(p, sources, spec):
         DisableForSourceTree(sources)
 
 
-def _AddActions(actions_to_add, spec, relative_path_of_gyp_file):
+def _AddActions(actions_to_add, spec, gyp_file):
     # Add actions.
     actions = spec.get("actions", [])
     # Don't setup_env every time. When all the actions are run together in one
@@ -1716,7 +1714,7 @@ def _AddActions(actions_to_add, spec, relative_path_of_gyp_file):
     have_setup_env = set()
     for a in actions:
         # Attach actions to the gyp file if nothing else is there.
-        inputs = a.get("inputs") or [relative_path_of_gyp_file]
+        inputs = a.get("inputs") or [gyp_file]
         attached_to = inputs[0]
         need_setup_env = attached_to not in have_setup_env
         cmd = _BuildCommandLineForRule(
@@ -3723,7 +3721,7 @@ def _GenerateMSBuildProject(project, options, version, generator_flags, spec):
 
     # Don't add actions if we are using an external builder like ninja.
     if not spec.get("msvs_external_builder"):
-        _AddActions(actions_to_add, spec, project.build_file)
+        _AddActions(actions_to_add, spec, gyp_file)
         _AddCopies(actions_to_add, spec)
 
         # NOTE: this stanza must appear after all actions have been decided.
-- 
2.43.0


From 17b431ebf237a9dcf68f3ce194cbf4971ba5a2f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:05 +0000
Subject: [PATCH 36/81] fix: msvs: list the outputs of rules once and where
 they are with --generator-output

---
 gyp/pylib/gyp/generator/msvs.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/gyp/pylib/gyp/generator/msvs.py b/gyp/pylib/gyp/generator/msvs.py
index 1147b93..401f4aa 100644
--- a/gyp/pylib/gyp/generator/msvs.py
+++ b/gyp/pylib/gyp/generator/msvs.py
@@ -934,13 +934,20 @@ def _AdjustSourcesForRules(rules, sources, excluded_sources, is_msbuild):
             # Remove trigger_file from excluded_sources to let the rule be triggered
             # (e.g. rule trigger ax_enums.idl is added to excluded_sources
             # because it's also in an action's inputs in the same project)
-            excluded_sources.discard(_FixPath(trigger_file))
+            excluded_sources.discard(_NormalizedSource(trigger_file))
             # Done if not processing outputs as sources.
             if int(rule.get("process_outputs_as_sources", False)):
-                inputs, outputs = _RuleInputsAndOutputs(rule, trigger_file)
-                inputs = OrderedSet(_FixPaths(inputs))
-                outputs = OrderedSet(_FixPaths(outputs))
-                inputs.remove(_FixPath(trigger_file))
+                # The sources are still relative to the gyp file: all of them are
+                # fixed together later.
+                inputs = OrderedSet(
+                    _NormalizedSource(_RuleExpandPath(i, trigger_file))
+                    for i in rule.get("inputs", [])
+                )
+                outputs = OrderedSet(
+                    _NormalizedSource(_RuleExpandPath(o, trigger_file))
+                    for o in rule.get("outputs", [])
+                )
+                inputs.discard(_NormalizedSource(trigger_file))
                 sources.update(inputs)
                 if not is_msbuild:
                     excluded_sources.update(inputs)
-- 
2.43.0


From 5323270838751c554a8266e8f449ae073066867a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:05 +0000
Subject: [PATCH 37/81] fix: msvs: generate precompiled headers with
 --generator-output

---
 gyp/pylib/gyp/generator/msvs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gyp/pylib/gyp/generator/msvs.py b/gyp/pylib/gyp/generator/msvs.py
index 401f4aa..102a225 100644
--- a/gyp/pylib/gyp/generator/msvs.py
+++ b/gyp/pylib/gyp/generator/msvs.py
@@ -1700,7 +1700,7 @@ def _HandlePreCompiledHeaders(p, sources, spec):
                             },
                         )
                         p.AddFileConfig(
-                            _FixPath(source),
+                            source,
                             _ConfigFullName(config_name, config),
                             {},
                             tools=[tool],
-- 
2.43.0


From cef13386d30aaf8a5612eb78c5d2507392c60ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:05 +0000
Subject: [PATCH 38/81] fix: msvs: write well-formed files for rules whose name
 starts with a digit

---
 gyp/pylib/gyp/generator/msvs.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gyp/pylib/gyp/generator/msvs.py b/gyp/pylib/gyp/generator/msvs.py
index 102a225..46578c4 100644
--- a/gyp/pylib/gyp/generator/msvs.py
+++ b/gyp/pylib/gyp/generator/msvs.py
@@ -2399,6 +2399,9 @@ class MSBuildRule:
         self.display_name = rule["rule_name"]
         # Assure that the rule name is only characters and numbers
         self.rule_name = re.sub(r"\W", "_", self.display_name)
+        # An XML element cannot have a name that starts with a digit.
+        if self.rule_name[0].isdigit():
+            self.rule_name = "_" + self.rule_name
         # Create the various element names, following the example set by the
         # Visual Studio 2008 to 2010 conversion.  I don't know if VS2010
         # is sensitive to the exact names.
-- 
2.43.0


From 6b1bfb9c7eef6c3e30f83804a576afa7832b50af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:05 +0000
Subject: [PATCH 39/81] fix: msvs: do not fix msbuild_configuration_attributes
 twice

---
 gyp/pylib/gyp/generator/msvs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gyp/pylib/gyp/generator/msvs.py b/gyp/pylib/gyp/generator/msvs.py
index 46578c4..244ef26 100644
--- a/gyp/pylib/gyp/generator/msvs.py
+++ b/gyp/pylib/gyp/generator/msvs.py
@@ -3145,7 +3145,7 @@ def _GetMSBuildAttributes(spec, config, build_file):
     else:
         config_type = _GetMSVSConfigurationType(spec, build_file)
         config_type = _ConvertMSVSConfigurationType(config_type)
-        msbuild_attributes = config.get("msbuild_configuration_attributes", {})
+        msbuild_attributes = dict(config.get("msbuild_configuration_attributes", {}))
         msbuild_attributes.setdefault("ConfigurationType", config_type)
         output_dir = msbuild_attributes.get(
             "OutputDirectory", "$(SolutionDir)$(Configuration)"
-- 
2.43.0


From d71f76479eefd0ebbee483695ab76e46d12f63ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:05 +0000
Subject: [PATCH 40/81] fix: msvs: give every shard of a target its own
 settings

---
 gyp/pylib/gyp/MSVSUtil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gyp/pylib/gyp/MSVSUtil.py b/gyp/pylib/gyp/MSVSUtil.py
index 36bb782..33b44f1 100644
--- a/gyp/pylib/gyp/MSVSUtil.py
+++ b/gyp/pylib/gyp/MSVSUtil.py
@@ -100,7 +100,7 @@ def ShardTargets(target_list, target_dicts):
         if t in targets_to_shard:
             for i in range(targets_to_shard[t]):
                 name = _ShardName(t, i)
-                new_target_dicts[name] = copy.copy(target_dicts[t])
+                new_target_dicts[name] = copy.deepcopy(target_dicts[t])
                 new_target_dicts[name]["target_name"] = _ShardName(
                     new_target_dicts[name]["target_name"], i
                 )
-- 
2.43.0


From 15e278d1f639dc8970f72a3e89c03eb785f09be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:27 +0000
Subject: [PATCH 41/81] fix: xcode: quote strings that end in a newline

---
 gyp/pylib/gyp/xcodeproj_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gyp/pylib/gyp/xcodeproj_file.py b/gyp/pylib/gyp/xcodeproj_file.py
index cd72aa2..ab51877 100644
--- a/gyp/pylib/gyp/xcodeproj_file.py
+++ b/gyp/pylib/gyp/xcodeproj_file.py
@@ -157,7 +157,7 @@ def cmp(x, y):
 # transformed to be properly encoded.  Note that this expression matches the
 # characters listed with "+", for 1 or more occurrences: if a string is empty,
 # it must not match this pattern, because it needs to be encoded as "".
-_unquoted = re.compile("^[A-Za-z0-9$./_]+$")
+_unquoted = re.compile(r"^[A-Za-z0-9$./_]+\Z")
 
 # Strings that match this pattern are quoted regardless of what _unquoted says.
 # Oddly, Xcode will quote any string with a run of three or more underscores.
-- 
2.43.0


From 7001060b0958de34fd4d01b052fd26816d77db59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:27 +0000
Subject: [PATCH 42/81] fix: xcode: quote strings that look like the start of a
 comment

---
 gyp/pylib/gyp/xcodeproj_file.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gyp/pylib/gyp/xcodeproj_file.py b/gyp/pylib/gyp/xcodeproj_file.py
index ab51877..8fe1513 100644
--- a/gyp/pylib/gyp/xcodeproj_file.py
+++ b/gyp/pylib/gyp/xcodeproj_file.py
@@ -161,7 +161,8 @@ _unquoted = re.compile(r"^[A-Za-z0-9$./_]+\Z")
 
 # Strings that match this pattern are quoted regardless of what _unquoted says.
 # Oddly, Xcode will quote any string with a run of three or more underscores.
-_quoted = re.compile("___")
+# An unquoted string starting with "//" would be read as a comment.
+_quoted = re.compile("___|//")
 
 # This pattern should match any character that needs to be escaped by
 # XCObject._EncodeString.  See that function.
-- 
2.43.0


From 877f450c57bf7df8fbf2b9a58a2107f692038783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:28 +0000
Subject: [PATCH 43/81] fix: xcode: a directory copied twice was reported as
 two files of one path

---
 gyp/pylib/gyp/xcodeproj_file.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gyp/pylib/gyp/xcodeproj_file.py b/gyp/pylib/gyp/xcodeproj_file.py
index 8fe1513..59376b9 100644
--- a/gyp/pylib/gyp/xcodeproj_file.py
+++ b/gyp/pylib/gyp/xcodeproj_file.py
@@ -1208,6 +1208,9 @@ class PBXGroup(XCHierarchicalElement):
         # Sets up this PBXGroup object's dicts to reference the child properly.
         child_path = child.PathFromSourceTreeAndPath()
         if child_path:
+            if child._properties.get("lastKnownFileType") == "folder":
+                # AddOrGetFileByPath asks for folders with a trailing slash.
+                child_path += posixpath.sep
             if child_path in self._children_by_path:
                 raise ValueError("Found multiple children with path " + child_path)
             self._children_by_path[child_path] = child
-- 
2.43.0


From 66e5f3cffae0d96c66831ea3b21e7ce2ebf4f52e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:28 +0000
Subject: [PATCH 44/81] fix: xcode: keep absolute source paths absolute

---
 gyp/pylib/gyp/xcodeproj_file.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gyp/pylib/gyp/xcodeproj_file.py b/gyp/pylib/gyp/xcodeproj_file.py
index 59376b9..077942a 100644
--- a/gyp/pylib/gyp/xcodeproj_file.py
+++ b/gyp/pylib/gyp/xcodeproj_file.py
@@ -1370,8 +1370,8 @@ class PBXGroup(XCHierarchicalElement):
         else:
             # Hierarchical recursion.  Add or get a PBXGroup corresponding to the
             # outermost path component, and then recurse into it, chopping off that
-            # path component.
-            next_dir = path_split[0]
+            # path component, which is the root directory for an absolute path.
+            next_dir = path_split[0] or posixpath.sep
             group_ref = self.GetChildByPath(next_dir)
             if group_ref is not None:
                 assert group_ref.__class__ == PBXGroup
-- 
2.43.0


From 911c6e8f28239abb76266fdac15e912f320c7916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:28 +0000
Subject: [PATCH 45/81] fix: keep quotes and hashes in the strings of a header
 config.gypi

---
 lib/create-config-gypi.js | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/lib/create-config-gypi.js b/lib/create-config-gypi.js
index 01a820e..489fb2a 100644
--- a/lib/create-config-gypi.js
+++ b/lib/create-config-gypi.js
@@ -6,12 +6,19 @@ const path = require('path')
 
 function parseConfigGypi (config) {
   // translated from tools/js2c.py of Node.js
-  // 1. string comments
-  config = config.replace(/#.*/g, '')
+  // 1. string comments and normalize string literals from ' into "; what
+  //    looks like a comment or a quote inside of a string is left alone
+  config = config.replace(/"(?:[^"\\]|\\.)*"|'((?:[^'\\]|\\.)*)'|#.*/g, (match, text) => {
+    if (match.startsWith('#')) {
+      return ''
+    }
+    if (match.startsWith('"')) {
+      return match
+    }
+    return '"' + text.replace(/\\.|"/g, (c) => c === '"' ? '\\"' : c === "\\'" ? "'" : c) + '"'
+  })
   // 2. join multiline strings
-  config = config.replace(/'$\s+'/mg, '')
-  // 3. normalize string literals from ' into "
-  config = config.replace(/'/g, '"')
+  config = config.replace(/"$\s+"/mg, '')
   return JSON.parse(config)
 }
 
-- 
2.43.0


From 97c59f0c31849f295b2dd1bde47e17680accf800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:28 +0000
Subject: [PATCH 46/81] fix: enable ARM64 assembly from Visual Studio 2017
 version 15.9 only

---
 lib/create-config-gypi.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/create-config-gypi.js b/lib/create-config-gypi.js
index 489fb2a..d4c904d 100644
--- a/lib/create-config-gypi.js
+++ b/lib/create-config-gypi.js
@@ -95,7 +95,7 @@ async function getCurrentConfigGypi ({ gyp, nodeDir, vsInfo, python }) {
     }
     if (variables.target_arch === 'arm64') {
       if (vsInfo.versionMajor > 15 ||
-          (vsInfo.versionMajor === 15 && vsInfo.versionMajor >= 9)) {
+          (vsInfo.versionMajor === 15 && vsInfo.versionMinor >= 9)) {
         defaults.msvs_enable_marmasm = 1
       } else {
         log.warn('Compiling ARM64 assembly is only available in\n' +
-- 
2.43.0


From 19021d86ebd3eaf414ae700779eb2f105a58da1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:28 +0000
Subject: [PATCH 47/81] fix: pass an option named like an Object.prototype
 member on as a variable

---
 lib/create-config-gypi.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/create-config-gypi.js b/lib/create-config-gypi.js
index d4c904d..b083f4d 100644
--- a/lib/create-config-gypi.js
+++ b/lib/create-config-gypi.js
@@ -116,7 +116,7 @@ async function getCurrentConfigGypi ({ gyp, nodeDir, vsInfo, python }) {
     if (opt === 'argv') {
       return
     }
-    if (opt in gyp.configDefs) {
+    if (Object.hasOwn(gyp.configDefs, opt)) {
       return
     }
     variables[opt.replace(/-/g, '_')] = gyp.opts[opt]
-- 
2.43.0


From 4eb846e0b77679ed6903b6eb77bd166afae6a2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:28 +0000
Subject: [PATCH 48/81] fix: write null options so that gyp can read them

---
 lib/create-config-gypi.js | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/create-config-gypi.js b/lib/create-config-gypi.js
index b083f4d..60582b6 100644
--- a/lib/create-config-gypi.js
+++ b/lib/create-config-gypi.js
@@ -133,9 +133,10 @@ async function createConfigGypi ({ gyp, buildDir, nodeDir, vsInfo, python }) {
 
   const config = await getCurrentConfigGypi({ gyp, nodeDir, vsInfo, python })
 
-  // ensures that any boolean values in config.gypi get stringified
+  // ensures that any boolean values in config.gypi get stringified, and any
+  // null values, which gyp cannot read either
   function boolsToString (k, v) {
-    if (typeof v === 'boolean') {
+    if (typeof v === 'boolean' || v === null) {
       return String(v)
     }
     return v
-- 
2.43.0


From 410f96ee30572489d60fb79ece59bf3769d83e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:28 +0000
Subject: [PATCH 49/81] fix: do not use a Python that exits with an error

---
 lib/find-python.js | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/find-python.js b/lib/find-python.js
index a71c00c..2125e27 100644
--- a/lib/find-python.js
+++ b/lib/find-python.js
@@ -266,6 +266,9 @@ class PythonFinder {
       this.log.silly('execFile result: err = %j', (err && err.stack) || err)
       this.log.silly('execFile result: stdout = %j', stdout)
       this.log.silly('execFile result: stderr = %j', stderr)
+      if (err) {
+        throw err
+      }
       return stdout.trim()
     } catch (err) {
       this.log.silly('execFile: threw:\n%s', err.stack)
-- 
2.43.0


From ddb4371ff1b0604c4663f25485ca04f075f69464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:28 +0000
Subject: [PATCH 50/81] fix: ignore malformed Visual Studio records instead of
 crashing

---
 lib/find-visualstudio.js | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/lib/find-visualstudio.js b/lib/find-visualstudio.js
index e9aa7fa..e6ea055 100644
--- a/lib/find-visualstudio.js
+++ b/lib/find-visualstudio.js
@@ -211,10 +211,12 @@ class VisualStudioFinder {
     }
     // normalize output
     parsedData = parsedData.map((info) => {
-      info.path = info.InstallationPath
-      info.version = `${info.InstallationVersion.Major}.${info.InstallationVersion.Minor}.${info.InstallationVersion.Build}.${info.InstallationVersion.Revision}`
-      info.packages = info.Packages.map((p) => p.Id)
-      return info
+      const version = info?.InstallationVersion
+      return {
+        path: info?.InstallationPath,
+        version: `${version?.Major}.${version?.Minor}.${version?.Build}.${version?.Revision}`,
+        packages: info?.Packages?.map?.((p) => p?.Id)
+      }
     })
     // pass for further processing
     return this.processData(parsedData, supportedYears)
@@ -301,6 +303,16 @@ class VisualStudioFinder {
   // Process parsed data containing information about VS installations
   // Look for the required parts, extract and output them back
   processData (vsInfo, supportedYears) {
+    // Leave out incomplete or malformed records
+    vsInfo = vsInfo.filter((info) => {
+      if (typeof info?.path === 'string' && Array.isArray(info.packages) &&
+          info.packages.every((pkg) => typeof pkg === 'string')) {
+        return true
+      }
+      this.log.silly('- ignoring malformed record:', info)
+      return false
+    })
+
     vsInfo = vsInfo.map((info) => {
       this.log.silly(`processing installation: "${info.path}"`)
       info.path = path.resolve(info.path)
-- 
2.43.0


From fcb539db2e0bc31728cb6ee66016a5cb6dc02531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:28 +0000
Subject: [PATCH 51/81] fix: accept --msvs_version as documented

---
 lib/node-gyp.js | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/node-gyp.js b/lib/node-gyp.js
index 5e25bf9..e02cbfa 100644
--- a/lib/node-gyp.js
+++ b/lib/node-gyp.js
@@ -58,6 +58,7 @@ class Gyp extends EventEmitter {
     C: '--directory',
     debug: '--debug',
     j: '--jobs',
+    msvs_version: '--msvs-version',
     silly: '--loglevel=silly',
     verbose: '--loglevel=verbose',
     silent: '--loglevel=silent'
-- 
2.43.0


From 023ea0f4ecd6e7ee9e48c7e2e728a2a40a1f45d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:28 +0000
Subject: [PATCH 52/81] fix: do not take names of Object.prototype for commands
 or aliases

---
 lib/node-gyp.js | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/node-gyp.js b/lib/node-gyp.js
index e02cbfa..6490181 100644
--- a/lib/node-gyp.js
+++ b/lib/node-gyp.js
@@ -101,7 +101,7 @@ class Gyp extends EventEmitter {
     // create a copy of the argv array with aliases mapped
     argv = this.argv.map((arg) => {
     // is this an alias?
-      if (arg in this.aliases) {
+      if (Object.hasOwn(this.aliases, arg)) {
         arg = this.aliases[arg]
       }
       return arg
@@ -109,7 +109,7 @@ class Gyp extends EventEmitter {
 
     // process the mapped args into "command" objects ("name" and "args" props)
     argv.slice().forEach((arg) => {
-      if (arg in this.commands) {
+      if (Object.hasOwn(this.commands, arg)) {
         const args = argv.splice(0, argv.indexOf(arg))
         argv.shift()
         if (commands.length > 0) {
-- 
2.43.0


From a7de0c8d7d68a79a2cbc51a8c976dad231f62ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:28 +0000
Subject: [PATCH 53/81] fix: recognise a library URL by its last parts only

---
 lib/process-release.js | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/process-release.js b/lib/process-release.js
index c9a319d..090327c 100644
--- a/lib/process-release.js
+++ b/lib/process-release.js
@@ -9,8 +9,8 @@ const log = require('./log')
 
 // versions where -headers.tar.gz started shipping
 const headersTarballRange = '>= 3.0.0 || ~0.12.10 || ~0.10.42'
-const bitsre = /\/win-(x86|x64|arm64)\//
-const bitsreV3 = /\/win-(x86|ia32|x64)\// // io.js v3.x.x shipped with "ia32" but should
+const bitsre = /\/win-(x86|x64|arm64)\/(?=[^/]*\.lib$)/
+const bitsreV3 = /\/win-(x86|ia32|x64)\/(?=[^/]*\.lib$)/ // io.js v3.x.x shipped with "ia32" but should
 // have been "x86"
 
 // Captures all the logic required to determine download URLs, local directory and
-- 
2.43.0


From 112f6037c0cc7ce8d5cf28c696963b052198ecda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:14 +0000
Subject: [PATCH 54/81] fix: install the requested version when falling back to
 the temporary directory

---
 lib/install.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/install.js b/lib/install.js
index 7196a31..adcb129 100644
--- a/lib/install.js
+++ b/lib/install.js
@@ -389,7 +389,7 @@ async function install (gyp, argv) {
       log.verbose('tmpdir == cwd', 'automatically will remove dev files after to save disk space')
       gyp.todo.push({ name: 'remove', args: argv })
     }
-    return gyp.commands.install([noretry].concat(argv))
+    return gyp.commands.install(argv.concat(noretry))
   }
 }
 
-- 
2.43.0


From d05104925f3a6064128fd7dbe6f6b4f13342d8e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:14 +0000
Subject: [PATCH 55/81] fix: mark a version as installed only after its
 checksum was verified

---
 lib/install.js | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/lib/install.js b/lib/install.js
index adcb129..9ae792b 100644
--- a/lib/install.js
+++ b/lib/install.js
@@ -171,6 +171,11 @@ async function install (gyp, argv) {
       throw err
     }
 
+    // an earlier install of this version is about to be overwritten, so it
+    // does not count as installed until this one is complete
+    const installVersionPath = path.resolve(devDir, 'installVersion')
+    await fs.rm(installVersionPath, { force: true })
+
     // now download the node tarball
     const tarPath = gyp.opts.tarball
     let extractErrors = false
@@ -257,12 +262,9 @@ async function install (gyp, argv) {
         log.verbose('tarball', 'done parsing tarball')
       }
 
-      const installVersionPath = path.resolve(tarExtractDir, 'installVersion')
       await Promise.all([
       // need to download node.lib
         ...(win ? [downloadNodeLib()] : []),
-        // write the "installVersion" file
-        fs.writeFile(installVersionPath, gyp.package.installVersion + '\n'),
         // Only download SHASUMS.txt if we downloaded something in need of SHA verification
         ...(!tarPath || win ? [downloadShasums()] : [])
       ])
@@ -280,6 +282,10 @@ async function install (gyp, argv) {
       if (tarExtractDir !== devDir) {
         await copyDirectory(tarExtractDir, devDir)
       }
+
+      // write the "installVersion" file last: its presence means that
+      // everything else is there and has been verified
+      await fs.writeFile(installVersionPath, gyp.package.installVersion + '\n')
     } finally {
       if (tarExtractDir !== devDir) {
         try {
-- 
2.43.0


From 05b326353f83810058bff6618511bfebc003f23d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:14 +0000
Subject: [PATCH 56/81] fix: roll back a failed install completely while its
 files are still being written

---
 lib/remove.js | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/remove.js b/lib/remove.js
index 7efdb01..260d535 100644
--- a/lib/remove.js
+++ b/lib/remove.js
@@ -36,7 +36,8 @@ async function remove (gyp, argv) {
     throw err
   }
 
-  await fs.rm(versionPath, { recursive: true, force: true })
+  // files of an aborted install may still be being written: try again then
+  await fs.rm(versionPath, { recursive: true, force: true, maxRetries: 3 })
 }
 
 module.exports = remove
-- 
2.43.0


From d1c5cd3ff99fb5bf20efaccc576a26365489f078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:07 +0000
Subject: [PATCH 57/81] fix: remove io.js versions from the directory they were
 installed in

---
 lib/remove.js | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/remove.js b/lib/remove.js
index 260d535..88a4f37 100644
--- a/lib/remove.js
+++ b/lib/remove.js
@@ -4,6 +4,7 @@ const fs = require('graceful-fs').promises
 const path = require('path')
 const log = require('./log')
 const semver = require('semver')
+const processRelease = require('./process-release')
 
 async function remove (gyp, argv) {
   const devDir = gyp.devDir
@@ -19,8 +20,8 @@ async function remove (gyp, argv) {
 
   const versionSemver = semver.parse(version)
   if (versionSemver) {
-    // flatten the version Array into a String
-    version = versionSemver.version
+    // the name of the directory the version was installed in
+    version = processRelease([version], gyp, process.version, process.release).versionDir
   }
 
   const versionPath = path.resolve(gyp.devDir, version)
-- 
2.43.0


From 894f2a1a2ec77ec5510497b81f621a48481e174c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:07 +0000
Subject: [PATCH 58/81] fix: never remove anything outside the node-gyp
 directory

---
 lib/remove.js | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/remove.js b/lib/remove.js
index 88a4f37..971ac3b 100644
--- a/lib/remove.js
+++ b/lib/remove.js
@@ -24,7 +24,12 @@ async function remove (gyp, argv) {
     version = processRelease([version], gyp, process.version, process.release).versionDir
   }
 
-  const versionPath = path.resolve(gyp.devDir, version)
+  const root = path.resolve(gyp.devDir)
+  const versionPath = path.resolve(root, version)
+  if (path.dirname(versionPath) !== root || versionPath === root) {
+    // not the name of something directly in the node-gyp dir
+    throw new Error('Invalid version number: ' + version)
+  }
   log.verbose('remove', 'removing development files for version:', version)
 
   // first check if its even installed
-- 
2.43.0


From 2a572b8df88aa436ce170d37403aa91195726510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:07 +0000
Subject: [PATCH 59/81] fix: print the message a command returns

---
 bin/node-gyp.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/node-gyp.js b/bin/node-gyp.js
index f8317b4..70e868f 100755
--- a/bin/node-gyp.js
+++ b/bin/node-gyp.js
@@ -87,7 +87,7 @@ async function run () {
         log.stdout('No node development files installed. Use `node-gyp install` to install a version.')
       }
     } else if (args.length >= 1) {
-      log.stdout(...args.slice(1))
+      log.stdout(...[].concat(args))
     }
 
     // now run the next command in the queue
-- 
2.43.0


From 2475dc3a308bdd3747fbc8368dae293272b32abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:42 +0000
Subject: [PATCH 60/81] fix: recognise every spelling of gyp's format option

---
 lib/configure.js | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/configure.js b/lib/configure.js
index ee672cf..938975f 100644
--- a/lib/configure.js
+++ b/lib/configure.js
@@ -102,7 +102,7 @@ async function configure (gyp, argv) {
             usingMakeGenerator = true
             break
           }
-        } else if (arg.startsWith('--format=make')) {
+        } else if (arg.startsWith('--format=make') || arg.startsWith('-fmake')) {
           usingMakeGenerator = true
           break
         }
@@ -149,7 +149,8 @@ async function configure (gyp, argv) {
   }
 
   async function runGyp () {
-    if (!~argv.indexOf('-f') && !~argv.indexOf('--format')) {
+    // also recognize the "-fFORMAT" and "--format=FORMAT" spellings
+    if (!argv.some((arg) => /^(-f|--format(=|$))/.test(arg))) {
       if (win) {
         log.verbose('gyp', 'gyp format was not specified; forcing "msvs"')
         // force the 'make' target for non-Windows
-- 
2.43.0


From 92a2e9459055dbc8f16103374d7b0ad307e823b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:42 +0000
Subject: [PATCH 61/81] fix: run the commands of rebuild before those that
 follow it

---
 lib/rebuild.js | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/rebuild.js b/lib/rebuild.js
index 6098176..dc03682 100644
--- a/lib/rebuild.js
+++ b/lib/rebuild.js
@@ -1,7 +1,8 @@
 'use strict'
 
 async function rebuild (gyp, argv) {
-  gyp.todo.push(
+  // these come before any commands that follow "rebuild"
+  gyp.todo.unshift(
     { name: 'clean', args: [] }
     , { name: 'configure', args: argv }
     , { name: 'build', args: [] }
-- 
2.43.0


From 6f5709a9461e7fd017e0d7c096b80da0316c0789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:42 +0000
Subject: [PATCH 62/81] fix: trust nothing when the CA file holds no
 certificate

---
 lib/download.js | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/download.js b/lib/download.js
index ed0aa37..3bf0183 100644
--- a/lib/download.js
+++ b/lib/download.js
@@ -30,7 +30,8 @@ async function readCAFile (filename) {
   // boundaries.  [\S\s]*? is used to match everything including newlines.
   const ca = await fs.readFile(filename, 'utf8')
   const re = /(-----BEGIN CERTIFICATE-----[\S\s]*?-----END CERTIFICATE-----)/g
-  return ca.match(re)
+  // a file without any certificates means that nothing is to be trusted
+  return ca.match(re) || []
 }
 
 module.exports = {
-- 
2.43.0


From 9f756df8dc25d08c8a47908632e9039837f9a561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:42 +0000
Subject: [PATCH 63/81] fix: report a build tool that cannot be started or dies
 from a signal

---
 lib/build.js | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/lib/build.js b/lib/build.js
index ae38d22..0e674b7 100644
--- a/lib/build.js
+++ b/lib/build.js
@@ -207,20 +207,26 @@ async function build (gyp, argv) {
     }
 
     const proc = gyp.spawn(command, argv)
-    await new Promise((resolve, reject) => proc.on('exit', async (code, signal) => {
+    let code, signal
+    try {
+      [code, signal] = await new Promise((resolve, reject) => {
+        // the command could not be started
+        proc.on('error', reject)
+        proc.on('exit', (...args) => resolve(args))
+      })
+    } finally {
       if (buildBinsDir) {
         // Clean up the build-time dependency symlinks:
-        await fs.rm(buildBinsDir, { recursive: true })
+        await fs.rm(buildBinsDir, { recursive: true, force: true })
       }
+    }
 
-      if (code !== 0) {
-        return reject(new Error('`' + command + '` failed with exit code: ' + code))
-      }
-      if (signal) {
-        return reject(new Error('`' + command + '` got signal: ' + signal))
-      }
-      resolve()
-    }))
+    if (signal) {
+      throw new Error('`' + command + '` got signal: ' + signal)
+    }
+    if (code !== 0) {
+      throw new Error('`' + command + '` failed with exit code: ' + code)
+    }
   }
 }
 
-- 
2.43.0


From c9313b655285bed5a876ea4a75501efe6e0ae099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:39 +0000
Subject: [PATCH 64/81] fix: name targets the way the build tool chosen on
 Windows takes them

---
 lib/build.js | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/lib/build.js b/lib/build.js
index 0e674b7..8dd838d 100644
--- a/lib/build.js
+++ b/lib/build.js
@@ -16,10 +16,6 @@ async function build (gyp, argv) {
     platformMake = 'gmake'
   } else if (process.platform.indexOf('bsd') !== -1) {
     platformMake = 'gmake'
-  } else if (win && argv.length > 0) {
-    argv = argv.map(function (target) {
-      return '/t:' + target
-    })
   }
 
   const makeCommand = gyp.opts.make || process.env.MAKE || platformMake
@@ -131,6 +127,13 @@ async function build (gyp, argv) {
     const verbose = log.logger.isVisible('verbose')
     let j
 
+    if (msvs) {
+      // MSBuild takes targets as options, make takes them as they are
+      argv = argv.map(function (target) {
+        return path.extname(target) === '.sln' ? target : '/t:' + target
+      })
+    }
+
     if (!msvs && verbose) {
       argv.push('V=1')
     }
-- 
2.43.0


From 7e2157376de6e019906ada8449feb36a7b8eee5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:27 +0000
Subject: [PATCH 65/81] fix: report a missing build file instead of failing to
 format the message

---
 gyp/pylib/gyp/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gyp/pylib/gyp/__init__.py b/gyp/pylib/gyp/__init__.py
index 8933d0c..15d239b 100755
--- a/gyp/pylib/gyp/__init__.py
+++ b/gyp/pylib/gyp/__init__.py
@@ -343,7 +343,7 @@ class RegeneratableOptionParser(argparse.ArgumentParser):
 
 def gyp_main(args):
     my_name = os.path.basename(sys.argv[0])
-    usage = "usage: %(prog)s [options ...] [build_file ...]"
+    usage = "usage: %s [options ...] [build_file ...]"
 
     parser = RegeneratableOptionParser(usage=usage.replace("%s", "%(prog)s"))
     parser.add_argument(
-- 
2.43.0


From 9dc8e92d217f6a3b2e91bd394091bb24fc728f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:27 +0000
Subject: [PATCH 66/81] fix: ignore empty entries between the formats in
 GYP_GENERATORS

---
 gyp/pylib/gyp/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gyp/pylib/gyp/__init__.py b/gyp/pylib/gyp/__init__.py
index 15d239b..3be6f6d 100755
--- a/gyp/pylib/gyp/__init__.py
+++ b/gyp/pylib/gyp/__init__.py
@@ -527,7 +527,7 @@ def gyp_main(args):
         if options.use_environment:
             generate_formats = os.environ.get("GYP_GENERATORS", [])
         if generate_formats:
-            generate_formats = re.split(r"[\s,]", generate_formats)
+            generate_formats = [f for f in re.split(r"[\s,]", generate_formats) if f]
         if generate_formats:
             options.formats = generate_formats
         else:
-- 
2.43.0


From 46d62af4f6e31a18168ea13e6a0d1b5f78e7feab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:27 +0000
Subject: [PATCH 67/81] fix: write the CMake project name as a single word

---
 gyp/pylib/gyp/generator/cmake.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gyp/pylib/gyp/generator/cmake.py b/gyp/pylib/gyp/generator/cmake.py
index 1e3d428..a7100c5 100644
--- a/gyp/pylib/gyp/generator/cmake.py
+++ b/gyp/pylib/gyp/generator/cmake.py
@@ -1166,7 +1166,7 @@ def GenerateOutputForConfig(target_list, target_dicts, data, params, config_to_u
 
     gyp_file, project_target, _ = gyp.common.ParseQualifiedTarget(target_list[-1])
     output.write("project(")
-    output.write(project_target)
+    output.write(StringToCMakeTargetName(project_target))
     output.write(")\n")
 
     SetVariable(output, "configuration", config_to_use)
-- 
2.43.0


From fb726cd3184c1c895ef1dd4c4e5e2ed8dc0122b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:30 +0000
Subject: [PATCH 68/81] fix: remove the product of a failing postbuild of a
 target in a sub-directory

---
 gyp/pylib/gyp/generator/make.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gyp/pylib/gyp/generator/make.py b/gyp/pylib/gyp/generator/make.py
index afce8ee..6ef951f 100644
--- a/gyp/pylib/gyp/generator/make.py
+++ b/gyp/pylib/gyp/generator/make.py
@@ -530,6 +530,7 @@ prereq_changed = $(filter-out FORCE_DO_CMD,$(filter-out $|,$?))
 # Helper that executes all postbuilds until one fails.
 define do_postbuilds
   @E=0;\\
+  D=$$PWD;\\
   for p in $(POSTBUILDS); do\\
     eval $$p;\\
     E=$$?;\\
@@ -538,6 +539,7 @@ define do_postbuilds
     fi;\\
   done;\\
   if [ $$E -ne 0 ]; then\\
+    cd "$$D";\\
     rm -rf "$@";\\
     exit $$E;\\
   fi
-- 
2.43.0


From 1f50f5dfad433e4cbe169bab3e8a8299dd371e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:45 +0000
Subject: [PATCH 69/81] fix: keep the leading components of a path inside an
 option when quoting for Windows

---
 gyp/pylib/gyp/msvs_emulation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gyp/pylib/gyp/msvs_emulation.py b/gyp/pylib/gyp/msvs_emulation.py
index 95b56e2..2f4e447 100644
--- a/gyp/pylib/gyp/msvs_emulation.py
+++ b/gyp/pylib/gyp/msvs_emulation.py
@@ -31,9 +31,10 @@ def QuoteForRspFile(arg, quote_cmd=True):
     # works more or less because most programs (including the compiler, etc.)
     # use that function to handle command line arguments.
 
-    # Use a heuristic to try to find args that are paths, and normalize them
+    # Use a heuristic to try to find args that are paths, and normalize them.
+    # The path may follow an option ("-I../x"), so leave its components alone.
     if arg.find("/") > 0 or arg.count("/") > 1:
-        arg = os.path.normpath(arg)
+        arg = arg.replace("/", os.sep)
 
     # For a literal quote, CommandLineToArgvW requires 2n+1 backslashes
     # preceding it, and results in n backslashes + the quote. So we substitute
-- 
2.43.0


From c73142c2db5aa212ff452b5cf9e14d94ae89407c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:45 +0000
Subject: [PATCH 70/81] fix: accept lists in remapped msvs_settings

---
 gyp/pylib/gyp/msvs_emulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gyp/pylib/gyp/msvs_emulation.py b/gyp/pylib/gyp/msvs_emulation.py
index 2f4e447..7939c09 100644
--- a/gyp/pylib/gyp/msvs_emulation.py
+++ b/gyp/pylib/gyp/msvs_emulation.py
@@ -110,7 +110,7 @@ def _DoRemapping(element, map):
         if not callable(map):
             map = map.get  # Assume it's a dict, otherwise a callable to do the remap.
         if isinstance(element, (list, tuple)):
-            element = filter(None, [map(elem) for elem in element])
+            element = list(filter(None, [map(elem) for elem in element]))
         else:
             element = map(element)
     return element
-- 
2.43.0


From 62d32d9bd7bbacc7f1e73cc8ed928ab50153ae8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:45 +0000
Subject: [PATCH 71/81] fix: accept Express versions of Visual Studio in ninja

---
 gyp/pylib/gyp/msvs_emulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gyp/pylib/gyp/msvs_emulation.py b/gyp/pylib/gyp/msvs_emulation.py
index 7939c09..7f4768b 100644
--- a/gyp/pylib/gyp/msvs_emulation.py
+++ b/gyp/pylib/gyp/msvs_emulation.py
@@ -342,7 +342,7 @@ class MsvsSettings:
         # first level is globally for the configuration (this is what we consider
         # "the" config at the gyp level, which will be something like 'Debug' or
         # 'Release'), VS2015 and later only use this level
-        if int(self.vs_version.short_name) >= 2015:
+        if int(self.vs_version.short_name.rstrip("e")) >= 2015:
             return config
         # and a second target-specific configuration, which is an
         # override for the global one. |config| is remapped here to take into
-- 
2.43.0


From e2a1e34dffa477d5628c51337d0f2f4ef01a86eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:45 +0000
Subject: [PATCH 72/81] fix: expand $(PlatformName) in a compiler database's
 name for the target's platform

---
 gyp/pylib/gyp/msvs_emulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gyp/pylib/gyp/msvs_emulation.py b/gyp/pylib/gyp/msvs_emulation.py
index 7f4768b..43f24ba 100644
--- a/gyp/pylib/gyp/msvs_emulation.py
+++ b/gyp/pylib/gyp/msvs_emulation.py
@@ -419,7 +419,7 @@ class MsvsSettings:
         config = self._TargetConfig(config)
         pdbname = self._Setting(("VCCLCompilerTool", "ProgramDataBaseFileName"), config)
         if pdbname:
-            pdbname = expand_special(self.ConvertVSMacros(pdbname))
+            pdbname = expand_special(self.ConvertVSMacros(pdbname, config=config))
         return pdbname
 
     def GetMapFileName(self, config, expand_special):
-- 
2.43.0


From 3f192ba60bc8f60d7ead1286b6a14eebdb6e0b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:45 +0000
Subject: [PATCH 73/81] fix: write the flags that make a precompiled header in
 ninja on Windows

---
 gyp/pylib/gyp/msvs_emulation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gyp/pylib/gyp/msvs_emulation.py b/gyp/pylib/gyp/msvs_emulation.py
index 43f24ba..2f6539e 100644
--- a/gyp/pylib/gyp/msvs_emulation.py
+++ b/gyp/pylib/gyp/msvs_emulation.py
@@ -1065,13 +1065,13 @@ class PrecompiledHeader:
             pch_output = ["/Yc" + self._PchHeader()]
             if command == "cxx":
                 return (
-                    [("cflags_cc", map(expand_special, cflags_cc + pch_output))],
+                    [("cflags_cc", list(map(expand_special, cflags_cc + pch_output)))],
                     self.output_obj,
                     [],
                 )
             elif command == "cc":
                 return (
-                    [("cflags_c", map(expand_special, cflags_c + pch_output))],
+                    [("cflags_c", list(map(expand_special, cflags_c + pch_output)))],
                     self.output_obj,
                     [],
                 )
-- 
2.43.0


From c15ec0739bad021dfda6f27e92203f6dec4dafac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:45 +0000
Subject: [PATCH 74/81] fix: hash bytes for a rule's response file name in
 ninja on Windows

---
 gyp/pylib/gyp/generator/ninja.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gyp/pylib/gyp/generator/ninja.py b/gyp/pylib/gyp/generator/ninja.py
index c9aeee7..92dd6c0 100644
--- a/gyp/pylib/gyp/generator/ninja.py
+++ b/gyp/pylib/gyp/generator/ninja.py
@@ -815,7 +815,7 @@ class NinjaWriter:
                 if self.flavor == "win":
                     # WriteNewNinjaRule uses unique_name to create a rsp file on win.
                     extra_bindings.append(
-                        ("unique_name", hashlib.md5(outputs[0]).hexdigest())
+                        ("unique_name", hashlib.md5(outputs[0].encode("utf-8")).hexdigest())
                     )
 
                 self.ninja.build(
-- 
2.43.0


From ded58c10a0b6ff993eef4f3b82ce8b6c4b7b8de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:46 +0000
Subject: [PATCH 75/81] fix: expand macros in library_dirs for the
 configuration, not relative to it

---
 gyp/pylib/gyp/generator/ninja.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gyp/pylib/gyp/generator/ninja.py b/gyp/pylib/gyp/generator/ninja.py
index 92dd6c0..a5fa1e0 100644
--- a/gyp/pylib/gyp/generator/ninja.py
+++ b/gyp/pylib/gyp/generator/ninja.py
@@ -1480,7 +1480,7 @@ class NinjaWriter:
         library_dirs = config.get("library_dirs", [])
         if self.flavor == "win":
             library_dirs = [
-                self.msvs_settings.ConvertVSMacros(library_dir, config_name)
+                self.msvs_settings.ConvertVSMacros(library_dir, config=config_name)
                 for library_dir in library_dirs
             ]
             library_dirs = [
-- 
2.43.0


From 860cf76547e74451423a749759c337057483acc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:05 +0000
Subject: [PATCH 76/81] fix: make: map the paths of object files among the
 sources

---
 gyp/pylib/gyp/generator/make.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gyp/pylib/gyp/generator/make.py b/gyp/pylib/gyp/generator/make.py
index 6ef951f..eb7a8be 100644
--- a/gyp/pylib/gyp/generator/make.py
+++ b/gyp/pylib/gyp/generator/make.py
@@ -1537,7 +1537,9 @@ $(obj).$(TOOLSET)/$(TARGET)/%%.o: $(obj)/%%%s FORCE_DO_CMD
 
         # If there are any object files in our input file list, link them into our
         # output.
-        extra_link_deps += [source for source in sources if Linkable(source)]
+        extra_link_deps += [
+            Sourceify(self.Absolutify(source)) for source in sources if Linkable(source)
+        ]
 
         self.WriteLn()
 
-- 
2.43.0


From c6f2ec9cf55a5fb589bdb485a215b9058757320a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:15 +0000
Subject: [PATCH 77/81] fix: cmake: mark object files among the sources as
 external objects

---
 gyp/pylib/gyp/generator/cmake.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gyp/pylib/gyp/generator/cmake.py b/gyp/pylib/gyp/generator/cmake.py
index a7100c5..d065048 100644
--- a/gyp/pylib/gyp/generator/cmake.py
+++ b/gyp/pylib/gyp/generator/cmake.py
@@ -866,7 +866,7 @@ def WriteTarget(
         # Mark object sources as linkable.
         if linkable_sources_name:
             output.write("set_source_files_properties(")
-            WriteVariable(output, other_sources_name, "")
+            WriteVariable(output, linkable_sources_name, "")
             output.write(' PROPERTIES EXTERNAL_OBJECT "TRUE")\n')
 
         # Output directory
-- 
2.43.0


From e2abdeb8e660297c752e229a6dcff059e3d4f151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:11 +0000
Subject: [PATCH 78/81] fix: cmake: quote the paths and messages of custom
 commands

---
 gyp/pylib/gyp/generator/cmake.py | 39 ++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 15 deletions(-)

diff --git a/gyp/pylib/gyp/generator/cmake.py b/gyp/pylib/gyp/generator/cmake.py
index d065048..8a99877 100644
--- a/gyp/pylib/gyp/generator/cmake.py
+++ b/gyp/pylib/gyp/generator/cmake.py
@@ -217,6 +217,13 @@ def WriteVariable(output, variable_name, prepend=None):
     output.write("}")
 
 
+def WriteString(output, value):
+    """Writes a quoted CMake string."""
+    output.write('"')
+    output.write(CMakeStringEscape(value))
+    output.write('"')
+
+
 class CMakeTargetType:
     def __init__(self, command, modifier, property_modifier):
         self.command = command
@@ -289,7 +296,7 @@ def WriteActions(target_name, actions, extra_sources, extra_deps, path_to_gyp, o
         if len(dirs) > 0:
             for directory in dirs:
                 output.write("  COMMAND ${CMAKE_COMMAND} -E make_directory ")
-                output.write(directory)
+                WriteString(output, directory)
                 output.write("\n")
 
         output.write("  COMMAND ")
@@ -300,13 +307,13 @@ def WriteActions(target_name, actions, extra_sources, extra_deps, path_to_gyp, o
         WriteVariable(output, inputs_name)
         output.write("\n")
 
-        output.write("  WORKING_DIRECTORY ${CMAKE_CURRENT_LIST_DIR}/")
-        output.write(path_to_gyp)
+        output.write("  WORKING_DIRECTORY ")
+        WriteString(output, "${CMAKE_CURRENT_LIST_DIR}/" + path_to_gyp)
         output.write("\n")
 
         output.write("  COMMENT ")
         if "message" in action:
-            output.write(action["message"])
+            WriteString(output, action["message"])
         else:
             output.write(action_target_name)
         output.write("\n")
@@ -396,7 +403,7 @@ def WriteRules(target_name, rules, extra_sources, extra_deps, path_to_gyp, outpu
 
             for directory in dirs:
                 output.write("  COMMAND ${CMAKE_COMMAND} -E make_directory ")
-                output.write(directory)
+                WriteString(output, directory)
                 output.write("\n")
 
             output.write("  COMMAND ")
@@ -406,18 +413,18 @@ def WriteRules(target_name, rules, extra_sources, extra_deps, path_to_gyp, outpu
             output.write("  DEPENDS ")
             WriteVariable(output, inputs_name)
             output.write(" ")
-            output.write(NormjoinPath(path_to_gyp, rule_source))
+            WriteString(output, NormjoinPath(path_to_gyp, rule_source))
             output.write("\n")
 
             # CMAKE_CURRENT_LIST_DIR is where the CMakeLists.txt lives.
             # The cwd is the current build directory.
-            output.write("  WORKING_DIRECTORY ${CMAKE_CURRENT_LIST_DIR}/")
-            output.write(path_to_gyp)
+            output.write("  WORKING_DIRECTORY ")
+            WriteString(output, "${CMAKE_CURRENT_LIST_DIR}/" + path_to_gyp)
             output.write("\n")
 
             output.write("  COMMENT ")
             if "message" in rule:
-                output.write(rule["message"])
+                WriteString(output, rule["message"])
             else:
                 output.write(action_name)
             output.write("\n")
@@ -444,7 +451,7 @@ def WriteRules(target_name, rules, extra_sources, extra_deps, path_to_gyp, outpu
         output.write("\n")
         for rule_source in rule.get("rule_sources", []):
             output.write("  ")
-            output.write(NormjoinPath(path_to_gyp, rule_source))
+            WriteString(output, NormjoinPath(path_to_gyp, rule_source))
             output.write("\n")
         output.write(")\n")
 
@@ -522,9 +529,9 @@ def WriteCopies(target_name, copies, extra_deps, path_to_gyp, output):
         for src, dst in zip(copy.gyp_inputs, copy.gyp_outputs):
             # 'cmake -E copy src dst' will create the 'dst' directory if needed.
             output.write("COMMAND ${CMAKE_COMMAND} -E %s " % copy.command)
-            output.write(src)
+            WriteString(output, src)
             output.write(" ")
-            output.write(dst)
+            WriteString(output, dst)
             output.write("\n")
 
     output.write("DEPENDS")
@@ -533,8 +540,8 @@ def WriteCopies(target_name, copies, extra_deps, path_to_gyp, output):
             WriteVariable(output, copy.inputs_name, " ")
     output.write("\n")
 
-    output.write("WORKING_DIRECTORY ${CMAKE_CURRENT_LIST_DIR}/")
-    output.write(path_to_gyp)
+    output.write("WORKING_DIRECTORY ")
+    WriteString(output, "${CMAKE_CURRENT_LIST_DIR}/" + path_to_gyp)
     output.write("\n")
 
     output.write("COMMENT Copying for ")
@@ -814,7 +821,9 @@ def WriteTarget(
         output.write("link_directories(")
         for library_dir in library_dirs:
             output.write(" ")
-            output.write(NormjoinPath(path_from_cmakelists_to_gyp, library_dir))
+            WriteString(
+                output, NormjoinPath(path_from_cmakelists_to_gyp, library_dir)
+            )
             output.write("\n")
         output.write(")\n")
 
-- 
2.43.0


From 83480ef0595198d04f3275fdd7c30acf1810b695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:21 +0000
Subject: [PATCH 79/81] fix: eclipse: escape include directories

---
 gyp/pylib/gyp/generator/eclipse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gyp/pylib/gyp/generator/eclipse.py b/gyp/pylib/gyp/generator/eclipse.py
index b4079f1..69f07fc 100644
--- a/gyp/pylib/gyp/generator/eclipse.py
+++ b/gyp/pylib/gyp/generator/eclipse.py
@@ -267,7 +267,7 @@ def WriteIncludePaths(out, eclipse_langs, include_dirs):
         for include_dir in include_dirs:
             out.write(
                 '      <includepath workspace_path="false">%s</includepath>\n'
-                % include_dir
+                % escape(include_dir)
             )
         out.write("    </language>\n")
     out.write("  </section>\n")
-- 
2.43.0


From 2e98fbf292db792421fe7b7217940c4126ada7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:21 +0000
Subject: [PATCH 80/81] fix: eclipse: resolve include directories of projects
 at the top

---
 gyp/pylib/gyp/generator/eclipse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gyp/pylib/gyp/generator/eclipse.py b/gyp/pylib/gyp/generator/eclipse.py
index 69f07fc..8576274 100644
--- a/gyp/pylib/gyp/generator/eclipse.py
+++ b/gyp/pylib/gyp/generator/eclipse.py
@@ -158,7 +158,7 @@ def GetAllIncludeDirectories(
                         if not os.path.isabs(include_dir):
                             base_dir = os.path.dirname(target_name)
 
-                            include_dir = base_dir + "/" + include_dir
+                            include_dir = os.path.join(base_dir, include_dir)
                             include_dir = os.path.abspath(include_dir)
 
                         gyp_includes_set.add(include_dir)
-- 
2.43.0


From 245d0060352ac70dd73aad0d5a78e3ecff38c672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:21 +0000
Subject: [PATCH 81/81] fix: eclipse: resolve SHARED_INTERMEDIATE_DIR against
 the top directory

---
 gyp/pylib/gyp/generator/eclipse.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gyp/pylib/gyp/generator/eclipse.py b/gyp/pylib/gyp/generator/eclipse.py
index 8576274..6f9411c 100644
--- a/gyp/pylib/gyp/generator/eclipse.py
+++ b/gyp/pylib/gyp/generator/eclipse.py
@@ -304,8 +304,8 @@ def GenerateOutputForConfig(target_list, target_dicts, data, params, config_name
     # Ninja uses out/Debug/gen while make uses out/Debug/obj/gen as the
     # SHARED_INTERMEDIATE_DIR. Include both possible locations.
     shared_intermediate_dirs = [
-        os.path.join(toplevel_build, "obj", "gen"),
-        os.path.join(toplevel_build, "gen"),
+        os.path.abspath(os.path.join(toplevel_build, "obj", "gen")),
+        os.path.abspath(os.path.join(toplevel_build, "gen")),
     ]
 
     GenerateCdtSettingsFile(
-- 
2.43.0

