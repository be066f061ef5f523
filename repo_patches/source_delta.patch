From 046f001147baf814cc06a3a536ae7f01664fd9e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:33 +0000
Subject: [PATCH 01/52] fix: bash: complete optional arguments when no option
 requires an argument

__complete_option returned successfully before looking at the options with an
optional argument if there was no option with a required argument.
---
 crazy_complete/bash_option_completion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crazy_complete/bash_option_completion.py b/crazy_complete/bash_option_completion.py
index 074377d..b98d5fa 100644
--- a/crazy_complete/bash_option_completion.py
+++ b/crazy_complete/bash_option_completion.py
@@ -129,7 +129,7 @@ class MasterCompletionFunctionNoWhen(MasterCompletionFunctionBase):
 
         if optional_arg:
             self.optionals = True
-            r =  '(( ! ret )) && return 0\n'
+            r =  '(( ! ret )) && return 0\n' if required_arg else ''
             r += '[[ "$mode" == WITH_OPTIONAL ]] || return 1\n'
             r += 'ret=0'
             self.code.append(r)
-- 
2.43.0


From aa702acffd52a55f94a3555de31ab5c18dce5e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:37 +0000
Subject: [PATCH 02/52] fix: bash: do not take the last letter of any word for
 a short option

With an old-style and a short option that require an argument, the case
statements fell through without testing the next pattern.
---
 crazy_complete/bash_option_completion.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crazy_complete/bash_option_completion.py b/crazy_complete/bash_option_completion.py
index b98d5fa..90cdf2b 100644
--- a/crazy_complete/bash_option_completion.py
+++ b/crazy_complete/bash_option_completion.py
@@ -255,7 +255,7 @@ def _get_prev_completion(info):
         r += '  --*);;\n'
 
     if info.old_required and info.short_required:
-        r += '  -*)  __complete_option "$prev" "$cur" WITHOUT_OPTIONAL && return 0;&\n'
+        r += '  -*)  __complete_option "$prev" "$cur" WITHOUT_OPTIONAL && return 0;;&\n'
         r += '  -%s[%s])\n' % (info.short_no_args_pattern, info.short_required_args)
         r += '       __complete_option "-${prev: -1}" "$cur" WITHOUT_OPTIONAL && return 0;;\n'
     elif info.old_required:
@@ -288,7 +288,7 @@ def _get_cur_completion(info):
 
     if info.old_required or info.old_optional:
         r += '  -*=*)\n'
-        r += '    __complete_option "${cur%%=*}" "${cur#*=}" WITH_OPTIONAL && return 0;&\n'
+        r += '    __complete_option "${cur%%=*}" "${cur#*=}" WITH_OPTIONAL && return 0;;&\n'
 
     if info.short_required or info.short_optional:
         r += '  -%s[%s%s]*)\n' % (short_no_args_pattern, short_required_args, short_optional_args)
-- 
2.43.0


From d852e6042550d28558e1157216ba9d9e8ba36a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:15 +0000
Subject: [PATCH 03/52] fix: fish: offer a hidden option only if it has really
 been typed

The test looked for the letter of the option anywhere in the last two words,
e.g. in the argument of another short option.
---
 crazy_complete/fish_helpers.py | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/crazy_complete/fish_helpers.py b/crazy_complete/fish_helpers.py
index 4e75249..e0fc349 100644
--- a/crazy_complete/fish_helpers.py
+++ b/crazy_complete/fish_helpers.py
@@ -63,6 +63,7 @@ set -l positionals_positions
 set -l having_options
 set -l option_values
 set -l last_arg_is_option_argument false
+set -l incomplete_option
 
 #ifdef subcommands
 function %PREFIX%_match_positionals -S
@@ -133,6 +134,7 @@ while test $argi -le $cmdline_count
           set argi (math $argi + 1)
         else
           set last_arg_is_option_argument true
+          set incomplete_option $arg
         end
       else
         set -a having_options $arg
@@ -161,6 +163,7 @@ while test $argi -le $cmdline_count
             set argi (math $argi + 1)
           else
             set last_arg_is_option_argument true
+            set incomplete_option $arg
           end
         else if contains -- "$option_type" '0' '?'
           set -a having_options $arg
@@ -193,6 +196,7 @@ while test $argi -le $cmdline_count
             set argi (math $argi + 1)
           else
             set last_arg_is_option_argument true
+            set incomplete_option $option
           end
         else if test "$option_type" = '?'
           set end_of_parsing true
@@ -222,6 +226,7 @@ set -g __QUERY_CACHE_OPTION_VALUES  $option_values
 
 set -l cmdline_last_arg (commandline -ct | string unescape)
 set -g __QUERY_CACHE_CURRENT_ARG $cmdline_last_arg
+set -g __QUERY_CACHE_INCOMPLETE_OPTION $incomplete_option
 
 $last_arg_is_option_argument && return
 
@@ -229,16 +234,20 @@ set -l split (string split -m1 -- '=' $cmdline_last_arg)
 # `string split` returns 0 if it did split the string
 if test $status -eq 0 && contains -- (%PREFIX%_get_option $split[1]) '1' '?'
   set -g __QUERY_CACHE_CURRENT_ARG $split[2]
+  set -g __QUERY_CACHE_INCOMPLETE_OPTION $split[1]
   return
 end
 #ifdef short_options
 
+string match -q -- '--*' $cmdline_last_arg && return
+
 set -l arg_length (string length -- $cmdline_last_arg)
 set -l i 2
 while test $i -le $arg_length
   set -l option "-$(string sub -s $i -l 1 -- $cmdline_last_arg)"
   if contains -- (%PREFIX%_get_option $option) '1' '?'
     set -g __QUERY_CACHE_CURRENT_ARG (string sub -s (math $i + 1) -- $cmdline_last_arg)
+    set -g __QUERY_CACHE_INCOMPLETE_OPTION $option
     return
   end
 
@@ -302,19 +311,8 @@ end
 
 #ifdef with_incomplete
 if $with_incomplete
-  set -l tokens (commandline -po)
-  set -e tokens[1]
-  for option in $argv
-    if test 2 -eq (string length -- $option)
-      set option (string sub -l 1 -s 2 -- $option)
-      string match -rq -- "^-[A-z0-9]*$option\$"   $tokens[-2] && return 0
-      string match -rq -- "^-[A-z0-9]*$option.*\$" $tokens[-1] && return 0
-    else
-      string match -q -r -- "^$option\$"       $tokens[-2] && return 0
-      string match -q -r -- "^$option(=.*)?\$" $tokens[-1] && return 0
-      contains -- $tokens[-1] $argv && return 0
-    end
-  end
+  contains -- "$__QUERY_CACHE_INCOMPLETE_OPTION" $argv && return 0
+  contains -- "$(commandline -ct | string unescape)" $argv && return 0
 end
 
 #endif
-- 
2.43.0


From 75ee00bdfe68c41b9c990af1472c3b04b18425f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:09 +0000
Subject: [PATCH 04/52] fix: zsh: accept the options of parent commands in
 subcommands

Without inherit_options, an option given before the subcommand was taken for a
positional, so that nothing (or the wrong thing) was completed after it.
---
 crazy_complete/zsh.py | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/crazy_complete/zsh.py b/crazy_complete/zsh.py
index b8b0dff..1967f0b 100644
--- a/crazy_complete/zsh.py
+++ b/crazy_complete/zsh.py
@@ -81,6 +81,34 @@ class ZshCompletionFunction:
 
         return Arg(option, option.when, option_spec)
 
+    def _ignore_parent_options(self):
+        '''Make `_arguments` accept (but not offer) the options of the parents.
+
+        They may appear before the subcommand and would otherwise be taken
+        for positionals.
+        '''
+
+        known = self.commandline.get_option_strings()
+        args = []
+
+        for cmdline in reversed(self.commandline.get_parents()):
+            for option in cmdline.get_options():
+                option_strings = [o for o in option.option_strings if o not in known]
+                known.extend(option_strings)
+
+                if option_strings:
+                    args.append(Arg(None, None, zsh_utils.make_option_spec(
+                        option_strings,
+                        complete = option.complete,
+                        optional_arg = option.optional_arg,
+                        repeatable = True,
+                        hidden = True,
+                        action = "' '",
+                        long_opt_arg_sep = option.long_opt_arg_sep
+                    )))
+
+        return args
+
     def _complete_subcommands(self, positional):
         choices = positional.get_choices()
         self.command_counter += 1
@@ -172,6 +200,9 @@ class ZshCompletionFunction:
         for option in options:
             args.append(self._complete_option(option))
 
+        if not self.commandline.inherit_options:
+            args.extend(self._ignore_parent_options())
+
         for cmdline in self.commandline.get_parents():
             for option in cmdline.get_positionals():
                 args.append(self._complete_positional(option))
-- 
2.43.0


From 1b34d5e8e5f2b4ffedb2a353e34c372f113def06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:09 +0000
Subject: [PATCH 05/52] fix: fish: offer the options of a command with
 positionals and subcommands

They were offered only directly before the subcommand, not before the first
positional.
---
 crazy_complete/fish.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crazy_complete/fish.py b/crazy_complete/fish.py
index 76e623d..02b4e90 100644
--- a/crazy_complete/fish.py
+++ b/crazy_complete/fish.py
@@ -220,7 +220,7 @@ class FishCompletionGenerator:
         # ensures that we're in the right (sub)command.
         if not self.commandline.inherit_options and self.subcommands:
             positional = self.subcommands.get_positional_num()
-            definition.conditions.add(PositionalNum('==', positional - 1))
+            definition.conditions.add(PositionalNum('<=', positional - 1))
 
         definition.conditions.extend(_get_positional_contains(option))
         definition.conditions.add_when(option.when_parsed)
-- 
2.43.0


From 1b2f4e6679e21d27d99bf4588f412684f0ad298c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:09 +0000
Subject: [PATCH 06/52] fix: fish: recognise options of the program after the
 first positional

The pattern of the top-level command only matched while there was no positional
at all.
---
 crazy_complete/fish_helpers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crazy_complete/fish_helpers.py b/crazy_complete/fish_helpers.py
index e0fc349..1ab1261 100644
--- a/crazy_complete/fish_helpers.py
+++ b/crazy_complete/fish_helpers.py
@@ -67,6 +67,7 @@ set -l incomplete_option
 
 #ifdef subcommands
 function %PREFIX%_match_positionals -S
+  test -z "$argv[1]" && return 0
   set -l patterns (string split -- '>' "$argv[1]")
   set -l i (count $patterns)
 
-- 
2.43.0


From 3af12f96c34242a6aa1682e06e3c81b86bd13c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:31 +0000
Subject: [PATCH 07/52] fix: bash: no syntax error for a command with a final
 and only hidden options

The body of the if statement was empty.
---
 crazy_complete/bash_option_strings_completion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crazy_complete/bash_option_strings_completion.py b/crazy_complete/bash_option_strings_completion.py
index 20fae2f..a877e44 100644
--- a/crazy_complete/bash_option_strings_completion.py
+++ b/crazy_complete/bash_option_strings_completion.py
@@ -65,7 +65,7 @@ def _generate_option_strings_completion(options):
 def _generate_final_check_with_options(final_conditions, options):
     option_strings_completion = _generate_option_strings_completion(options)
 
-    if not final_conditions:
+    if not final_conditions or not options:
         return option_strings_completion
 
     r  = 'if (( %s )); then\n' % ' && '.join(final_conditions)
-- 
2.43.0


From c45d6545cf2492f937db5967bc6abe7654b43b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:31 +0000
Subject: [PATCH 08/52] fix: zsh: final options of a parent command end option
 completion, too

---
 crazy_complete/zsh.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crazy_complete/zsh.py b/crazy_complete/zsh.py
index 1967f0b..185228c 100644
--- a/crazy_complete/zsh.py
+++ b/crazy_complete/zsh.py
@@ -103,6 +103,7 @@ class ZshCompletionFunction:
                         optional_arg = option.optional_arg,
                         repeatable = True,
                         hidden = True,
+                        final = option.final,
                         action = "' '",
                         long_opt_arg_sep = option.long_opt_arg_sep
                     )))
-- 
2.43.0


From 147ed04a5cc63423c43ba112c1024cb73910734c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:16 +0000
Subject: [PATCH 09/52] fix: bash: complete inherited options in clusters with
 options of the subcommand

---
 crazy_complete/bash_option_completion.py | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/crazy_complete/bash_option_completion.py b/crazy_complete/bash_option_completion.py
index 90cdf2b..c995f19 100644
--- a/crazy_complete/bash_option_completion.py
+++ b/crazy_complete/bash_option_completion.py
@@ -220,11 +220,33 @@ class _Info:
             elif option.complete is None:
                 self.short_no_args += short_opts
 
+        # The options of this command are also completed in subcommands that
+        # inherit them, where they may follow flags of the subcommand.
+        for cmdline in self.commandline.get_all_commandlines():
+            if cmdline is self.commandline or not cmdline.inherit_options:
+                continue
+
+            for option in cmdline.get_options():
+                if option.complete is None:
+                    for short_opt in option.get_short_option_strings():
+                        if short_opt[1] not in self._all_short_options():
+                            self.short_no_args += short_opt[1]
+
+        # Arguments of options that are not completed by this command, but by
+        # one of its parents.
+        self.foreign_args = ''
+        for option in all_options:
+            if option.complete is not None and option not in options:
+                self.foreign_args += ''.join(o[1] for o in option.get_short_option_strings())
+
         if self.short_no_args:
             self.short_no_args_pattern = '*([%s])' % self.short_no_args
         else:
             self.short_no_args_pattern = ''
 
+    def _all_short_options(self):
+        return self.short_no_args + self.short_required_args + self.short_optional_args
+
     def _collect_options_info(self, options):
         for option in options:
             if option.get_long_option_strings():
@@ -299,6 +321,8 @@ def _get_cur_completion(info):
         r += '        %s "$pre"\n' % info.ctxt.helpers.use_function('prefix_compreply')
         r += '        return 0\n'
         r += '      }\n'
+        if info.foreign_args:
+            r += '      [[ "${pre: -1}" == [%s] ]] && break\n' % info.foreign_args
         r += '    done;;\n'
 
     # Optimization: Strip unused case patterns at the end
-- 
2.43.0


From c22cda68463e9617c033fea57d6619b030e8d9cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:18 +0000
Subject: [PATCH 10/52] fix: when: accept the documented operator != of
 positional_count

---
 crazy_complete/shell_parser.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crazy_complete/shell_parser.py b/crazy_complete/shell_parser.py
index f09e2d5..81a44ac 100644
--- a/crazy_complete/shell_parser.py
+++ b/crazy_complete/shell_parser.py
@@ -52,6 +52,10 @@ class Lexer(StringStream):
         if c is None:
             return None
 
+        if c == '!' and self.peek(1) == '=':
+            self.advance(2)
+            return Literal('!=')
+
         if c in ('!', '(', ')'):
             self.advance(1)
             return c
-- 
2.43.0


From 430b4c6ee85651ccecd5d5e9d13495640035dc32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:18 +0000
Subject: [PATCH 11/52] fix: when: reject an expression that ends with an
 operator

---
 crazy_complete/shell_parser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crazy_complete/shell_parser.py b/crazy_complete/shell_parser.py
index 81a44ac..c5073c0 100644
--- a/crazy_complete/shell_parser.py
+++ b/crazy_complete/shell_parser.py
@@ -158,6 +158,9 @@ def check_syntax(tokens):
     if last is None:
         raise ValueError("No command found")
 
+    if last in ('&&', '||', '!'):
+        raise ValueError(f"Missing command after `{last}`")
+
 
 def parse(string):
     '''Parse a string and turn it into And/Or/Not/Command objects.'''
-- 
2.43.0


From 5e694021db035835f2b4a204b27987dba5992aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:21 +0000
Subject: [PATCH 12/52] fix: when: the word under the cursor is not a given
 positional or option

---
 crazy_complete/bash.py           |  4 ++--
 crazy_complete/bash_parser.py    |  7 +++++--
 crazy_complete/bash_parser_v2.py |  7 +++++--
 crazy_complete/bash_when.py      |  2 +-
 crazy_complete/zsh.py            |  2 +-
 crazy_complete/zsh_helpers.py    | 24 +++++++++++++++++++++++-
 6 files changed, 37 insertions(+), 9 deletions(-)

diff --git a/crazy_complete/bash.py b/crazy_complete/bash.py
index 90f8f39..c6491e8 100644
--- a/crazy_complete/bash.py
+++ b/crazy_complete/bash.py
@@ -57,7 +57,7 @@ class BashCompletionGenerator:
                 if option.capture is not None:
                     local_vars.append(option.capture)
 
-        r = 'local END_OF_OPTIONS POSITIONALS\n'
+        r = 'local END_OF_OPTIONS POSITIONALS CURRENT_POSITIONAL\n'
 
         if local_vars:
             local_vars = algo.uniq(local_vars)
@@ -151,7 +151,7 @@ class BashCompletionGenerator:
             func = helpers.ShellFunction('parse_commandline', c)
             self.ctxt.helpers.add_function(func)
 
-            # This sets up END_OF_OPTIONS, POSITIONALS and the OPT_* variables.
+            # This sets up END_OF_OPTIONS, POSITIONALS, CURRENT_POSITIONAL and the OPT_* variables.
             code['command_line_parsing'] = self._generate_commandline_parsing()
 
         r  = '%s() {\n' % self.ctxt.helpers.make_completion_funcname(self.commandline)
diff --git a/crazy_complete/bash_parser.py b/crazy_complete/bash_parser.py
index a7e6bca..ff52867 100644
--- a/crazy_complete/bash_parser.py
+++ b/crazy_complete/bash_parser.py
@@ -14,6 +14,7 @@ from .bash_parser_subcommand_code import (
 
 _PARSER_CODE = '''\
 POSITIONALS=()
+CURRENT_POSITIONAL=0
 END_OF_OPTIONS=0
 
 local cmd="root" argi arg i char trailing_chars
@@ -24,7 +25,8 @@ for ((argi=1; argi < cword; ++argi)); do
   case "$arg" in
     --)
       END_OF_OPTIONS=1
-      POSITIONALS+=("${words_dequoted[@]:$((++argi))}")
+      POSITIONALS+=("${words_dequoted[@]:argi + 1:cword - argi}")
+      CURRENT_POSITIONAL=1
       return;;
     -?*) # ignore '-'
 %LONG_OPTION_CASES%
@@ -43,7 +45,8 @@ done
 for ((; argi <= cword; ++argi)); do
   case "${words_dequoted[argi]}" in
     -?*);;
-    *) POSITIONALS+=("${words_dequoted[argi]}");;
+    *) POSITIONALS+=("${words_dequoted[argi]}")
+       CURRENT_POSITIONAL=1;;
   esac
 done'''
 
diff --git a/crazy_complete/bash_parser_v2.py b/crazy_complete/bash_parser_v2.py
index 418e0af..b428c20 100644
--- a/crazy_complete/bash_parser_v2.py
+++ b/crazy_complete/bash_parser_v2.py
@@ -17,6 +17,7 @@ from .preprocessor import preprocess
 _PARSER_CODE = '''\
 #ifdef positionals
 POSITIONALS=()
+CURRENT_POSITIONAL=0
 #endif
 END_OF_OPTIONS=0
 
@@ -36,7 +37,8 @@ for ((argi=1; argi < cword; ++argi)); do
     --)
       END_OF_OPTIONS=1
 #ifdef positionals
-      POSITIONALS+=("${words_dequoted[@]:$((++argi))}")
+      POSITIONALS+=("${words_dequoted[@]:argi + 1:cword - argi}")
+      CURRENT_POSITIONAL=1
 #endif
       return;;
 #ifdef long_options
@@ -113,7 +115,8 @@ done
 for ((; argi <= cword; ++argi)); do
   case "${words_dequoted[argi]}" in
     -?*);;
-    *) POSITIONALS+=("${words_dequoted[argi]}");;
+    *) POSITIONALS+=("${words_dequoted[argi]}")
+       CURRENT_POSITIONAL=1;;
   esac
 done
 #endif'''
diff --git a/crazy_complete/bash_when.py b/crazy_complete/bash_when.py
index 12fc3ae..6887d4a 100644
--- a/crazy_complete/bash_when.py
+++ b/crazy_complete/bash_when.py
@@ -91,7 +91,7 @@ class ConditionGenerator:
         return f'(( {" + ".join(conditions)} ))'
 
     def _gen_positional_count(self, obj):
-        return f'(( ${{#POSITIONALS[@]}} {obj.operator} {obj.number} ))'
+        return f'(( ${{#POSITIONALS[@]}} - CURRENT_POSITIONAL {obj.operator} {obj.number} ))'
 
     def _gen_positional_contains(self, obj):
         func = self.ctxt.helpers.use_function('array_contains')
diff --git a/crazy_complete/zsh.py b/crazy_complete/zsh.py
index 185228c..d48d224 100644
--- a/crazy_complete/zsh.py
+++ b/crazy_complete/zsh.py
@@ -149,7 +149,7 @@ class ZshCompletionFunction:
         if self.query.used:
             r  = 'local opts=%s\n' % shell.quote(utils.get_query_option_strings(self.commandline))
             r += "local HAVING_OPTIONS=() OPTION_VALUES=() POSITIONALS=() INCOMPLETE_OPTION=''\n"
-            r += '%s init "$opts" "${words[@]}"' % self.query.use()
+            r += '%s init "$opts" "${(@)words[1,CURRENT]}"' % self.query.use()
             self.code['0-init'] = r
 
     def _generate_option_capture(self):
diff --git a/crazy_complete/zsh_helpers.py b/crazy_complete/zsh_helpers.py
index 884d2f5..46738ac 100644
--- a/crazy_complete/zsh_helpers.py
+++ b/crazy_complete/zsh_helpers.py
@@ -19,6 +19,8 @@ _QUERY = ShellFunction('query', r'''
 #     It parses <ARGS> according to <OPTIONS> and stores results in the
 #     variables POSITIONALS, HAVING_OPTIONS and OPTION_VALUES.
 #
+#     The last argument is the word under the cursor.
+#
 #     The first argument is a comma-separated list of options that the parser
 #     should know about. Short options (-o), long options (--option), and
 #     old-style options (-option) are supported.
@@ -228,13 +230,20 @@ INCOMPLETE_OPTION=''
 
 local args=("${(Q)@}")
 local argi=2 # argi[1] is program name
+local given_options=-1 given_positionals=-1
 for ((; argi <= ${#args[@]}; ++argi)); do
   local arg="${args[$argi]}"
+
+  if (( argi == ${#args[@]} )); then
+    given_options=${#HAVING_OPTIONS[@]}
+    given_positionals=${#POSITIONALS[@]}
+  fi
+
   local have_trailing_arg=$(test $argi -lt $# && echo true || echo false)
 
   case "$arg" in
     --)
-      POSITIONALS+=("${@:$((argi + 1))}")
+      POSITIONALS+=("${(@)args[argi + 1,-2]}")
       break;;
     --*=*)
       HAVING_OPTIONS+=("${arg%%=*}")
@@ -317,6 +326,19 @@ for ((; argi <= ${#args[@]}; ++argi)); do
       POSITIONALS+=("$arg");;
   esac
 done
+
+# The last argument is still being typed. It isn't given yet.
+if (( given_options >= 0 )); then
+#ifdef with_incomplete
+  if (( ${#HAVING_OPTIONS[@]} > given_options )); then
+    INCOMPLETE_OPTION="${HAVING_OPTIONS[-1]}"
+  fi
+
+#endif
+  HAVING_OPTIONS=("${(@)HAVING_OPTIONS[1,given_options]}")
+  OPTION_VALUES=("${(@)OPTION_VALUES[1,given_options]}")
+  POSITIONALS=("${(@)POSITIONALS[1,given_positionals]}")
+fi
 ''', ['array_contains'])
 
 _ARRAY_CONTAINS = ShellFunction('array_contains', r'''
-- 
2.43.0


From 61767010c7d9e71addd8f5da05044aaf2cbc6fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:52 +0000
Subject: [PATCH 13/52] fix: when: has_option and option_is refer to options,
 not to one of their strings (fish, zsh)

---
 crazy_complete/generation.py | 23 +++++++++++++++++++++--
 crazy_complete/zsh.py        |  4 ++--
 crazy_complete/zsh_when.py   |  3 +--
 3 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/crazy_complete/generation.py b/crazy_complete/generation.py
index 7adeca7..0528e7e 100644
--- a/crazy_complete/generation.py
+++ b/crazy_complete/generation.py
@@ -4,6 +4,7 @@
 '''Functions that are used in the generation process.'''
 
 from .errors import CrazyError
+from . import algo
 from . import completion_validator
 from . import cli
 from . import config as _config
@@ -96,11 +97,28 @@ def _apply_config(commandline, config):
             positional.when = None
 
 
+def _resolve_when_options(commandline, tokens):
+    '''Make conditions refer to options by all of their option strings.'''
+
+    for obj in tokens:
+        if isinstance(obj, (when.HasOption, when.OptionIs, when.OptionMatch)):
+            option_strings = list(obj.options)
+
+            for option in commandline.options:
+                if any(o in option.option_strings for o in obj.options):
+                    option_strings.extend(option.option_strings)
+
+            obj.options = algo.uniq(option_strings)
+
+    return tokens
+
+
 def _add_parsed_when(commandline):
     for option in commandline.options:
         if option.when:
             try:
-                option.when_parsed = when.parse_when(option.when)
+                option.when_parsed = _resolve_when_options(
+                    commandline, when.parse_when(option.when))
             except CrazyError as e:
                 raise CrazyError('%s: %s: when: %s' % (
                     commandline.get_command_path(),
@@ -112,7 +130,8 @@ def _add_parsed_when(commandline):
     for positional in commandline.positionals:
         if positional.when:
             try:
-                positional.when_parsed = when.parse_when(positional.when)
+                positional.when_parsed = _resolve_when_options(
+                    commandline, when.parse_when(positional.when))
             except CrazyError as e:
                 raise CrazyError('%s: %s: %s: when: %s' % (
                     commandline.get_command_path(),
diff --git a/crazy_complete/zsh.py b/crazy_complete/zsh.py
index d48d224..f2301fa 100644
--- a/crazy_complete/zsh.py
+++ b/crazy_complete/zsh.py
@@ -79,7 +79,7 @@ class ZshCompletionFunction:
             long_opt_arg_sep = option.long_opt_arg_sep
         )
 
-        return Arg(option, option.when, option_spec)
+        return Arg(option, option.when_parsed, option_spec)
 
     def _ignore_parent_options(self):
         '''Make `_arguments` accept (but not offer) the options of the parents.
@@ -131,7 +131,7 @@ class ZshCompletionFunction:
             self._complete(positional, *positional.complete).get_action_string()
         )
 
-        return Arg(positional, positional.when, spec)
+        return Arg(positional, positional.when_parsed, spec)
 
     def _generate_completion_code(self):
         self.code = OrderedDict()
diff --git a/crazy_complete/zsh_when.py b/crazy_complete/zsh_when.py
index 60f7236..c869b08 100644
--- a/crazy_complete/zsh_when.py
+++ b/crazy_complete/zsh_when.py
@@ -97,8 +97,7 @@ def _generate_positional_contains(ctxt, _query, obj):
         return f'{func} "${{POSITIONALS[{obj.number}]}}" {values}'
 
 
-def generate_when_conditions(ctxt, query, when_):
+def generate_when_conditions(ctxt, query, tokens):
     '''Generate when condition code.'''
 
-    tokens = when.parse_when(when_)
     return _generate(ctxt, query, tokens)
-- 
2.43.0


From ae56b10e7a8ea3bb5d927fb451a4c60fc26b6f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:33 +0000
Subject: [PATCH 14/52] fix: zsh: options and positionals whose condition is
 false stay known

---
 crazy_complete/zsh.py | 55 ++++++++++++++++++++++++++++++++++---------
 1 file changed, 44 insertions(+), 11 deletions(-)

diff --git a/crazy_complete/zsh.py b/crazy_complete/zsh.py
index f2301fa..ac2d98e 100644
--- a/crazy_complete/zsh.py
+++ b/crazy_complete/zsh.py
@@ -5,6 +5,8 @@
 
 from collections import namedtuple, OrderedDict
 
+from . import algo
+from . import cli
 from . import config as config_
 from . import generation
 from . import shell
@@ -97,19 +99,40 @@ class ZshCompletionFunction:
                 known.extend(option_strings)
 
                 if option_strings:
-                    args.append(Arg(None, None, zsh_utils.make_option_spec(
-                        option_strings,
-                        complete = option.complete,
-                        optional_arg = option.optional_arg,
-                        repeatable = True,
-                        hidden = True,
-                        final = option.final,
-                        action = "' '",
-                        long_opt_arg_sep = option.long_opt_arg_sep
-                    )))
+                    args.append(Arg(None, None, self._make_ignored_spec(option, option_strings)))
 
         return args
 
+    @staticmethod
+    def _make_ignored_spec(option, option_strings):
+        '''Return the specification of an option that is accepted, but not offered.'''
+
+        return zsh_utils.make_option_spec(
+            option_strings,
+            conflicting_options = option.get_conflicting_option_strings(),
+            complete = option.complete,
+            optional_arg = option.optional_arg,
+            repeatable = True,
+            hidden = True,
+            final = option.final,
+            action = "' '",
+            long_opt_arg_sep = option.long_opt_arg_sep
+        )
+
+    def _ignore_conditional_option(self, option):
+        '''Return code that makes `_arguments` accept an option whose condition is false.
+
+        It may have been given before the condition became false and would
+        otherwise be taken for a positional.
+        '''
+
+        for other in self.commandline.get_options(with_parent_options=True):
+            if other is not option and set(other.option_strings) & set(option.option_strings):
+                return ''
+
+        spec = self._make_ignored_spec(option, option.option_strings)
+        return ' ||\\\n  args+=(%s)' % spec
+
     def _complete_subcommands(self, positional):
         choices = positional.get_choices()
         self.command_counter += 1
@@ -244,7 +267,17 @@ class ZshCompletionFunction:
         for arg in args_with_when:
             when_cmd = zsh_when.generate_when_conditions(self.ctxt, self.query, arg.when)
             r += '%s &&\\\n' % when_cmd
-            r += '  args+=(%s)\n' % arg.option_spec
+            r += '  args+=(%s)' % arg.option_spec
+            if isinstance(arg.option, cli.Option):
+                r += self._ignore_conditional_option(arg.option)
+            r += '\n'
+
+        # A positional whose condition is false still takes its place.
+        numbers = [a.option.get_positional_num() for a in args_with_when
+                   if isinstance(a.option, cli.Positional) and not a.option.repeatable]
+
+        for num in algo.uniq(numbers):
+            r += '(( ${args[(I)%d:*]} )) || args+=(\'%d: : \')\n' % (num, num)
 
         if self.ctxt.config.option_stacking:
             r += '_arguments -S -s -w "${args[@]}"'
-- 
2.43.0


From dbbdb11be68c8779ae48aad0a1e7fa8423c1a45f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:11 +0000
Subject: [PATCH 15/52] fix: zsh: set up POSITIONALS for positional_count and
 positional_contains

---
 crazy_complete/zsh_when.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crazy_complete/zsh_when.py b/crazy_complete/zsh_when.py
index c869b08..7599334 100644
--- a/crazy_complete/zsh_when.py
+++ b/crazy_complete/zsh_when.py
@@ -83,11 +83,13 @@ def _generate_has_option(_ctxt, query, obj):
     return shell.join_quoted(args)
 
 
-def _generate_positional_count(_ctxt, _query, obj):
+def _generate_positional_count(_ctxt, query, obj):
+    query.use() # POSITIONALS is set by query!
     return f'(( ${{#POSITIONALS[@]}} {obj.operator} {obj.number} ))'
 
 
-def _generate_positional_contains(ctxt, _query, obj):
+def _generate_positional_contains(ctxt, query, obj):
+    query.use() # POSITIONALS is set by query!
     func = ctxt.helpers.use_function('array_contains')
     values = shell.join_quoted(obj.values)
 
-- 
2.43.0


From d3685026ad71ec66598badf2b42f1953b424bd99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:45 +0000
Subject: [PATCH 16/52] fix: bash, fish: a final option of a subcommand ends
 completion of inherited options, too

---
 .../bash_option_strings_completion.py          |  3 +++
 crazy_complete/fish.py                         | 18 +++++++++++++++++-
 crazy_complete/fish_conditions.py              | 10 ++++++++++
 3 files changed, 30 insertions(+), 1 deletion(-)

diff --git a/crazy_complete/bash_option_strings_completion.py b/crazy_complete/bash_option_strings_completion.py
index a877e44..0e10229 100644
--- a/crazy_complete/bash_option_strings_completion.py
+++ b/crazy_complete/bash_option_strings_completion.py
@@ -119,6 +119,9 @@ def generate(generator):
     r += '%s\n' % indent(_generate_final_check_with_options(final_conditions, options), 2)
     r += '  COMPREPLY+=($(compgen -W "${opts[*]}" -- "$cur"))\n'
     r += '  [[ ${COMPREPLY-} == *= ]] && compopt -o nospace\n'
+    if final_conditions and commandline.parent and commandline.inherit_options:
+        # Don't let the parent complete its options
+        r += '  (( %s )) || return 0\n' % ' && '.join(final_conditions)
     r += '  return 1\n'
     r += 'fi'
 
diff --git a/crazy_complete/fish.py b/crazy_complete/fish.py
index 02b4e90..463a54c 100644
--- a/crazy_complete/fish.py
+++ b/crazy_complete/fish.py
@@ -13,7 +13,7 @@ from . import generation
 from .output import Output
 from .fish_utils import FishCompleteCommand, VariableManager
 from .fish_conditions import (
-    Conditions, Not,
+    Conditions, Not, And,
     HasHiddenOption, HasOption, PositionalNum, PositionalContains
 )
 
@@ -223,10 +223,26 @@ class FishCompletionGenerator:
             definition.conditions.add(PositionalNum('<=', positional - 1))
 
         definition.conditions.extend(_get_positional_contains(option))
+        definition.conditions.extend(self._get_final_conditions_of_subcommands())
         definition.conditions.add_when(option.when_parsed)
 
         return definition
 
+    def _get_final_conditions_of_subcommands(self):
+        conditions = []
+
+        for commandline in self.commandline.get_all_commandlines():
+            if commandline is self.commandline or not commandline.inherit_options:
+                continue
+
+            for option in commandline.get_options():
+                if option.final:
+                    conditions.append(Not(And([
+                        *_get_positional_contains(option),
+                        HasOption(option.option_strings)])))
+
+        return conditions
+
     def _complete_positional(self, positional):
         context = self.ctxt.get_option_context(self.commandline, positional)
 
diff --git a/crazy_complete/fish_conditions.py b/crazy_complete/fish_conditions.py
index 0376095..62c462f 100644
--- a/crazy_complete/fish_conditions.py
+++ b/crazy_complete/fish_conditions.py
@@ -56,6 +56,16 @@ class Not(Condition):
         return 'not %s' % self.conditional.get_code(ctxt)
 
 
+class And(Condition):
+    '''Logical and.'''
+
+    def __init__(self, conditions):
+        self.conditions = conditions
+
+    def get_code(self, ctxt):
+        return 'begin %s ;end' % ' && '.join(c.get_code(ctxt) for c in self.conditions)
+
+
 class HasOption(Condition):
     '''Checks if an option is present on command line.'''
 
-- 
2.43.0


From 6b4ba5d71dd856f3e0b7e14e21a29df9b72e4384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:27 +0000
Subject: [PATCH 17/52] fix: bash: complete a command name that is already a
 complete command or abbreviation

---
 crazy_complete/bash.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crazy_complete/bash.py b/crazy_complete/bash.py
index c6491e8..d6f379d 100644
--- a/crazy_complete/bash.py
+++ b/crazy_complete/bash.py
@@ -72,7 +72,7 @@ class BashCompletionGenerator:
             return None
 
         positional_num = self.subcommands.get_positional_num()
-        r  = 'if (( %i < ${#POSITIONALS[@]} )); then\n' % (positional_num - 1)
+        r  = 'if (( %i < ${#POSITIONALS[@]} - CURRENT_POSITIONAL )); then\n' % (positional_num - 1)
         r += '  case "${POSITIONALS[%i]}" in\n' % (positional_num - 1)
         for subcommand in self.subcommands.subcommands:
             cmds = utils.get_all_command_variations(subcommand)
-- 
2.43.0


From acbd40d536466ff44c28171ea5db6c8b5a4bc37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:49 +0000
Subject: [PATCH 18/52] fix: fish: the completing argument of a positional is
 the whole word

---
 crazy_complete/fish_helpers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crazy_complete/fish_helpers.py b/crazy_complete/fish_helpers.py
index 1ab1261..deee2c2 100644
--- a/crazy_complete/fish_helpers.py
+++ b/crazy_complete/fish_helpers.py
@@ -240,6 +240,7 @@ if test $status -eq 0 && contains -- (%PREFIX%_get_option $split[1]) '1' '?'
 end
 #ifdef short_options
 
+string match -q -- '-*' $cmdline_last_arg || return
 string match -q -- '--*' $cmdline_last_arg && return
 
 set -l arg_length (string length -- $cmdline_last_arg)
-- 
2.43.0


From 65fe62b605cdf19ababb2f5873a786be388ccb0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:33 +0000
Subject: [PATCH 19/52] fix: fish: completers nested in prefix and list
 complete what is behind the prefix

---
 crazy_complete/fish_helpers.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/crazy_complete/fish_helpers.py b/crazy_complete/fish_helpers.py
index deee2c2..6d244a6 100644
--- a/crazy_complete/fish_helpers.py
+++ b/crazy_complete/fish_helpers.py
@@ -601,7 +601,8 @@ set -l value
 set -l values
 set -l descriptions
 
-set -g __fish_stripprefix "^.*"(string escape --style=regex -- $separator)
+set -l outer $__fish_stripprefix
+set -g __fish_stripprefix (test -n "$outer" && echo $outer || echo '^')"(.*"(string escape --style=regex -- $separator)")?"
 
 for value in (eval $func)
   set -l split (string split -- \t $value)
@@ -609,7 +610,7 @@ for value in (eval $func)
   set -a descriptions "$split[2]"
 end
 
-set -e __fish_stripprefix
+set -g __fish_stripprefix $outer
 
 set -l having_values (string split -- $separator $comp)
 set -l remaining_values_idxs
@@ -648,10 +649,11 @@ end
 _PREFIX = FishFunction('prefix', r'''
 set -l comp (get_completing_arg)
 set -l prefix_escaped (string escape --style=regex -- $argv[1])
-if string match -qr -- $prefix_escaped $comp
-  set -g __fish_stripprefix "^"$prefix_escaped
+if string match -qr -- "^$prefix_escaped" $comp
+  set -l outer $__fish_stripprefix
+  set -g __fish_stripprefix (test -n "$outer" && echo $outer || echo '^')$prefix_escaped
   printf "%s\n" $argv[1](eval $argv[2])
-  set -e __fish_stripprefix
+  set -g __fish_stripprefix $outer
 else
   printf "%s\n" $argv[1]
 end
@@ -709,9 +711,10 @@ function %PREFIX%__call_func_for_key -S
   set -l i
   for i in (seq 1 (count $keys))
     if test $keys[$i] = $argv[1]
+      set -l outer $__fish_stripprefix
       set -g __fish_stripprefix "^.*"(string escape --style=regex -- $sep2)
       $functions[$i]
-      set -e __fish_stripprefix
+      set -g __fish_stripprefix $outer
       return
     end
   end
@@ -762,9 +765,10 @@ function %PREFIX%__call_func_for_key -S
   set -l i
   for i in (seq 1 (count $keys))
     if test $keys[$i] = $argv[1]
+      set -l outer $__fish_stripprefix
       set -g __fish_stripprefix "^.*"(string escape --style=regex -- $sep)
       $functions[$i]
-      set -e __fish_stripprefix
+      set -g __fish_stripprefix $outer
       return
     end
   end
-- 
2.43.0


From b6963c38845c2e49f24e8d61747ac717a2708de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:28 +0000
Subject: [PATCH 20/52] fix: fish: value_list with duplicates inside another
 completer or with a separator special to sed

---
 crazy_complete/fish_complete.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/crazy_complete/fish_complete.py b/crazy_complete/fish_complete.py
index c396526..04af395 100644
--- a/crazy_complete/fish_complete.py
+++ b/crazy_complete/fish_complete.py
@@ -243,7 +243,7 @@ class FishCompleteDirectory(FishCompletionCommand):
 class FishCompleteValueList(FishCompletionCommand):
     '''Class for completing a list of values.'''
 
-    def __init__(self, ctxt, opts):
+    def __init__(self, ctxt, trace, opts):
         separator = opts.get('separator', ',')
         duplicates = opts.get('duplicates', False)
         values = opts['values']
@@ -261,11 +261,14 @@ class FishCompleteValueList(FishCompletionCommand):
 
         func = ctxt.helpers.add_dynamic_func(ctxt, code)
 
-        if duplicates:
+        # __fish_complete_list completes the whole word under the cursor and
+        # uses the separator as part of a sed expression
+        if duplicates and not trace and separator not in '/.*^$[]\\&':
             super().__init__(ctxt, ['__fish_complete_list', separator, func])
         else:
             complete_list_func = ctxt.helpers.use_function('list')
-            super().__init__(ctxt, [complete_list_func, separator, func])
+            duplicates_arg = ['-d'] if duplicates else []
+            super().__init__(ctxt, [complete_list_func, *duplicates_arg, separator, func])
 
 
 class FishCompleteKeyValueList(FishCompletionCommand):
@@ -547,8 +550,8 @@ class FishCompleter(shell.ShellCompleter):
     def exec_internal(self, ctxt, _trace, command):
         return FishCompletionRawCommand(ctxt, command)
 
-    def value_list(self, ctxt, _trace, opts):
-        return FishCompleteValueList(ctxt, opts)
+    def value_list(self, ctxt, trace, opts):
+        return FishCompleteValueList(ctxt, trace, opts)
 
     def key_value_list(self, ctxt, trace, pair_separator, value_separator, values, condition_func=None):
         return FishCompleteKeyValueList(ctxt, trace, self, pair_separator, value_separator, values, condition_func)
@@ -609,6 +612,8 @@ class FishCompleter(shell.ShellCompleter):
         return FishCompletionCommand(ctxt, ['__fish_print_filesystems'])
 
     def prefix(self, ctxt, trace, prefix, command):
+        trace.append('prefix')
+
         obj = self.complete_from_def(ctxt, trace, command)
         func = obj.get_function()
 
-- 
2.43.0


From 41eee35e359c45624b9f5e611e075cfed0078b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:28 +0000
Subject: [PATCH 21/52] fix: fish: use the value separator in
 key_value_list_exec

---
 crazy_complete/fish_helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crazy_complete/fish_helpers.py b/crazy_complete/fish_helpers.py
index 6d244a6..179de93 100644
--- a/crazy_complete/fish_helpers.py
+++ b/crazy_complete/fish_helpers.py
@@ -892,7 +892,7 @@ switch $pair
       set comp (string sub -e -$value_len -- $comp)
     end
 
-    set -g __fish_stripprefix "^.*"(string escape --style=regex -- $sep)
+    set -g __fish_stripprefix "^.*"(string escape --style=regex -- $sep2)
     for value in ($func $split[1])
       printf '%s%s\n' $comp $value
     end
-- 
2.43.0


From 0d770595e996946c4f2e9024ceb8b6ca97bf6047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:21 +0000
Subject: [PATCH 22/52] fix: key_value_list: accept a repeatable key in the
 excludes of another key

---
 crazy_complete/scheme_validator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crazy_complete/scheme_validator.py b/crazy_complete/scheme_validator.py
index 6f55119..fb78e60 100644
--- a/crazy_complete/scheme_validator.py
+++ b/crazy_complete/scheme_validator.py
@@ -464,7 +464,7 @@ def _check_key_value_list(ctxt, arguments):
 
         index = f'definition[{i}]'
         for i2, exclude in enumerate(compldef.value[3].value):
-            if exclude.value not in defined_keys:
+            if exclude.value not in defined_keys and f'*{exclude.value}' not in defined_keys:
                 cause = f'definition[{i}]: excludes[{i2}]: {exclude.value}'
                 msg = '%s: No such key' % cause
                 raise _error(msg, exclude)
-- 
2.43.0


From 2a3d18a127b132168c6d63f6f02c4d8a5415aa2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:30 +0000
Subject: [PATCH 23/52] fix: bash: distinct and valid variables for options
 with similar or unusual names

---
 crazy_complete/bash_utils.py | 36 +++++++++++++++++++++++++++++++++++-
 1 file changed, 35 insertions(+), 1 deletion(-)

diff --git a/crazy_complete/bash_utils.py b/crazy_complete/bash_utils.py
index 9799b24..5a6b39d 100644
--- a/crazy_complete/bash_utils.py
+++ b/crazy_complete/bash_utils.py
@@ -18,11 +18,40 @@ def make_option_variable_name(option, prefix=''):
 
     short_options = option.get_short_option_strings()
     if short_options:
-        return prefix + short_options[0][1]
+        char = short_options[0][1]
+        return prefix + (shell.make_identifier('X' + char)[1:] or 'x%x' % ord(char))
 
     raise AssertionError("make_option_variable_name: Should not be reached")
 
 
+def get_variable_number(option, variable):
+    '''Return a number that distinguishes options having the same variable name.
+
+    Options having an option string in common share the same number.
+    '''
+
+    groups = []
+
+    for commandline in option.parent.get_root_commandline().get_all_commandlines():
+        for other in commandline.options:
+            if make_option_variable_name(other) != variable:
+                continue
+
+            strings = set(other.option_strings)
+            for group in groups:
+                if group & strings:
+                    group |= strings
+                    break
+            else:
+                groups.append(strings)
+
+    for number, group in enumerate(groups, 1):
+        if group & set(option.option_strings):
+            return number
+
+    raise AssertionError("get_variable_number: Should not be reached")
+
+
 class VariableManager:
     '''Variable manager.'''
 
@@ -34,6 +63,11 @@ class VariableManager:
         '''Make a variable for an option.'''
 
         var = make_option_variable_name(option, self.prefix)
+        num = get_variable_number(option, make_option_variable_name(option))
+
+        if num > 1:
+            var += '__%d' % num
+
         self.variables.add(var)
         return var
 
-- 
2.43.0


From 75934b8ce1e4b6c271c2282c864422dd168687cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:01 +0000
Subject: [PATCH 24/52] fix: bash: quote special characters and match numbers
 exactly in patterns

---
 crazy_complete/bash.py                   |  2 +-
 crazy_complete/bash_option_completion.py | 12 ++++++------
 crazy_complete/bash_patterns.py          | 17 +++++++++++------
 crazy_complete/bash_utils.py             | 11 ++++++-----
 4 files changed, 24 insertions(+), 18 deletions(-)

diff --git a/crazy_complete/bash.py b/crazy_complete/bash.py
index d6f379d..95973fa 100644
--- a/crazy_complete/bash.py
+++ b/crazy_complete/bash.py
@@ -76,7 +76,7 @@ class BashCompletionGenerator:
         r += '  case "${POSITIONALS[%i]}" in\n' % (positional_num - 1)
         for subcommand in self.subcommands.subcommands:
             cmds = utils.get_all_command_variations(subcommand)
-            pattern = bash_patterns.make_pattern([shell.quote(s) for s in cmds])
+            pattern = bash_patterns.make_pattern(cmds)
             funcname = self.ctxt.helpers.make_completion_funcname(subcommand)
             if utils.is_worth_a_function(subcommand):
                 if self.commandline.inherit_options:
diff --git a/crazy_complete/bash_option_completion.py b/crazy_complete/bash_option_completion.py
index c995f19..8409986 100644
--- a/crazy_complete/bash_option_completion.py
+++ b/crazy_complete/bash_option_completion.py
@@ -240,7 +240,7 @@ class _Info:
                 self.foreign_args += ''.join(o[1] for o in option.get_short_option_strings())
 
         if self.short_no_args:
-            self.short_no_args_pattern = '*([%s])' % self.short_no_args
+            self.short_no_args_pattern = '*([%s])' % bash_patterns.escape(self.short_no_args)
         else:
             self.short_no_args_pattern = ''
 
@@ -278,12 +278,12 @@ def _get_prev_completion(info):
 
     if info.old_required and info.short_required:
         r += '  -*)  __complete_option "$prev" "$cur" WITHOUT_OPTIONAL && return 0;;&\n'
-        r += '  -%s[%s])\n' % (info.short_no_args_pattern, info.short_required_args)
+        r += '  -%s[%s])\n' % (info.short_no_args_pattern, bash_patterns.escape(info.short_required_args))
         r += '       __complete_option "-${prev: -1}" "$cur" WITHOUT_OPTIONAL && return 0;;\n'
     elif info.old_required:
         r += '  -*)  __complete_option "$prev" "$cur" WITHOUT_OPTIONAL && return 0;;\n'
     elif info.short_required:
-        r += '  -%s[%s])\n' % (info.short_no_args_pattern, info.short_required_args)
+        r += '  -%s[%s])\n' % (info.short_no_args_pattern, bash_patterns.escape(info.short_required_args))
         r += '       __complete_option "-${prev: -1}" "$cur" WITHOUT_OPTIONAL && return 0;;\n'
 
     r += 'esac'
@@ -292,8 +292,8 @@ def _get_prev_completion(info):
 
 def _get_cur_completion(info):
     short_no_args_pattern = info.short_no_args_pattern
-    short_required_args = info.short_required_args
-    short_optional_args = info.short_optional_args
+    short_required_args = bash_patterns.escape(info.short_required_args)
+    short_optional_args = bash_patterns.escape(info.short_optional_args)
 
     r = 'case "$cur" in\n'
 
@@ -322,7 +322,7 @@ def _get_cur_completion(info):
         r += '        return 0\n'
         r += '      }\n'
         if info.foreign_args:
-            r += '      [[ "${pre: -1}" == [%s] ]] && break\n' % info.foreign_args
+            r += '      [[ "${pre: -1}" == [%s] ]] && break\n' % bash_patterns.escape(info.foreign_args)
         r += '    done;;\n'
 
     # Optimization: Strip unused case patterns at the end
diff --git a/crazy_complete/bash_patterns.py b/crazy_complete/bash_patterns.py
index 2cd3dcf..27e17fc 100644
--- a/crazy_complete/bash_patterns.py
+++ b/crazy_complete/bash_patterns.py
@@ -3,11 +3,18 @@
 
 '''Module for creating Bash globs.'''
 
+import re
 from collections import defaultdict
 
 from .algo import numbers_are_contiguous
 
 
+def escape(string):
+    '''Escape characters that are special in a pattern.'''
+
+    return re.sub(r'([^a-zA-Z0-9_@%+=:,./-])', r'\\\1', string)
+
+
 class TrieNode:
     '''Trie class.'''
 
@@ -22,7 +29,7 @@ class TrieNode:
 
         node = self
         for char in string:
-            node = node.children[char]
+            node = node.children[escape(char)]
         node.is_terminal = True
 
 
@@ -30,12 +37,10 @@ def _build_pattern(parts):
     if len(parts) == 1:
         return parts[0]
 
-    try:
+    if all(len(part) == 1 and part in '0123456789' for part in parts):
         ints = sorted(map(int, parts))
         if numbers_are_contiguous(ints):
             return f'[{ints[0]}-{ints[-1]}]'
-    except ValueError:
-        pass
 
     return "@(" + "|".join(sorted(parts)) + ")"
 
@@ -68,7 +73,7 @@ def compact_glob_trie(strings):
     '''
     strings = sorted(set(strings))
     if len(strings) == 1:
-        return strings[0]
+        return escape(strings[0])
 
     # Build Trie
     root = TrieNode()
@@ -82,7 +87,7 @@ def compact_glob_trie(strings):
 def make_pattern(strings):
     '''Make a glob pattern that matches `strings`.'''
 
-    candidate0 = '|'.join(strings)
+    candidate0 = '|'.join(escape(s) for s in strings)
     candidate1 = compact_glob_trie(strings)
 
     return candidate0 if len(candidate0) < len(candidate1) else candidate1
diff --git a/crazy_complete/bash_utils.py b/crazy_complete/bash_utils.py
index 5a6b39d..6719be4 100644
--- a/crazy_complete/bash_utils.py
+++ b/crazy_complete/bash_utils.py
@@ -3,6 +3,7 @@
 
 '''Bash utility functions.'''
 
+from . import bash_patterns
 from . import shell
 
 
@@ -91,28 +92,28 @@ class CasePatterns:
     def for_long_without_arg(option_strings):
         '''Return a case pattern for long options without arguments.'''
 
-        return '|'.join(option_strings)
+        return '|'.join(bash_patterns.escape(o) for o in option_strings)
 
     @staticmethod
     def for_long_with_arg(option_strings):
         '''Return a case pattern for long options with arguments.'''
 
-        return '|'.join(f'{o}=*' for o in option_strings)
+        return '|'.join(f'{bash_patterns.escape(o)}=*' for o in option_strings)
 
     @staticmethod
     def for_short(option_strings):
         '''Return a case pattern for short options.'''
 
-        return '|'.join(o[1] for o in option_strings)
+        return '|'.join(bash_patterns.escape(o[1]) for o in option_strings)
 
     @staticmethod
     def for_old_without_arg(option_strings):
         '''Return a case pattern for old options without arguments.'''
 
         if len(option_strings) <= 2:
-            return '|'.join(option_strings)
+            return '|'.join(bash_patterns.escape(o) for o in option_strings)
 
-        return '-@(%s)' % '|'.join(o.lstrip('-') for o in option_strings)
+        return '-@(%s)' % '|'.join(bash_patterns.escape(o.lstrip('-')) for o in option_strings)
 
 
 def make_file_extension_pattern(extensions, fuzzy):
-- 
2.43.0


From 26e1254afd704a8455fba6fe86ff20a52c233881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:48 +0000
Subject: [PATCH 25/52] fix: zsh: quote option strings that contain special
 characters

---
 crazy_complete/zsh_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crazy_complete/zsh_utils.py b/crazy_complete/zsh_utils.py
index 7d9a273..1981fe5 100644
--- a/crazy_complete/zsh_utils.py
+++ b/crazy_complete/zsh_utils.py
@@ -111,6 +111,8 @@ def make_option_spec(
     else:
         opts = option_strings
 
+    opts = [shell.quote(escape_colon(o)) for o in opts]
+
     if len(opts) == 1:
         result.append(opts[0])
     else:
-- 
2.43.0


From 4d01d1d9c27621f67e4e0e6555b839af87bfde26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:07 +0000
Subject: [PATCH 26/52] fix: bash: options inherited by the subcommands of
 'add' were also parsed as options of a sibling 'add-all'

---
 crazy_complete/bash_parser.py                 |  6 ++----
 crazy_complete/bash_parser_subcommand_code.py | 14 ++++++++++++++
 crazy_complete/bash_parser_v2.py              |  7 ++-----
 3 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/crazy_complete/bash_parser.py b/crazy_complete/bash_parser.py
index ff52867..9a9fba9 100644
--- a/crazy_complete/bash_parser.py
+++ b/crazy_complete/bash_parser.py
@@ -9,7 +9,7 @@ from . import utils
 from .str_utils import indent
 from .bash_utils import CasePatterns
 from .bash_parser_subcommand_code import (
-    make_subcommand_switch_code, get_subcommand_path
+    make_subcommand_switch_code, get_subcommand_pattern
 )
 
 _PARSER_CODE = '''\
@@ -63,9 +63,7 @@ def generate(commandline, variable_manager):
 
     for cmdline in commandlines:
         option_cases = _generate_option_cases(cmdline, variable_manager)
-        command = get_subcommand_path(cmdline)
-        if cmdline.inherit_options:
-            command += '*'
+        command = get_subcommand_pattern(cmdline)
 
         if option_cases.long_options:
             r = 'case "$cmd" in %s)\n' % command
diff --git a/crazy_complete/bash_parser_subcommand_code.py b/crazy_complete/bash_parser_subcommand_code.py
index 163ab46..4f40efc 100644
--- a/crazy_complete/bash_parser_subcommand_code.py
+++ b/crazy_complete/bash_parser_subcommand_code.py
@@ -18,6 +18,20 @@ def get_subcommand_path(commandline):
     return ':'.join(prognames)
 
 
+def get_subcommand_pattern(commandline):
+    '''
+    Return a Bash pattern that matches the path of `commandline`.
+
+    If `commandline` passes its options on to its subcommands, the pattern
+    matches their paths, too.
+    '''
+    path = get_subcommand_path(commandline)
+    pattern = shell.quote(path)
+    if commandline.inherit_options:
+        pattern += '|%s*' % shell.quote(path + ':')
+    return pattern
+
+
 def make_subcommand_switch_code(commandline):
     '''
     Generate Bash code that tracks and updates the current subcommand path.
diff --git a/crazy_complete/bash_parser_v2.py b/crazy_complete/bash_parser_v2.py
index b428c20..b3a9efe 100644
--- a/crazy_complete/bash_parser_v2.py
+++ b/crazy_complete/bash_parser_v2.py
@@ -10,7 +10,7 @@ from . import shell
 from . import bash_patterns
 from .str_utils import indent
 from .bash_parser_subcommand_code import (
-    make_subcommand_switch_code, get_subcommand_path
+    make_subcommand_switch_code, get_subcommand_pattern
 )
 from .preprocessor import preprocess
 
@@ -149,10 +149,7 @@ def _make_cmd_plus_option_switch_code(commandline, variable_manager, omit_cmd_ch
     if omit_cmd_check:
         return _make_option_switch_code(option_cases)
 
-    command = get_subcommand_path(commandline)
-    command = shell.quote(command)
-    if commandline.inherit_options:
-        command += '*'
+    command = get_subcommand_pattern(commandline)
 
     r = f'case "$1" in {command})\n'
     r += '%s\n' % indent(_make_option_switch_code(option_cases), 2)
-- 
2.43.0


From 542842b9bf020e91adf52b7cf53494a9fc5e2fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:52 +0000
Subject: [PATCH 27/52] fix: fish: values with the separator of the key-value
 completer around nested completers

---
 crazy_complete/fish_helpers.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crazy_complete/fish_helpers.py b/crazy_complete/fish_helpers.py
index 179de93..928da43 100644
--- a/crazy_complete/fish_helpers.py
+++ b/crazy_complete/fish_helpers.py
@@ -712,7 +712,7 @@ function %PREFIX%__call_func_for_key -S
   for i in (seq 1 (count $keys))
     if test $keys[$i] = $argv[1]
       set -l outer $__fish_stripprefix
-      set -g __fish_stripprefix "^.*"(string escape --style=regex -- $sep2)
+      set -g __fish_stripprefix (test -n "$outer" && echo $outer || echo '^')"(.*"(string escape --style=regex -- $sep1)")?.*?"(string escape --style=regex -- $sep2)
       $functions[$i]
       set -g __fish_stripprefix $outer
       return
@@ -766,7 +766,7 @@ function %PREFIX%__call_func_for_key -S
   for i in (seq 1 (count $keys))
     if test $keys[$i] = $argv[1]
       set -l outer $__fish_stripprefix
-      set -g __fish_stripprefix "^.*"(string escape --style=regex -- $sep)
+      set -g __fish_stripprefix (test -n "$outer" && echo $outer || echo '^')".*?"(string escape --style=regex -- $sep)
       $functions[$i]
       set -g __fish_stripprefix $outer
       return
@@ -801,7 +801,7 @@ set -l split (string split -m1 -- $sep $comp)
 
 if test (count $split) -eq 2
   set -l value
-  set -g __fish_stripprefix "^.*"(string escape --style=regex -- $sep)
+  set -g __fish_stripprefix "^.*?"(string escape --style=regex -- $sep)
   for value in ($func $split[1])
     printf '%s%s%s\n' $split[1] $sep $value
   end
@@ -892,7 +892,7 @@ switch $pair
       set comp (string sub -e -$value_len -- $comp)
     end
 
-    set -g __fish_stripprefix "^.*"(string escape --style=regex -- $sep2)
+    set -g __fish_stripprefix "^(.*"(string escape --style=regex -- $sep1)")?.*?"(string escape --style=regex -- $sep2)
     for value in ($func $split[1])
       printf '%s%s\n' $comp $value
     end
-- 
2.43.0


From 4066df05756aaa2c1529d4fe2eea426237cbc756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:52 +0000
Subject: [PATCH 28/52] fix: bash: choices that contain = or : were not
 completed behind it

---
 crazy_complete/bash_complete.py | 30 ++++++++++++++++++++----------
 crazy_complete/bash_helpers.py  |  7 +++++--
 2 files changed, 25 insertions(+), 12 deletions(-)

diff --git a/crazy_complete/bash_complete.py b/crazy_complete/bash_complete.py
index 678e5fd..9389f74 100644
--- a/crazy_complete/bash_complete.py
+++ b/crazy_complete/bash_complete.py
@@ -93,21 +93,31 @@ class BashCompletionFunc(BashCompletionBase):
 class CompgenW(BashCompletionBase):
     '''Used for completing a list of words.'''
 
-    def __init__(self, ctxt, values):
+    # Commands that deal with word breaks themselves
+    _NESTING_COMMANDS = (
+        'key_value_list', 'key_value_pair', 'list')
+
+    def __init__(self, ctxt, trace, values):
         self.ctxt = ctxt
         self.values = [str(value) for value in values]
+        self.wordbreaks = (
+            any(c in value for value in self.values for c in '=:') and
+            not any(command in trace for command in self._NESTING_COMMANDS))
 
     def get_code(self, append=False):
-        needs_quote = any(filter(shell.needs_quote, self.values))
-
-        if not needs_quote:
+        needs_quote = any(map(shell.needs_quote, self.values))
+        if not needs_quote and not self.wordbreaks:
             return 'COMPREPLY%s=($(compgen -W %s -- "$cur"))' % (
                 ('+' if append else ''),
                 shell.quote(' '.join(self.values)))
 
-        return ('%s %s-- %s' % (
+        if self.wordbreaks:
+            self.ctxt.helpers.use_function('values', 'wordbreaks')
+
+        return ('%s %s%s-- %s' % (
             self.ctxt.helpers.use_function('values'),
             ('-a ' if append else ''),
+            ('-b ' if self.wordbreaks else ''),
             shell.join_quoted(self.values)))
 
     def get_function(self):
@@ -172,7 +182,7 @@ class BashCompleteKeyValueList(BashCompletionCode):
             elif definition.completer[0] == 'none':
                 func = 'true'
             else:
-                obj = completer.complete_from_def(ctxt, trace, definition.completer)
+                obj = completer.complete_from_def(ctxt, trace + ['key_value_list'], definition.completer)
                 func = obj.get_function()
 
             excludes = []
@@ -219,7 +229,7 @@ class BashCompleteKeyValuePair(BashCompletionCode):
             elif complete[0] == 'none':
                 func = 'true'
             else:
-                obj = completer.complete_from_def(ctxt, trace, complete)
+                obj = completer.complete_from_def(ctxt, trace + ['key_value_pair'], complete)
                 func = obj.get_function()
 
             condition = ''
@@ -271,8 +281,8 @@ class BashCompleter(shell.ShellCompleter):
     def float(self, ctxt, trace, options=None):
         return self.integer(ctxt, trace, options)
 
-    def choices(self, ctxt, _trace, choices):
-        return CompgenW(ctxt, choices)
+    def choices(self, ctxt, trace, choices):
+        return CompgenW(ctxt, trace, choices)
 
     def command(self, ctxt, _trace, opts=None):
         code = None
@@ -427,7 +437,7 @@ class BashCompleter(shell.ShellCompleter):
         separator = opts.get('separator', ',') if opts else ','
         duplicates = opts.get('duplicates', False) if opts else False
 
-        obj = self.complete_from_def(ctxt, trace, command)
+        obj = self.complete_from_def(ctxt, trace + ['list'], command)
         code = obj.get_code()
 
         func = ctxt.helpers.use_function('value_list')
diff --git a/crazy_complete/bash_helpers.py b/crazy_complete/bash_helpers.py
index eda5ecf..028bd94 100644
--- a/crazy_complete/bash_helpers.py
+++ b/crazy_complete/bash_helpers.py
@@ -6,16 +6,19 @@
 from .helpers import GeneralHelpers, ShellFunction
 
 _VALUES = ShellFunction('values', r'''
-local word append=0
+local word append=0 break_pos=0
 
 [[ "$1" == "-a" ]] && { shift; append=1; }
+#ifdef wordbreaks
+[[ "$1" == "-b" ]] && { shift; word="${cur##*[$COMP_WORDBREAKS]}"; break_pos=$(( ${#cur} - ${#word} )); }
+#endif
 [[ "$1" == "--" ]] && { shift; }
 
 (( append )) || COMPREPLY=()
 
 for word; do
   if [[ "$word" == "$cur"* ]]; then
-    COMPREPLY+=("$(printf '%q' "$word")")
+    COMPREPLY+=("$(printf '%q' "${word:break_pos}")")
   fi
 done
 ''')
-- 
2.43.0


From c371cf0e76732dc42dba8dcba3d5fb19d5720cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:30 +0000
Subject: [PATCH 29/52] fix: bash: after --, the word behind a word that looks
 like an option was completed as its argument

---
 crazy_complete/bash_option_completion.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crazy_complete/bash_option_completion.py b/crazy_complete/bash_option_completion.py
index 8409986..366363a 100644
--- a/crazy_complete/bash_option_completion.py
+++ b/crazy_complete/bash_option_completion.py
@@ -370,4 +370,7 @@ def generate_option_completion(self):
         dispatcher_code = dispatcher_code.replace('WITH_OPTIONAL ', '')
         dispatcher_code = dispatcher_code.replace('WITHOUT_OPTIONAL ', '')
 
+    dispatcher_code = indent(dispatcher_code, 2)
+    dispatcher_code = f'if (( ! END_OF_OPTIONS )); then\n{dispatcher_code}\nfi'
+
     return f'{complete_function_code}\n\n{dispatcher_code}'
-- 
2.43.0


From 4743e243bd811214c42376aa6945ff97fb20bfd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:06 +0000
Subject: [PATCH 30/52] fix: yaml: scalars were read differently by the
 validator than by the YAML loader

---
 crazy_complete/extended_yaml_parser.py | 37 +++++++++-----------------
 1 file changed, 12 insertions(+), 25 deletions(-)

diff --git a/crazy_complete/extended_yaml_parser.py b/crazy_complete/extended_yaml_parser.py
index cd1f2ec..be15844 100644
--- a/crazy_complete/extended_yaml_parser.py
+++ b/crazy_complete/extended_yaml_parser.py
@@ -75,7 +75,7 @@ class ExtendedYAMLParser:
             self.current_stack.append(new_seq)
             self.current_key = None
         elif isinstance(event, ScalarEvent):
-            value = self.convert_scalar(event.value, event.implicit)
+            value = self.convert_scalar(event)
             value = ValueWithTrace.from_yaml_event(value, self.src, event)
 
             if self.current_stack and isinstance(self.current_stack[-1].value, list):
@@ -111,30 +111,17 @@ class ExtendedYAMLParser:
         else:
             raise _error("Invalid structure in YAML", value)
 
-    def convert_scalar(self, value, implicit):
+    def convert_scalar(self, event):
         """
-        Converts a scalar based on its type hints (implicit tuple).
+        Converts a scalar to the value that the normal YAML loader gives it.
         """
-        if implicit[0]:
-            lower = value.lower()
-
-            if lower in ("null", "~", ""):
-                return None
-
-            if lower in ("true", "on", "yes"):
-                return True
-
-            if lower in ("false", "off", "no"):
-                return False
-
-            try:
-                return int(value)
-            except ValueError:
-                pass
-
-            try:
-                return float(value)
-            except ValueError:
-                pass
+        loader = yaml.SafeLoader('')
+        try:
+            tag = event.tag
+            if tag is None or tag == '!':
+                tag = loader.resolve(yaml.ScalarNode, event.value, event.implicit)
 
-        return value
+            return loader.construct_object(yaml.ScalarNode(
+                tag, event.value, event.start_mark, event.end_mark))
+        finally:
+            loader.dispose()
-- 
2.43.0


From e571c63c31fed5c29de40cffb589c57bee783d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:06 +0000
Subject: [PATCH 31/52] fix: yaml: characters outside the basic multilingual
 plane were written as surrogate pairs

---
 crazy_complete/yaml_source.py | 37 +++++++++++++++++++++++++----------
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/crazy_complete/yaml_source.py b/crazy_complete/yaml_source.py
index 458bb32..80bb138 100644
--- a/crazy_complete/yaml_source.py
+++ b/crazy_complete/yaml_source.py
@@ -6,6 +6,7 @@ This module provides functions for creating CommandLine objects from YAML
 and vice versa.
 """
 
+import re
 import json
 import yaml
 
@@ -19,6 +20,22 @@ from .cli import INHERIT
 # pylint: disable=redefined-builtin
 
 
+def _dump(value):
+    '''Convert a value to a JSON text that is also valid YAML.'''
+
+    # YAML has no surrogate pairs
+    def _replace(match):
+        if not match[1]:
+            return match[0]
+
+        high, low = int(match[1], 16), int(match[2], 16)
+        code = 0x10000 + ((high - 0xd800) << 10) + (low - 0xdc00)
+        return f'\\U{code:08x}'
+
+    return re.sub(
+        r'\\u(d[89ab]..)\\u(d[c-f]..)|\\.', _replace, json.dumps(value))
+
+
 def option_to_yaml(dictionary):
     '''Convert an option dictionary to YAML.'''
 
@@ -40,13 +57,13 @@ def option_to_yaml(dictionary):
         ('long_opt_arg_sep', INHERIT,   lambda v: v != INHERIT),
     ]
 
-    r = [f'- option_strings: {json.dumps(option_strings)}']
+    r = [f'- option_strings: {_dump(option_strings)}']
 
     for name, default, include_if in fields:
         value = dictionary.get(name, default)
 
         if include_if(value):
-            r.append(f'  {name}: {json.dumps(value)}')
+            r.append(f'  {name}: {_dump(value)}')
 
     return '\n'.join(r)
 
@@ -73,7 +90,7 @@ def positional_to_yaml(dictionary):
         value = dictionary.get(name, default)
 
         if include_if(value):
-            r.append(f'  {name}: {json.dumps(value)}')
+            r.append(f'  {name}: {_dump(value)}')
 
     return '\n'.join(r)
 
@@ -91,25 +108,25 @@ def to_yaml(dictionary):
     options             = dictionary.get('options',             None)
     positionals         = dictionary.get('positionals',         None)
 
-    r = 'prog: %s\n' % json.dumps(prog)
+    r = 'prog: %s\n' % _dump(prog)
 
     if aliases is not None:
-        r += 'aliases: %s\n' % json.dumps(aliases)
+        r += 'aliases: %s\n' % _dump(aliases)
 
     if help is not None:
-        r += 'help: %s\n' % json.dumps(help)
+        r += 'help: %s\n' % _dump(help)
 
     if wraps is not None:
-        r += 'wraps: %s\n' % json.dumps(wraps)
+        r += 'wraps: %s\n' % _dump(wraps)
 
     if abbreviate_commands != INHERIT:
-        r += 'abbreviate_commands: %s\n' % json.dumps(abbreviate_commands)
+        r += 'abbreviate_commands: %s\n' % _dump(abbreviate_commands)
 
     if abbreviate_options != INHERIT:
-        r += 'abbreviate_options: %s\n' % json.dumps(abbreviate_options)
+        r += 'abbreviate_options: %s\n' % _dump(abbreviate_options)
 
     if inherit_options != INHERIT:
-        r += 'inherit_options: %s\n' % json.dumps(inherit_options)
+        r += 'inherit_options: %s\n' % _dump(inherit_options)
 
     if options:
         r += 'options:\n'
-- 
2.43.0


From 358c2c2c3298782314cd4db065724ed01475a849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:57 +0000
Subject: [PATCH 32/52] fix: validate the definitions of nested subcommands at
 any depth

---
 crazy_complete/scheme_validator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crazy_complete/scheme_validator.py b/crazy_complete/scheme_validator.py
index fb78e60..c7c0e46 100644
--- a/crazy_complete/scheme_validator.py
+++ b/crazy_complete/scheme_validator.py
@@ -976,7 +976,7 @@ class DefinitionTree:
         '''Call `callback` on each node in the tree.'''
         callback(self)
         for subcommand in self.subcommands.values():
-            callback(subcommand)
+            subcommand.visit(callback)
 
     def get_all(self):
         '''Return a list of all nodes.'''
-- 
2.43.0


From 1c8d190c59b35c3b83ed344cfc31edef81908a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:56 +0000
Subject: [PATCH 33/52] fix: file_list, directory_list: generating changed the
 definition

---
 crazy_complete/shell.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crazy_complete/shell.py b/crazy_complete/shell.py
index 0bd6990..ec4ab5e 100644
--- a/crazy_complete/shell.py
+++ b/crazy_complete/shell.py
@@ -145,6 +145,7 @@ class ShellCompleter:
     # =========================================================================
 
     def file_list(self, ctxt, trace, opts=None):
+        opts = dict(opts) if opts else opts
         list_opts = {
             'separator': opts.pop('separator', ',') if opts else ',',
             'duplicates': opts.pop('duplicates', False) if opts else False
@@ -153,6 +154,7 @@ class ShellCompleter:
         return self.list(ctxt, trace, ['file', opts], list_opts)
 
     def directory_list(self, ctxt, trace, opts=None):
+        opts = dict(opts) if opts else opts
         list_opts = {
             'separator': opts.pop('separator', ',') if opts else ',',
             'duplicates': opts.pop('duplicates', False) if opts else False
-- 
2.43.0


From 331ebf5f549d795d87100df5a354f52885541661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:56 +0000
Subject: [PATCH 34/52] fix: python: files of the same name were mixed up when
 several are loaded in one process

---
 crazy_complete/file_loader.py | 48 ++++++++++++++++++-----------------
 1 file changed, 25 insertions(+), 23 deletions(-)

diff --git a/crazy_complete/file_loader.py b/crazy_complete/file_loader.py
index 792cf78..cfef5af 100644
--- a/crazy_complete/file_loader.py
+++ b/crazy_complete/file_loader.py
@@ -5,8 +5,8 @@
 
 import os
 import sys
-import importlib
-import tempfile
+import importlib.machinery
+import importlib.util
 import __main__
 
 
@@ -34,25 +34,27 @@ def execute_file(file):
 
 def import_file(file):
     '''Import file using importlib.'''
-    directory, filename = os.path.split(file)
-    if filename.lower().endswith('.py'):
-        module_name = filename[:-3]
-    else:
-        temp = tempfile.NamedTemporaryFile(mode='w',
-                                           encoding='utf-8',
-                                           suffix='.py')
 
-        with open(file, 'r', encoding='utf-8') as fh:
-            temp.file.write(fh.read())
-            temp.flush()
-
-        directory, file = os.path.split(temp.name)
-        module_name = file[:-3]
-
-    if not directory:
-        directory = '.'
-
-    if directory not in sys.path:
-        sys.path.append(directory)
-
-    return importlib.import_module(module_name)
+    # The module gets a name of its own and, like the modules it imports from
+    # its directory, it is not kept: another file may use the same names.
+    directory = os.path.dirname(os.path.abspath(file))
+    module_name = '_crazy_complete_input'
+    loader = importlib.machinery.SourceFileLoader(module_name, file)
+    spec = importlib.util.spec_from_loader(module_name, loader)
+    module = importlib.util.module_from_spec(spec)
+    old_modules = set(sys.modules)
+
+    sys.path.append(directory)
+    sys.modules[module_name] = module
+
+    try:
+        loader.exec_module(module)
+    finally:
+        sys.path.remove(directory)
+
+        for name in set(sys.modules) - old_modules:
+            path = getattr(sys.modules[name], '__file__', None) or ''
+            if name == module_name or os.path.dirname(os.path.abspath(path)) == directory:
+                del sys.modules[name]
+
+    return module
-- 
2.43.0


From 72e08d2ef914da3a8ceea63220d3bdb5e8cb8787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:19 +0000
Subject: [PATCH 35/52] fix: zsh: words that begin with = were expanded

---
 crazy_complete/shell.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crazy_complete/shell.py b/crazy_complete/shell.py
index ec4ab5e..a735d21 100644
--- a/crazy_complete/shell.py
+++ b/crazy_complete/shell.py
@@ -35,7 +35,8 @@ def make_identifier(string):
 def needs_quote(string):
     '''Return if string needs quoting.'''
 
-    return not re.fullmatch('[a-zA-Z0-9_@%+=:,./-]+', string)
+    # Zsh expands words that begin with `=`
+    return not re.fullmatch('(?!=)[a-zA-Z0-9_@%+=:,./-]+', string)
 
 
 def quote(string, quote_empty_string=True):
-- 
2.43.0


From 8821ee98ae98a720cd54d58545c8feeac2953797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:19 +0000
Subject: [PATCH 36/52] fix: zsh: conditions with double negation gave a script
 with a syntax error

---
 crazy_complete/zsh_when.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crazy_complete/zsh_when.py b/crazy_complete/zsh_when.py
index 7599334..e510822 100644
--- a/crazy_complete/zsh_when.py
+++ b/crazy_complete/zsh_when.py
@@ -28,6 +28,10 @@ def _generate(ctxt, query, tokens):
         elif isinstance(obj, when.PositionalContains):
             r.append(_generate_positional_contains(ctxt, query, obj))
 
+        elif obj == '!' and r and r[-1] == '!':
+            # Zsh has no double negation
+            r.pop()
+
         elif obj in ('&&', '||', '!'):
             r.append(obj)
 
-- 
2.43.0


From 37867568cead61d4b955b2517e25d56a67191010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:19 +0000
Subject: [PATCH 37/52] fix: when: a command right behind a closing parenthesis
 was accepted

---
 crazy_complete/shell_parser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crazy_complete/shell_parser.py b/crazy_complete/shell_parser.py
index c5073c0..9b08d1d 100644
--- a/crazy_complete/shell_parser.py
+++ b/crazy_complete/shell_parser.py
@@ -150,6 +150,9 @@ def check_syntax(tokens):
             if last not in (None, '(', '&&', '||', '!'):
                 raise ValueError("Unexpected `!`")
 
+        elif last == ')':
+            raise ValueError(f"Unexpected `{token.args[0]}`")
+
         last = token
 
     if parentheses > 0:
-- 
2.43.0


From e57240a0bfbf55a0c3639cfcee76a02863b37208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:14 +0000
Subject: [PATCH 38/52] fix: zsh: a long list of choices with numbers crashed
 the generation

---
 crazy_complete/zsh_complete.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crazy_complete/zsh_complete.py b/crazy_complete/zsh_complete.py
index a751d5c..5d1677c 100644
--- a/crazy_complete/zsh_complete.py
+++ b/crazy_complete/zsh_complete.py
@@ -82,7 +82,7 @@ class ZshCompleteChoices(ZshCompletionBase):
 
     def _list_function(self):
         metavar = shell.quote(self.ctxt.option.metavar or '')
-        quoted = [shell.quote(escape_colon(c)) for c in self.choices]
+        quoted = [shell.quote(escape_colon(str(c))) for c in self.choices]
         line_length = self.ctxt.config.line_length - 2
 
         code = 'local items=(\n'
-- 
2.43.0


From 61966680c7bf7b3a937c626296885a566a72594a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:14 +0000
Subject: [PATCH 39/52] fix: validator: definitions of the wrong type crashed
 instead of being reported

---
 crazy_complete/scheme_validator.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/crazy_complete/scheme_validator.py b/crazy_complete/scheme_validator.py
index c7c0e46..5613d8d 100644
--- a/crazy_complete/scheme_validator.py
+++ b/crazy_complete/scheme_validator.py
@@ -682,11 +682,15 @@ def _check_complete(ctxt, args):
         msg = '%s: %s' % (m.unknown_completer(), cmd.value)
         raise _error(msg, cmd)
 
+    trace = list(ctxt.trace)
+
     try:
         _COMMANDS[cmd.value](ctxt, arguments)
     except _error as e:
         msg = '%s: %s' % (cmd.value, e.message)
         raise _error(msg, e.value_with_trace) from e
+    finally:
+        ctxt.trace = trace
 
 
 def _check_positionals_repeatable0(definition_tree, definition):
@@ -806,7 +810,7 @@ def _check_option(ctxt, option):
         try:
             option_strings = option.value['option_strings'].value
             option_strings = '|'.join([o.value for o in option_strings])
-        except (KeyError, TypeError):
+        except (KeyError, TypeError, AttributeError):
             raise e from None
 
         msg = '%s: %s' % (option_strings, e.message)
@@ -857,7 +861,7 @@ def _check_positional(ctxt, positional):
             metavar_ = positional.value['metavar'].value
             assert isinstance(metavar_, str)
             metavar = metavar_
-        except (AssertionError, KeyError):
+        except (AssertionError, KeyError, TypeError):
             pass
 
         msg = '%s: %s' % (metavar, e.message)
@@ -936,6 +940,8 @@ class DefinitionTree:
         if not _has_set(definition, 'prog'):
             raise _error('%s: %s' % (m.missing_arg(), 'prog'), definition)
 
+        _check_type(definition.value['prog'], (str,), 'prog')
+
         try:
             validate_prog(definition.value['prog'].value)
         except CrazyError as e:
-- 
2.43.0


From 794d35dd85c4a1a06f206586406611db7f9c2c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:14 +0000
Subject: [PATCH 40/52] fix: definitions of the wrong type crashed instead of
 being reported (conversion, JSON)

---
 crazy_complete/dictionary_source.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/crazy_complete/dictionary_source.py b/crazy_complete/dictionary_source.py
index 3006bdd..814cbf0 100644
--- a/crazy_complete/dictionary_source.py
+++ b/crazy_complete/dictionary_source.py
@@ -15,6 +15,9 @@ from . import compat
 
 
 def _validate_keys(dictionary, allowed_keys):
+    if not isinstance(dictionary, dict):
+        raise CrazyTypeError('definition', 'dict', dictionary)
+
     for key in dictionary.keys():
         if key not in allowed_keys:
             raise CrazyError(f'Unknown key: {key}')
@@ -28,11 +31,15 @@ def dictionary_to_commandline(dictionary, prog=None):
          'abbreviate_commands', 'abbreviate_options',
          'inherit_options', 'options', 'positionals'])
 
-    options = dictionary.get('options', [])
+    options = dictionary.get('options', None)
+    if options is None:
+        options = []
     if not isinstance(options, list):
         raise CrazyTypeError('options', 'list', options)
 
-    positionals = dictionary.get('positionals', [])
+    positionals = dictionary.get('positionals', None)
+    if positionals is None:
+        positionals = []
     if not isinstance(positionals, list):
         raise CrazyTypeError('positionals', 'list', positionals)
 
@@ -87,7 +94,7 @@ def dictionary_to_commandline(dictionary, prog=None):
 
 
 def _check_prog_in_dictionary(dictionary):
-    if 'prog' not in dictionary:
+    if not isinstance(dictionary, dict) or 'prog' not in dictionary:
         raise CrazyError('Missing `prog` field')
 
     if not isinstance(dictionary['prog'], str):
@@ -162,6 +169,9 @@ def replace_defines_in_documents(documents):
 def dictionaries_to_commandline(dictionaries):
     '''Convert a list of dictionaries to a cli.CommandLine object.'''
 
+    if not isinstance(dictionaries, list):
+        raise CrazyTypeError('definitions', 'list', dictionaries)
+
     dictionaries = replace_defines_in_documents(dictionaries)
     compat.fix_commandline_dictionaries(dictionaries)
 
-- 
2.43.0


From 764a8506aeb9af998de8f43a7d3d2e259e9bce53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:23 +0000
Subject: [PATCH 41/52] fix: unreadable or undecodable input files crashed
 instead of being reported

---
 crazy-complete | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/crazy-complete b/crazy-complete
index d830658..d2bbb28 100755
--- a/crazy-complete
+++ b/crazy-complete
@@ -41,10 +41,9 @@ if __name__ == '__main__':
     try:
         app.run()
     except (application.CrazyError,
-            FileNotFoundError,
-            yaml.scanner.ScannerError,
-            yaml.parser.ParserError,
-            yaml.constructor.ConstructorError,
+            OSError,
+            UnicodeError,
+            yaml.YAMLError,
             json.decoder.JSONDecodeError) as e:
         print_err('Error:', e)
         if app.options.debug:
-- 
2.43.0


From c139d361b17cd25d99e9174fa577402df8ff47bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:23 +0000
Subject: [PATCH 42/52] fix: a failing write with an encoding error truncated
 the file that was there

---
 crazy_complete/application.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crazy_complete/application.py b/crazy_complete/application.py
index e03c6a6..14e59ca 100644
--- a/crazy_complete/application.py
+++ b/crazy_complete/application.py
@@ -199,8 +199,10 @@ def write_string_to_file(string, file):
     '''Writes string to file if file is given.'''
 
     if file is not None:
-        with open(file, 'w', encoding='utf-8') as fh:
-            fh.write(string)
+        data = string.encode('utf-8')
+
+        with open(file, 'wb') as fh:
+            fh.write(data)
     else:
         print(string)
 
-- 
2.43.0


From fd3fd0cee939ccea407fd50cd99868e460f8d02b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:23 +0000
Subject: [PATCH 43/52] fix: argparse: choices that are sets, tuple metavars
 and suppressed help; find the root parsers

---
 crazy_complete/argparse_source.py | 74 +++++++++++++++++++++++--------
 1 file changed, 56 insertions(+), 18 deletions(-)

diff --git a/crazy_complete/argparse_source.py b/crazy_complete/argparse_source.py
index c980be0..ab19b20 100644
--- a/crazy_complete/argparse_source.py
+++ b/crazy_complete/argparse_source.py
@@ -32,6 +32,36 @@ def range_to_complete(r):
     return ('range', start, end, step)
 
 
+def choices_to_list(choices):
+    '''Convert the `choices` of an action to a list (or dictionary).'''
+
+    if isinstance(choices, (list, tuple, dict)):
+        return choices
+
+    if isinstance(choices, (set, frozenset)):
+        return sorted(choices, key=str)
+
+    return list(choices)
+
+
+def get_metavar(action):
+    '''Return the metavar of an action.'''
+
+    if isinstance(action.metavar, tuple):
+        return action.metavar[0]
+
+    return action.metavar or action.dest
+
+
+def get_help(obj):
+    '''Return the help of an action, if it shall be shown.'''
+
+    if obj.help == argparse.SUPPRESS:
+        return None
+
+    return obj.help
+
+
 def get_complete(action):
     '''
     Get the `complete` attribute of `action` if it is set.
@@ -67,7 +97,7 @@ def get_complete(action):
         if action.choices:
             if isinstance(action.choices, range):
                 return range_to_complete(action.choices)
-            return ['choices', action.choices]
+            return ['choices', choices_to_list(action.choices)]
 
         return ['none']
 
@@ -124,7 +154,7 @@ def argumentparser_to_commandline(parser, prog=None, description=None):
                 subparsers[name] = {'parser': subparser, 'help': None}
 
             for subaction in action._get_subactions():
-                subparsers[subaction.dest]['help'] = subaction.help
+                subparsers[subaction.dest]['help'] = get_help(subaction)
 
             subcommands = commandline.add_subcommands()
             for name, data in subparsers.items():
@@ -142,9 +172,9 @@ def argumentparser_to_commandline(parser, prog=None, description=None):
             positional_number += 1
             commandline.add_positional(
                 positional_number,
-                metavar    = action.metavar or action.dest,
+                metavar    = get_metavar(action),
                 complete   = get_complete(action),
-                help       = action.help,
+                help       = get_help(action),
                 repeatable = is_repeatable,
                 when       = action.get_when()
             )
@@ -152,7 +182,6 @@ def argumentparser_to_commandline(parser, prog=None, description=None):
             complete = get_complete(action)
             optional_arg = False
             metavar = None
-            help = None
 
             if action.nargs == '?':
                 optional_arg = True
@@ -160,16 +189,13 @@ def argumentparser_to_commandline(parser, prog=None, description=None):
                 utils.warn(f'Truncating nargs={action.nargs} of {action}')
 
             if complete:
-                metavar = action.metavar or action.dest
-
-            if action.help != argparse.SUPPRESS:
-                help = action.help
+                metavar = get_metavar(action)
 
             commandline.add_option(
                 action.option_strings,
                 metavar      = metavar,
                 complete     = complete,
-                help         = help,
+                help         = get_help(action),
                 optional_arg = optional_arg,
                 repeatable   = action.get_repeatable(),
                 final        = get_final(action),
@@ -209,15 +235,27 @@ def find_objects_by_type(module, types):
 def find_root_argument_parsers(module):
     '''Return a list of all ArgumentParser objects that have no parent.'''
 
-    parsers = find_objects_by_type(module, argparse.ArgumentParser)
-    actions = find_objects_by_type(module, argparse._SubParsersAction)
+    parsers = []
+    for parser in find_objects_by_type(module, argparse.ArgumentParser):
+        if parser not in parsers:
+            parsers.append(parser)
 
-    for action in actions:
-        for parser in action.choices.values():
-            try:
-                parsers.remove(parser)
-            except ValueError:
-                pass
+    def remove_subparsers(action):
+        for subparser in action.choices.values():
+            if subparser in parsers:
+                parsers.remove(subparser)
+
+            for subaction in subparser._actions:
+                if isinstance(subaction, argparse._SubParsersAction):
+                    remove_subparsers(subaction)
+
+    for action in find_objects_by_type(module, argparse._SubParsersAction):
+        remove_subparsers(action)
+
+    for parser in parsers.copy():
+        for action in parser._actions:
+            if isinstance(action, argparse._SubParsersAction):
+                remove_subparsers(action)
 
     return parsers
 
-- 
2.43.0


From a5227aea36b9cfcf1136469cfff67bc8bba9db1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:23 +0000
Subject: [PATCH 44/52] fix: a definition that calls sys.exit() while being
 imported is reported

---
 crazy_complete/file_loader.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crazy_complete/file_loader.py b/crazy_complete/file_loader.py
index cfef5af..1c4a087 100644
--- a/crazy_complete/file_loader.py
+++ b/crazy_complete/file_loader.py
@@ -49,6 +49,8 @@ def import_file(file):
 
     try:
         loader.exec_module(module)
+    except SystemExit:
+        pass    # The program itself has been run, the parser may exist
     finally:
         sys.path.remove(directory)
 
-- 
2.43.0


From 6504e61a192420b4c9f01f5e8e4e507ca77aac29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:23 +0000
Subject: [PATCH 45/52] fix: help parser: delimiters at the end of the text,
 metavars with alternatives

---
 crazy_complete/help_parser.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/crazy_complete/help_parser.py b/crazy_complete/help_parser.py
index 89ed01e..dadd080 100644
--- a/crazy_complete/help_parser.py
+++ b/crazy_complete/help_parser.py
@@ -169,6 +169,18 @@ def parse_quoted_string(stream):
     return content
 
 
+def is_option_delimiter(stream):
+    '''Return if the stream is at a delimiter that separates options.
+
+    A delimiter within a metavar, as in `--when=always|never`, is directly
+    followed by a character that does not begin an option.
+    '''
+    if stream.peek() not in OPTION_DELIMITER_CHARS:
+        return False
+
+    return stream.peek(1) in (None, ' ', '\t', '\n', '-')
+
+
 def parse_metavar(stream):
     '''Read and return a metavar.
 
@@ -193,7 +205,7 @@ def parse_metavar(stream):
             metavar += parse_bracket(stream)
         elif stream.peek() in ('"', "'"):
             metavar += parse_quoted_string(stream)
-        elif stream.peek() in OPTION_DELIMITER_CHARS:
+        elif is_option_delimiter(stream):
             break
         else:
             metavar += stream.get()
@@ -282,7 +294,8 @@ def parse_option_delimiter(stream):
     '''Parse an option delimiter and return True if it was found, False otherwise.'''
     p = stream.copy()
     eat_space(p)
-    if p.get() in (',', '|'):
+    if p.peek() in OPTION_DELIMITER_CHARS:
+        p.get()
         stream.pos = p.pos
         return True
     return False
-- 
2.43.0


From 9adc53ca1fd284cc021d269b29dbc1689476d034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:23 +0000
Subject: [PATCH 46/52] fix: help converter: command completer, stripping of
 brackets, quoting of the program name

---
 crazy_complete/help_converter.py | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/crazy_complete/help_converter.py b/crazy_complete/help_converter.py
index 0b4205a..5e78306 100644
--- a/crazy_complete/help_converter.py
+++ b/crazy_complete/help_converter.py
@@ -23,19 +23,30 @@ def fix_description(s):
     return s
 
 
+def strip_brackets(s, opening, closing):
+    '''Strip the brackets if they enclose the whole string.'''
+
+    if not s.startswith(opening):
+        return s
+
+    depth = 0
+    for i, char in enumerate(s):
+        depth += (char == opening) - (char == closing)
+        if depth == 0:
+            return s[1:-1] if i == len(s) - 1 else s
+
+    return s
+
+
 def strip_metavar(s):
     '''Strip metavar.'''
 
-    if s and s[0] == '[' and s[-1] == ']':
-        s = s[1:-1]
+    s = strip_brackets(s, '[', ']')
 
     if s and s[0] == '=':
         s = s[1:]
 
-    if s and s[0] == '<' and s[-1] == '>':
-        s = s[1:-1]
-
-    return s
+    return strip_brackets(s, '<', '>')
 
 
 def complete_for_metavar(string):
@@ -59,7 +70,7 @@ def complete_for_metavar(string):
         'group':        ['group'],
         'program':      ['command'],
         'command':      ['command'],
-        'cmd':          ['cmd'],
+        'cmd':          ['command'],
         'signal':       ['signal'],
         'sig':          ['signal'],
     }
@@ -104,7 +115,8 @@ def from_file_to_yaml(file):
 
     output = []
 
-    output.append(f'prog: "{prog}"\nhelp: "<Program description here>"\noptions:')
+    header = yaml_source.to_yaml({'prog': prog, 'help': '<Program description here>'})
+    output.append(header.rstrip() + '\noptions:')
 
     for obj in parsed:
         if isinstance(obj, help_parser.Unparsed):
-- 
2.43.0


From 14acaed9f6d8155f4f7e5a3e9a348107e0c45f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:23 +0000
Subject: [PATCH 47/52] fix: function names for programs with special
 characters are valid and unique

---
 crazy_complete/helpers.py | 33 +++++++++++++++++++++++++--------
 crazy_complete/shell.py   | 14 ++++++++++++++
 2 files changed, 39 insertions(+), 8 deletions(-)

diff --git a/crazy_complete/helpers.py b/crazy_complete/helpers.py
index 71d3d19..c45b6ae 100644
--- a/crazy_complete/helpers.py
+++ b/crazy_complete/helpers.py
@@ -18,7 +18,7 @@ def replace_function_name(search, replace, s):
     '''Safely replace a function name in code'''
 
     pattern = f'\\b{search}\\b'
-    return re.sub(pattern, replace, s)
+    return re.sub(pattern, lambda _: replace, s)
 
 
 class FunctionBase:
@@ -78,7 +78,8 @@ def make_completion_funcname_for_context(ctxt, prefix):
     funcname = shell.make_identifier('_'.join(prognames))
 
     if isinstance(ctxt.option, cli.Option):
-        return '%s__%s' % (funcname, ctxt.option.option_strings[0])
+        identifier = shell.make_function_name_part(ctxt.option.option_strings[0])
+        return '%s__%s' % (funcname, identifier)
     if isinstance(ctxt.option, cli.Positional):
         if ctxt.option.metavar:
             identifier = shell.make_identifier(ctxt.option.metavar)
@@ -95,12 +96,16 @@ class GeneralHelpers:
 
     def __init__(self, config, prog, function_class):
         self.config = config
-        self.function_prefix = config.function_prefix.replace('$PROG', prog)
+        self.function_prefix = config.function_prefix.replace(
+            '$PROG', shell.make_function_name_part(prog))
         self.function_class = function_class
 
         # Dynamic functions
         self.dynamic_functions_code_to_funcname = {}
 
+        # Functions of programs and subcommands
+        self.completion_funcnames = {}  # (prog, subcommand, ...):funcname
+
         # Builtin functins
         self.functions = {}
         self.used_functions = {}  # funcname:set(defines)
@@ -130,7 +135,9 @@ class GeneralHelpers:
         funcname = make_completion_funcname_for_context(ctxt, self.function_prefix)
         num = 0
         funcname_plus_num = funcname
-        while funcname_plus_num in self.dynamic_functions_code_to_funcname.values():
+        used = set(map(self.get_real_function_name, self.functions))
+        used.update(self.dynamic_functions_code_to_funcname.values())
+        while funcname_plus_num in used:
             funcname_plus_num = '%s%d' % (funcname, num)
             num += 1
         return funcname_plus_num
@@ -234,7 +241,8 @@ class GeneralHelpers:
         auto-completing a program or subcommand in the specified shell.
         It concatenates the names of all parent commandlines, including the
         current commandline, and converts them into a valid function name
-        format.
+        format. If the names of two subcommands only differ in characters that
+        are not allowed in identifiers, a number is appended.
 
         Example:
             For a program with the name 'my_program' and a subcommand with the name 'subcommand',
@@ -245,6 +253,15 @@ class GeneralHelpers:
         commandlines = commandline.get_parents(include_self=True)
         prognames = [cmdline.prog for cmdline in commandlines]
         prognames[0] = self.function_prefix
-        identifier = shell.make_identifier('_'.join(prognames))
-
-        return f'{identifier}{suffix}'
+        path = tuple(cmdline.prog for cmdline in commandlines)
+
+        if path not in self.completion_funcnames:
+            identifier = shell.make_identifier('_'.join(prognames))
+            unique = identifier
+            num = 0
+            while unique in self.completion_funcnames.values():
+                unique = f'{identifier}{num}'
+                num += 1
+            self.completion_funcnames[path] = unique
+
+        return f'{self.completion_funcnames[path]}{suffix}'
diff --git a/crazy_complete/shell.py b/crazy_complete/shell.py
index a735d21..3aec7cc 100644
--- a/crazy_complete/shell.py
+++ b/crazy_complete/shell.py
@@ -32,6 +32,20 @@ def make_identifier(string):
     return string
 
 
+def make_function_name_part(string):
+    '''Make `string` a valid part of a function name.
+
+    Characters that may have a meaning for a shell (and the ones that
+    `make_identifier()` removes) are replaced by their character code.
+
+    Example:
+        >>> make_function_name_part('c++')
+        'c_2b_2b'
+    '''
+
+    return re.sub('[^a-zA-Z0-9_-]', lambda m: '_%x' % ord(m[0]), string)
+
+
 def needs_quote(string):
     '''Return if string needs quoting.'''
 
-- 
2.43.0


From 3d2efdc6b9e8a19c670fd15c5600e5a8afb400c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:24 +0000
Subject: [PATCH 48/52] fix: bash: words with special characters can be
 completed in quotes and after an escape

---
 crazy_complete/bash_complete.py | 18 ++++++++++--------
 crazy_complete/bash_helpers.py  | 27 ++++++++++++++++++---------
 2 files changed, 28 insertions(+), 17 deletions(-)

diff --git a/crazy_complete/bash_complete.py b/crazy_complete/bash_complete.py
index 9389f74..16af429 100644
--- a/crazy_complete/bash_complete.py
+++ b/crazy_complete/bash_complete.py
@@ -93,31 +93,33 @@ class BashCompletionFunc(BashCompletionBase):
 class CompgenW(BashCompletionBase):
     '''Used for completing a list of words.'''
 
-    # Commands that deal with word breaks themselves
+    # Commands that deal with word breaks and quoting themselves
     _NESTING_COMMANDS = (
         'key_value_list', 'key_value_pair', 'list')
 
     def __init__(self, ctxt, trace, values):
         self.ctxt = ctxt
         self.values = [str(value) for value in values]
-        self.wordbreaks = (
-            any(c in value for value in self.values for c in '=:') and
-            not any(command in trace for command in self._NESTING_COMMANDS))
+        self.nested = any(command in trace for command in self._NESTING_COMMANDS)
 
     def get_code(self, append=False):
         needs_quote = any(map(shell.needs_quote, self.values))
-        if not needs_quote and not self.wordbreaks:
+        wordbreaks = (
+            not self.nested and
+            any(c in value for value in self.values for c in '=:'))
+
+        if not needs_quote and not wordbreaks:
             return 'COMPREPLY%s=($(compgen -W %s -- "$cur"))' % (
                 ('+' if append else ''),
                 shell.quote(' '.join(self.values)))
 
-        if self.wordbreaks:
-            self.ctxt.helpers.use_function('values', 'wordbreaks')
+        if not self.nested:
+            self.ctxt.helpers.use_function('values', 'dequote')
 
         return ('%s %s%s-- %s' % (
             self.ctxt.helpers.use_function('values'),
             ('-a ' if append else ''),
-            ('-b ' if self.wordbreaks else ''),
+            ('' if self.nested else '-q '),
             shell.join_quoted(self.values)))
 
     def get_function(self):
diff --git a/crazy_complete/bash_helpers.py b/crazy_complete/bash_helpers.py
index 028bd94..30366b1 100644
--- a/crazy_complete/bash_helpers.py
+++ b/crazy_complete/bash_helpers.py
@@ -6,22 +6,29 @@
 from .helpers import GeneralHelpers, ShellFunction
 
 _VALUES = ShellFunction('values', r'''
-local word append=0 break_pos=0
+local word cur="$cur" append=0 break_pos=-1 in_quotes=0
 
 [[ "$1" == "-a" ]] && { shift; append=1; }
-#ifdef wordbreaks
-[[ "$1" == "-b" ]] && { shift; word="${cur##*[$COMP_WORDBREAKS]}"; break_pos=$(( ${#cur} - ${#word} )); }
+#ifdef dequote
+[[ "$1" == "-q" ]] && { shift; dequote "$cur" cur break_pos in_quotes; }
 #endif
 [[ "$1" == "--" ]] && { shift; }
 
 (( append )) || COMPREPLY=()
+(( break_pos < 0 )) && break_pos=0
 
 for word; do
   if [[ "$word" == "$cur"* ]]; then
-    COMPREPLY+=("$(printf '%q' "${word:break_pos}")")
+    word="${word:break_pos}"
+    case $in_quotes in
+      0) word="$(printf '%q' "$word")";;
+      1) word="${word//\'/\'\\\'\'}";;
+      2) word="$(sed 's/[\\"$`]/\\&/g' <<< "$word")";;
+    esac
+    COMPREPLY+=("$word")
   fi
 done
-''')
+''', ['dequote'])
 
 _DEQUOTE = ShellFunction('dequote', r'''
 local in="$1" len=${#1} i=0 result='' ___break_pos=-1 ___in_quotes=0
@@ -35,7 +42,7 @@ for ((; i < len; ++i)); do
         result+="${in:i:1}"
       done;;
     '"')
-      ___in_quotes=1
+      ___in_quotes=2
       for ((++i; i < len; ++i)); do
         [[ "${in:i:1}" == '"' ]] && { ___in_quotes=0; break; }
 
@@ -580,13 +587,15 @@ fi
 ''', ['dequote', 'exec'])
 
 _PREFIX_COMPREPLY = ShellFunction('prefix_compreply', r'''
-[[ "$cur" == *[$COMP_WORDBREAKS]* ]] && return
+local i prefix="$1" cur_dequoted break_pos in_quotes
+
+dequote "$cur" cur_dequoted break_pos in_quotes
+(( break_pos >= 0 )) && return
 
-local i prefix="$1"
 for ((i=0; i < ${#COMPREPLY[@]}; ++i)); do
   COMPREPLY[i]="$prefix${COMPREPLY[i]}"
 done
-''')
+''', ['dequote'])
 
 _HISTORY = ShellFunction('history', r'''
 [[ -f "$HISTFILE" ]] || return
-- 
2.43.0


From f2958341d78b9f3c8be5b21d74d8e9af9016f306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:24 +0000
Subject: [PATCH 49/52] fix: fish: quote backslashes

---
 crazy_complete/fish_complete.py   | 47 ++++++++++++++++---------------
 crazy_complete/fish_conditions.py |  4 +--
 crazy_complete/fish_prepare.py    |  4 +--
 crazy_complete/fish_utils.py      | 22 ++++++++++++++-
 4 files changed, 49 insertions(+), 28 deletions(-)

diff --git a/crazy_complete/fish_complete.py b/crazy_complete/fish_complete.py
index 04af395..059e124 100644
--- a/crazy_complete/fish_complete.py
+++ b/crazy_complete/fish_complete.py
@@ -8,6 +8,7 @@ from . import utils
 from .pattern import bash_glob_to_regex
 from .type_utils import is_dict_type
 from .str_utils import indent, join_with_wrap
+from .fish_utils import quote, join_quoted
 
 
 CHOICES_INLINE_THRESHOLD = 80
@@ -67,10 +68,10 @@ class FishCompletionCommand(FishCompletionBase):
         self.args = args
 
     def get_code(self):
-        return shell.join_quoted(self.args)
+        return join_quoted(self.args)
 
     def get_args(self):
-        command = shell.join_quoted(self.args)
+        command = join_quoted(self.args)
         return ['-f', '-a', '(%s)' % command]
 
     def get_function(self):
@@ -103,20 +104,20 @@ class FishCompleteChoices(FishCompletionBase):
         self.choices = choices
 
     def _get_inline_for_list(self):
-        return ' '.join(shell.quote(str(c)) for c in self.choices)
+        return ' '.join(quote(str(c)) for c in self.choices)
 
     def _get_inline_for_dict(self):
         def str0(s):
             return str(s) if s is not None else ''
 
         stringified = {str(item): str0(desc) for item, desc in self.choices.items()}
-        q = shell.quote
+        q = quote
         r = ['%s\\t%s' % (q(item), q(desc)) for item, desc in stringified.items()]
         return ' '.join(r)
 
     def _get_code_for_list(self):
         code = "printf '%s\\n' \\\n"
-        quoted = [shell.quote(str(item)) for item in self.choices]
+        quoted = [quote(str(item)) for item in self.choices]
         line_length = self.ctxt.config.line_length - 2
         code += indent(join_with_wrap(' ', ' \\\n', line_length, quoted), 2)
         return code.rstrip(' \\\n')
@@ -126,7 +127,7 @@ class FishCompleteChoices(FishCompletionBase):
         for item, desc in self.choices.items():
             if desc is None:
                 desc = ''
-            code += '  %s %s \\\n' % (shell.quote(str(item)), shell.quote(str(desc)))
+            code += '  %s %s \\\n' % (quote(str(item)), quote(str(desc)))
         return code.rstrip(' \\\n')
 
     def get_args(self):
@@ -251,12 +252,12 @@ class FishCompleteValueList(FishCompletionCommand):
         if is_dict_type(values):
             code = "printf '%s\\t%s\\n' \\\n"
             for item, desc in values.items():
-                code += '  %s %s \\\n' % (shell.quote(item), shell.quote(desc))
+                code += '  %s %s \\\n' % (quote(str(item)), quote(str(desc)))
             code = code.rstrip(' \\\n')
         else:
             code = "printf '%s\\n' \\\n"
             for value in values:
-                code += '  %s \\\n' % shell.quote(value)
+                code += '  %s \\\n' % quote(str(value))
             code = code.rstrip(' \\\n')
 
         func = ctxt.helpers.add_dynamic_func(ctxt, code)
@@ -299,23 +300,23 @@ class FishCompleteKeyValueList(FishCompletionCommand):
 
             condition = ''
             if condition_func is not None:
-                condition = '$c %s && ' % (shell.quote(definition.key))
+                condition = '$c %s && ' % (quote(definition.key))
 
             args.append('%sset -a a %s %s %s %s' % (
                 condition,
-                shell.quote(definition.key),
-                shell.quote(definition.description or ''),
-                shell.quote(func),
-                shell.quote(' '.join(excludes))))
+                quote(definition.key),
+                quote(definition.description or ''),
+                quote(func),
+                quote(' '.join(excludes))))
 
         code = 'set -l a\n'
         if condition_func is not None:
-            code += 'set -l c %s\n' % shell.quote(condition_func)
+            code += 'set -l c %s\n' % quote(condition_func)
         code += '%s\n' % '\n'.join(args)
         code += '%s %s %s $a' % (
             ctxt.helpers.use_function('key_value_list'),
-            shell.quote(pair_separator),
-            shell.quote(value_separator),
+            quote(pair_separator),
+            quote(value_separator),
         )
 
         func = ctxt.helpers.add_dynamic_func(ctxt, code)
@@ -346,21 +347,21 @@ class FishCompleteKeyValuePair(FishCompletionCommand):
 
             condition = ''
             if condition_func is not None:
-                condition = '$c %s && ' % shell.quote(condition_func)
+                condition = '$c %s && ' % quote(condition_func)
 
             args.append('%sset -a a %s %s %s' % (
                 condition,
-                shell.quote(key),
-                shell.quote(desc or ''),
-                shell.quote(func)))
+                quote(key),
+                quote(desc or ''),
+                quote(func)))
 
         code = 'set -l a\n'
         if condition_func is not None:
-            code += 'set -l c %s\n' % shell.quote(condition_func)
+            code += 'set -l c %s\n' % quote(condition_func)
         code += '%s\n' % '\n'.join(args)
         code += '%s %s $a' % (
             ctxt.helpers.use_function('key_value_pair'),
-            shell.quote(value_separator),
+            quote(value_separator),
         )
 
         func = ctxt.helpers.add_dynamic_func(ctxt, code)
@@ -385,7 +386,7 @@ class FishCompleteCommand(FishCompletionBase):
             prepend = opts.get('path_prepend', None)
 
         def mkpath(path):
-            return shell.join_quoted(path.split(':'))
+            return join_quoted(path.split(':'))
 
         if path:
             code = 'set -lx PATH %s' % mkpath(path)
diff --git a/crazy_complete/fish_conditions.py b/crazy_complete/fish_conditions.py
index 62c462f..77bcdcb 100644
--- a/crazy_complete/fish_conditions.py
+++ b/crazy_complete/fish_conditions.py
@@ -7,9 +7,9 @@ import re
 
 from . import cli
 from . import when
-from . import shell
 from .errors import InternalError
 from .type_utils import is_list_type
+from .fish_utils import quote
 
 
 def escape_in_double(string):
@@ -33,7 +33,7 @@ def make_condition_command(prefix, args):
     We have to ensure proper escaping inside the double quotes.
     '''
 
-    args_quoted = [shell.quote(arg) for arg in args]
+    args_quoted = [quote(arg) for arg in args]
     args_quoted = [escape_in_double(arg) for arg in args_quoted]
     return '%s %s' % (prefix, ' '.join(args_quoted))
 
diff --git a/crazy_complete/fish_prepare.py b/crazy_complete/fish_prepare.py
index c70de04..096e888 100644
--- a/crazy_complete/fish_prepare.py
+++ b/crazy_complete/fish_prepare.py
@@ -7,8 +7,8 @@ import re
 
 from . import algo
 from . import utils
-from . import shell
 from . import helpers
+from .fish_utils import quote
 
 
 def _get_positional_pattern(commandline):
@@ -85,7 +85,7 @@ def get_prepare_function(commandline, ctxt):
 
     code = f'{query_init}'
     if definitions:
-        code += ' \\\n  %s' % (' \\\n  '.join(shell.quote(d) for d in definitions))
+        code += ' \\\n  %s' % (' \\\n  '.join(quote(d) for d in definitions))
 
     capture_code = _get_capture_code(commandline, ctxt)
     if capture_code:
diff --git a/crazy_complete/fish_utils.py b/crazy_complete/fish_utils.py
index ef8f473..25a9fc7 100644
--- a/crazy_complete/fish_utils.py
+++ b/crazy_complete/fish_utils.py
@@ -7,6 +7,26 @@ from .errors import InternalError
 from . import shell
 
 
+def quote(string):
+    '''Quotes a string for usage in Fish.
+
+    Unlike in other shells, a backslash is special inside single quotes, and
+    a backquote cannot be escaped inside double quotes.
+    '''
+
+    if '\\' in string or ("'" in string and '`' in string):
+        string = string.replace('\\', '\\\\').replace("'", "\\'")
+        return f"'{string}'"
+
+    return shell.quote(string)
+
+
+def join_quoted(arguments, string=' '):
+    '''Joins quoted `arguments` on `string`.'''
+
+    return string.join(quote(arg) for arg in arguments)
+
+
 class FishString:
     '''A utility class for command-line strings that may require escaping.
 
@@ -73,7 +93,7 @@ class FishString:
         '''
         if self.raw:
             return self.string
-        return shell.quote(self.string)
+        return quote(self.string)
 
     def __str__(self):
         return self.string
-- 
2.43.0


From 5efc2aa69c446ba7dadf582269d94fa52c18fded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:24 +0000
Subject: [PATCH 50/52] fix: zsh: backslashes and quotes in items of choices,
 values with colons were executed

---
 crazy_complete/zsh_complete.py | 19 ++++++++++---------
 crazy_complete/zsh_utils.py    | 10 ++++++++--
 2 files changed, 18 insertions(+), 11 deletions(-)

diff --git a/crazy_complete/zsh_complete.py b/crazy_complete/zsh_complete.py
index 5d1677c..8a70d92 100644
--- a/crazy_complete/zsh_complete.py
+++ b/crazy_complete/zsh_complete.py
@@ -8,7 +8,7 @@ from . import utils
 from .pattern import bash_glob_to_zsh_glob
 from .str_utils import join_with_wrap, indent
 from .zsh_utils import (
-    escape_colon, escape_square_brackets, make_file_extension_pattern
+    escape_colon, escape_describe_item, escape_square_brackets, make_file_extension_pattern
 )
 from .type_utils import is_dict_type
 
@@ -75,14 +75,15 @@ class ZshCompleteChoices(ZshCompletionBase):
         items = [str(item) for item in self.choices]
         quoted = [shell.quote(item) for item in items]
         action = shell.quote('(%s)' % ' '.join(quoted))
-        if len(action) <= CHOICES_INLINE_THRESHOLD:
+        backslash = any('\\' in item for item in items)
+        if not backslash and len(action) <= CHOICES_INLINE_THRESHOLD:
             return action
 
         return self._list_function()
 
     def _list_function(self):
         metavar = shell.quote(self.ctxt.option.metavar or '')
-        quoted = [shell.quote(escape_colon(str(c))) for c in self.choices]
+        quoted = [shell.quote(escape_describe_item(str(c))) for c in self.choices]
         line_length = self.ctxt.config.line_length - 2
 
         code = 'local items=(\n'
@@ -99,7 +100,7 @@ class ZshCompleteChoices(ZshCompletionBase):
 
         items = [str0(item) for item in self.choices.keys()]
         descriptions = [str0(value) for value in self.choices.values()]
-        colon = any(':' in s for s in items + descriptions)
+        special = any(c in s for s in items + descriptions for c in ':\\')
         quoted = []
 
         for item, desc in zip(items, descriptions):
@@ -109,7 +110,7 @@ class ZshCompleteChoices(ZshCompletionBase):
             quoted.append(val)
 
         action = shell.quote('((%s))' % ' '.join(quoted))
-        if not colon and len(action) <= CHOICES_INLINE_THRESHOLD:
+        if not special and len(action) <= CHOICES_INLINE_THRESHOLD:
             return action
 
         return self._dict_function()
@@ -119,7 +120,7 @@ class ZshCompleteChoices(ZshCompletionBase):
 
         code = 'local items=(\n'
         for item, desc in self.choices.items():
-            item = shell.quote(escape_colon(str(item)))
+            item = shell.quote(escape_describe_item(str(item)))
             if desc:
                 desc = shell.quote(str(desc))
                 code += f'  {item}:{desc}\n'
@@ -240,9 +241,9 @@ class ZshKeyValueList(ZshComplFunc):
 
             condition = ''
             if condition_func is not None:
-                condition = '$c %s && ' % (definition.key)
+                condition = '$c %s && ' % shell.quote(definition.key)
 
-            key = escape_colon(definition.key)
+            key = shell.quote(escape_colon(definition.key))
             if not definition.completer:
                 spec.append(f'{condition}a+=({excludes}{repeatable}{key}{desc})')
             elif definition.completer[0] == 'none':
@@ -289,7 +290,7 @@ class ZshKeyValuePair(ZshComplFunc):
             if condition_func is not None:
                 condition = '$c %s && ' % shell.quote(key)
 
-            key = escape_colon(key)
+            key = shell.quote(escape_colon(key))
             if not complete:
                 spec.append(f'{condition}a+=({key}{desc})')
             elif complete[0] == 'none':
diff --git a/crazy_complete/zsh_utils.py b/crazy_complete/zsh_utils.py
index 1981fe5..1d4e052 100644
--- a/crazy_complete/zsh_utils.py
+++ b/crazy_complete/zsh_utils.py
@@ -18,6 +18,12 @@ def escape_colon(s):
     return s.replace(':', '\\:')
 
 
+def escape_describe_item(s):
+    '''Escape an item for the use in `_describe`.'''
+
+    return escape_colon(s.replace('\\', '\\\\'))
+
+
 def escape_square_brackets(s):
     '''Escape square brackets with backslash.'''
 
@@ -37,10 +43,10 @@ def escape_colon_in_quoted_string(s):
         c = ss.get()
         if c == "'":
             sub = ss.parse_shell_single_quote(in_quotes=True)
-            result += "'%s'" % sub.replace(':', r'\:')
+            result += shell.quote(escape_colon(sub))
         elif c == '"':
             sub = ss.parse_shell_double_quote(in_quotes=True)
-            result += '"%s"' % sub.replace(':', r'\\:')
+            result += shell.quote(escape_colon(sub))
         elif c == ':':
             result += r'\\:'
         else:
-- 
2.43.0


From 706ba8cb1e3af7db23286e91576b3c0a40f39698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:24 +0000
Subject: [PATCH 51/52] fix: zsh: captured values were split at the letter n,
 empty values were lost

---
 crazy_complete/zsh.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crazy_complete/zsh.py b/crazy_complete/zsh.py
index ac2d98e..a02f54d 100644
--- a/crazy_complete/zsh.py
+++ b/crazy_complete/zsh.py
@@ -182,10 +182,12 @@ class ZshCompletionFunction:
         for option in self.commandline.options:
             if option.capture:
                 local_vars.append(option.capture)
-                set_cmds.append('IFS=$"\\n" %s=($(%s get_option %s))' % (
+                # The trailing dot keeps empty values at the end
+                set_cmds.append('%s=("${(@f)$(%s get_option %s; echo .)}"); %s[-1]=()' % (
                     option.capture,
                     self.query.use('get_option'),
-                    shell.join_quoted(option.option_strings)))
+                    shell.join_quoted(option.option_strings),
+                    option.capture))
 
         if local_vars:
             r  = 'local %s' % ' '.join(f'{s}=()' for s in local_vars)
-- 
2.43.0


From 444c4398618ee86e25fb6f374b91cf0e65ebd3c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:24 +0000
Subject: [PATCH 52/52] fix: zsh: nosort for repeatable positionals and for
 aliases of the program

---
 crazy_complete/zsh.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/crazy_complete/zsh.py b/crazy_complete/zsh.py
index a02f54d..2131944 100644
--- a/crazy_complete/zsh.py
+++ b/crazy_complete/zsh.py
@@ -299,17 +299,18 @@ class ZshCompletionFunction:
 def get_zstyles(commandline, out_list):
     '''Get zstyle commands for disabling sorting completion suggestions.'''
 
-    prog = commandline.get_program_name()
+    root = commandline.get_root_commandline()
 
-    for option in filter(lambda o: o.nosort, commandline.options):
-        for option_string in option.option_strings:
-            r = f"zstyle ':completion:*:*:{prog}:option{option_string}-*' sort false"
-            out_list.append(r)
+    for prog in [root.prog] + root.aliases:
+        for option in filter(lambda o: o.nosort, commandline.options):
+            for option_string in option.option_strings:
+                r = f"zstyle ':completion:*:*:{prog}:option{option_string}-*' sort false"
+                out_list.append(r)
 
-    for positional in filter(lambda p: p.nosort, commandline.positionals):
-        number = positional.number
-        r = f"zstyle ':completion:*:*:{prog}:argument-{number}:*' sort false"
-        out_list.append(r)
+        for positional in filter(lambda p: p.nosort, commandline.positionals):
+            number = 'rest' if positional.repeatable else positional.number
+            r = f"zstyle ':completion:*:*:{prog}:argument-{number}:*' sort false"
+            out_list.append(r)
 
 
 def generate_completion(commandline, config=None):
-- 
2.43.0

