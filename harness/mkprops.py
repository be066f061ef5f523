#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that long texts stay readable)."""
import json, os
CC='crazy_complete/'
def f(*names): return [n if '/' in n or n.endswith('.md') else CC+n+'.py' for n in names]
CORE=f('bash','bash_parser','bash_parser_v2','bash_option_completion','bash_option_strings_completion',
       'fish','fish_conditions','fish_helpers','zsh','zsh_utils','zsh_helpers','generation','cli')
TTY=['candidates offered by the generated bash function (COMPREPLY)','candidates of fish `complete -C`','matches zsh passes to compadd']
MAP=dict(input='inputs',history='histories',config='configurations',environment='inputs',fault='fault_sequences')
def P(id,title,statement,over,qtext,why,files,mech,state,observe,hook=None):
    return dict(id=id,title=title,statement=statement,quantifier=dict(over=sorted({MAP[o] for o in over}),text=qtext),
        why_tests_cant=why,anchors=dict(files=files,mechanism=mech,state=state,observe_at=observe,hook_needed=hook))
ALLCL='all definitions, all command lines typed against them and all three target shells'
props=[
P('C01','Non-repeatable options are offered once, repeatable ones always',
 'In every generated script (bash, fish, zsh), once a non-repeatable option has been given on the command line - by any of its spellings, in any argument form, at any place before `--` - none of its spellings is offered again; an option that is repeatable (by its own `repeatable`, or by --repeatable-options / --disable=repeatable) stays offered. An option that has not been given is not withheld because some unrelated word looks similar.',
 ['input','history','config'],ALLCL,
 'The tests sample a few lines over one or two fixed definitions; the rule must survive every combination of spellings, clusters, argument forms and the merging/minifying of conditions the generators perform.',
 CORE,['make_option_spec','_make_condition','FishConditions.when/not_has_option','Conditions in bash_option_strings_completion'],['OPT_* arrays (bash)','__QUERY_CACHE_HAVING_OPTIONS (fish)','_arguments exclusion lists (zsh)'],TTY),
P('C02','Mutually exclusive groups',
 'In every generated script, once any option of a mutually exclusive group has been given, no other option that shares at least one group with it is offered, for every group of every option (options may be in several groups); options outside those groups are unaffected, and with --disable=groups the exclusion disappears.',
 ['input','history','config'],ALLCL,
 'Whether the exclusion relation is computed correctly depends on the whole group graph and on which spelling was typed; the tests only exercise one small group file.',
 CORE,['Option.get_conflicting_options','MutuallyExclusiveGroup','make_option_spec','bash option condition merging'],['option.groups'],TTY),
P('C03','Final options end option completion',
 'In every generated script, once a `final` option has been given on the line, no further option of the command is offered (unless --disable=final); without one, final options themselves are offered like any other.',
 ['input','history','config'],ALLCL,'Holds for all orders and spellings; sampled tests only see --help typed once.',
 CORE,['CommandLine.get_final_options','FishConditions final handling','make_option_spec final'],['option.final'],TTY),
P('C04','Hidden options are never suggested but stay usable',
 'A `hidden` option string is never suggested before it has been typed out in full, in any shell and state; yet once the user types it, it is recognised exactly like a visible option: its argument is completed by its own completer, it counts for groups/when/capture and its argument is not taken for a positional. --disable=hidden makes it an ordinary option.',
 ['input','history','config'],ALLCL,'Hiding must hold at every point of every line, while the parser still knows the option; tests look at single lines.',
 CORE,['hidden handling in fish.py (complete -a on cur)','bash option strings','zsh "!" specs'],['option.hidden'],TTY),
P('C05','`when` conditions gate exactly as written',
 'An option or positional with a `when` condition is offered exactly when the condition evaluates to true on the command line typed so far: has_option, option_is (with -any / -nocase), option_match, positional_count, positional_contains combined by &&, ||, ! and parentheses with the documented meaning, identically in bash, fish and zsh. With --disable=when conditions are ignored.',
 ['input','history','config'],'all well-formed conditions, all definitions, all command lines, all shells',
 'The space of boolean expressions times command lines cannot be sampled by hand; operator precedence, the last-value rule of option_is and spelling independence only fail on particular combinations.',
 f('when','bash_when','fish_conditions','fish_utils','zsh_when','zsh_helpers','fish_helpers','generation'),['parse_when','generate_when_conditions','query option_is / has_option'],['option values seen on the line','positionals seen'],TTY),
P('C06','Subcommand context is followed',
 'After any path of subcommand names (or aliases, or - with abbreviate_commands - unambiguous abbreviations) the scripts offer exactly the options, subcommands and positionals of the command reached, at any nesting depth and with options and option arguments interleaved; ancestors\' options are offered exactly if inherit_options holds for that command.',
 ['input','history','config'],ALLCL,'The routing depends on the absolute position of every word and on which words are option arguments; the tests only use a shallow tree.',
 CORE+f('bash_parser_subcommand_code','algo','utils'),['subcommand call code','query_init patterns','get_all_command_variations'],['cmd path','POSITIONALS'],TTY),
P('C07','Positionals are counted correctly',
 'The n-th positional word is completed by the n-th positional\'s completer (a repeatable positional takes all following words), where option words and option arguments never count, a lone `-` counts, every word after `--` counts, and no option is offered after `--`; beyond the last positional nothing is offered.',
 ['input','history'],ALLCL,'Must hold for every interleaving of options, arguments, clusters and `--`.',
 CORE+f('bash_positionals_completion'),['POSITIONALS','num_of_positionals','positional spec'],['POSITIONALS','END_OF_OPTIONS'],TTY),
P('C08','Option arguments are recognised in every form',
 'When the cursor is in an option\'s argument - `--opt ARG`, `--opt=ARG`, `-o ARG`, `-oARG`, `-vVoARG` behind stacked flags, old-style `-opt ARG`/`-opt=ARG` - exactly the values of that option\'s completer that extend the typed part are offered; optional arguments only in the attached forms, `long_opt_arg_sep` restricting the separators (bash, zsh), and a completed argument is never re-read as an option, subcommand or positional.',
 ['input','history','config'],ALLCL,'The argument grammar is ambiguous by nature (clusters, prefixes of other options); correctness must hold for every set of option strings that coexist.',
 CORE+f('bash_option_completion','bash_patterns'),['__complete_option','bash_patterns.make_pattern','complete_option_arguments (zsh/fish flags)'],['prev','cur'],TTY),
P('C09','Captured values are complete and ordered',
 'In every shell, when a completer runs, the array named by an option\'s `capture` (or a positional\'s, where supported) contains the values given for it so far, in order, one element per occurrence, unaltered - whichever spelling and argument form was used.',
 ['input','history'],'all value strings, all numbers of occurrences, all spellings and forms, all shells',
 'Tests look at one or two plain values; values with spaces, empty values, glob characters or shell meta characters and repeated mixed spellings are where splitting and quoting break.',
 f('bash','bash_parser','bash_parser_v2','zsh','fish','zsh_helpers','fish_helpers','bash_utils'),['capture_variable','_generate_option_capture','get_option'],['captured array'],['the array as seen by an `exec` completer']),
P('C10','Choices are offered literally and completely',
 'A `choices` completer offers exactly the listed words that start with what has been typed, in every shell, whatever characters they contain (blanks, quotes, $, backquotes, backslashes, colons, brackets, glob characters, leading dashes, unicode); accepting one puts that very word on the command line and no item text or description is ever executed or expanded; with `nosort` the order is the definition\'s.',
 ['input'],'all item strings and descriptions, all typed prefixes, all shells',
 'Quoting layers (Python, shell word, compgen -W / _describe / complete -a) compose; each character class can break in any layer, and only a few are sampled.',
 f('shell','bash_complete','bash_helpers','fish_complete','fish_utils','zsh_complete','zsh_utils','zsh_helpers'),['shell.quote','escape_colon','compgen -W word list'],['item list'],TTY+['side effects (canary files)']),
P('C11','List completers',
 '`value_list` and `list` complete the element after the last separator: with duplicates disallowed, values already in the list are not offered again; otherwise all values that extend the typed element are; the earlier part of the list is kept unchanged; any single-character separator works; same in all shells.',
 ['input','history'],'all value sets, separators, duplicate settings and partial lists, all shells','The tests cover two lists with the comma; separators special to regex/glob/IFS and values that are prefixes of others are unsampled.',
 f('bash_complete','bash_helpers','fish_complete','fish_helpers','zsh_complete','zsh_helpers'),['value_list','list helpers','_values/_sequence'],['list typed so far'],TTY),
P('C12','Key-value completers',
 '`key_value_list` and `key_value_pair` offer the keys before the value separator and the matching key\'s values after it, for any pair/value separators; a key that is not repeatable is offered at most once per list, keys excluded by a given key are not offered, and a key without a value takes no separator; same in all shells.',
 ['input','history'],'all key/value tables, separators and partially typed lists, all shells','Keys that are prefixes of each other and unusual separators are not sampled by tests.',
 f('bash_complete','bash_helpers','fish_complete','fish_helpers','zsh_complete','zsh_helpers'),['key_value_list','key_value_pair helpers'],['pairs typed so far'],TTY),
P('C13','Composed and numeric completers',
 '`combine` offers exactly the union of its parts, `prefix` offers exactly its inner completer\'s items behind the literal prefix, `range` offers exactly the numbers start, start+step, ... up to stop (either direction), `integer`/`float` suffixes are offered after a number only; nested in each other and in lists they behave the same; identical in all shells.',
 ['input'],'all nested completer expressions and arguments, all typed prefixes, all shells','Compositionality is a statement over all nestings.',
 f('bash_complete','fish_complete','zsh_complete','bash_helpers','fish_helpers','zsh_helpers'),['combine','prefix','range','integer/float'],['typed word'],TTY),
P('C14','File name filters mean the same everywhere',
 '`file` with `extensions`, `directory`, `ignore_globs` and `directory` with `directory` offer, in any directory content, all sub-directories plus exactly the files with a listed extension (compared case-insensitively) and not matching an ignored glob, relative to the given directory; `directory` offers only directories; the same in all shells.',
 ['input','environment'],'all file names and directory trees, all extension lists and globs, all shells','Each shell filters with its own pattern language; the tests use one fixed directory.',
 f('pattern','bash_complete','fish_complete','zsh_complete','bash_helpers','fish_helpers','zsh_utils'),['bash_glob_to_regex','bash_glob_to_zsh_glob','filedir helpers'],['file system'],TTY),
P('C15','All three shells and all presentation settings agree',
 'For any definition mixing all features and any command line, the bash, fish and zsh scripts offer the same candidates (documented single-shell features aside), and settings that only concern presentation - max-line-length, keep-comments, comment, vim-modeline, debug, function-prefix, zsh-compdef, fish-inline-conditions, bash-completions-version - never change what is offered.',
 ['input','history','config'],ALLCL+', all presentation settings','Feature interactions grow combinatorially; a test file cannot sample them.',
 CORE+f('output','config','application','bash_versions','preprocessor','helpers'),['whole pipeline'],['whole line'],TTY),
P('C16','--disable and defaults are equivalent to editing the definition',
 'Generating with --disable=FEATURES gives the behaviour of the same definition with those attributes removed (for repeatable: every option repeatable), and the global switches (--repeatable-options, --inherit-options, --abbreviate-commands, --abbreviate-options, --long-option-argument-separator) act exactly like setting the attribute on every command/option that leaves it unset, never overriding one that is set.',
 ['input','config'],'all definitions, all feature subsets and switch settings','2^5 feature subsets times definitions; tests use one or two.',
 f('generation','application','config','cli'),['_apply_config','Config.disable','set_*'],['effective definition'],['generated script text / offered candidates']),
P('C17','Conversion keeps the definition',
 'Converting a definition between YAML and JSON, any number of times and in any order, preserves its meaning: the scripts generated from every form are identical, and converting a converted definition again yields the same text (the conversion reaches a fixed point after one step).',
 ['input','history'],'all definitions (every attribute, completer, string content) and all conversion sequences','An attribute dropped or re-typed for one value only shows for definitions using exactly that value; the conversion test only checks that nothing crashes.',
 f('dictionary_source','yaml_source','json_source','extended_yaml_parser','cli','compat','algo'),['commandline_to_dictionaries','option_to_yaml','dictionaries_to_commandline'],['definition'],['output of yaml/json/bash/fish/zsh']),
P('C18','Generation is a pure, deterministic function',
 'The script generated for a definition depends only on the definition and the settings: not on the process (hash seed), not on what was generated before in the same process or batch, nor on the order of batch commands; and generating leaves the CommandLine object passed in unchanged.',
 ['history','config','input'],'all definitions, all sequences of generate/convert operations in one process','Needs sequences of operations over one process; every test generates each script once.',
 f('generation','cli','shell','bash','fish','zsh','application','output','helpers'),['CommandLine.copy','enhance_commandline','batch processing'],['CommandLine object graph','Config'],['generated text','dictionary form before/after']),
P('C19','Definitions are accepted or rejected, never mishandled',
 'Every definition file is either accepted (exit 0, script written) or rejected with an error message naming the offending place (exit 1) - never an internal crash - and it is accepted exactly if it satisfies the documented schema: known keys and completers, correct types and arities, valid names, unique programs with defined parents, rules on repeatable/hidden/groups/numbers - at every nesting depth of commands and completers. A rejected definition leaves no output file behind.',
 ['input'],'all definition documents (all single and combined deviations from valid ones)','The tests hold a list of error messages; which deviations at which depth are noticed must hold for all.',
 f('scheme_validator','completion_validator','yaml_source','json_source','dictionary_source','application','type_utils','str_utils'),['validate','_check_*','DefinitionTree'],['exit status','stderr'],['exit status, stderr, existence of the output file']),
P('C20','Accepted definitions give loadable, self-contained scripts',
 'Every accepted definition yields, in each shell, a script that the shell parses and sources without error, that defines every function it calls (outside the shell\'s own completion library), defines only names with the function prefix and registers completion for the program name and all its aliases.',
 ['input','config'],'all accepted definitions and settings','Helper inclusion is driven by preprocessor conditions per used feature; an unused combination silently references a helper that was left out.',
 f('helpers','preprocessor','bash_helpers','fish_helpers','zsh_helpers','output','bash','fish','zsh','bash_versions'),['use_function','get_used_functions_code','preprocessor #ifdef'],['generated script'],['bash -n / zsh -n / fish -n, functions called vs defined']),
P('C21','`when` expressions are parsed by the documented grammar',
 'A `when` string is accepted exactly if it is generated by the documented grammar (operators ||, &&, ! and parentheses over has_option, option_is, option_match, positional_count, positional_contains with their arguments in shell quoting), with ! binding tightest and && and || having equal precedence and grouping to the left as in the shells; otherwise the definition is rejected with an error.',
 ['input'],'all strings','The language is infinite; tests hold a dozen strings.',
 f('when','shell_parser','string_stream','scheme_validator'),['parse_when','ShellLexer/ShellParser'],['token stream'],['exit status','offered candidates']),
P('C22','YAML documents, defines and order',
 'The result does not depend on how a definition is written down: defines in a %defines% document are equivalent to writing the value in place, JSON-form and block-form YAML are equivalent, the old `group` is equivalent to one-element `groups`, and command documents may come in any order in which parents precede children.',
 ['input','history'],'all definitions and all equivalent ways of writing them','Needs equivalent pairs for arbitrary definitions.',
 f('yaml_source','extended_yaml_parser','dictionary_source','compat','cli'),['replace_defines_in_documents','compat'],['document list'],['generated text']),
P('C23','argparse programs are mirrored',
 'The definition obtained from a Python ArgumentParser mirrors it: every action becomes an option or positional with the same strings, argument arity (none/required/optional), choices and order, mutually exclusive groups, sub-parsers with aliases and help become groups and subcommands, help/version are final, suppressed options hidden, and the annotations of crazy-complete (complete, when, repeatable, final, aliases) are carried over.',
 ['input'],'all ArgumentParser programs over the supported actions','Tests contain one sample program.',
 f('argparse_source','argparse_mod','file_loader','application'),['argumentparser_to_commandline','get_complete'],['CommandLine'],['JSON output for the python file']),
P('C24','Help texts are read faithfully',
 'From a help text, every option line yields one option with exactly its strings, metavar, optional flag and description (wrapped lines joined), other lines are kept as comments, and the resulting YAML is itself a valid definition whenever the option strings are.',
 ['input'],'all help texts in the usual option layouts','Layouts vary without bound; the test has grep --help only.',
 f('help_parser','help_converter','yaml_source'),['parse','from_file_to_yaml'],['character stream'],['YAML output']),
P('C25','Output, install and uninstall lifecycle',
 'Over any sequence of -o/-i/-u operations, a successful generation leaves exactly the generated script in the destination and nothing else changed, a failed one (bad definition, bad arguments) leaves every existing file as it was, uninstall removes exactly the installed file of that program and shell, and exit codes are 0 for success, 1 for definition or I/O errors, 2 for usage errors.',
 ['history','fault'],'all sequences of generate/install/uninstall with good and bad inputs','Sequences with failures in between are not tested at all.',
 f('application','paths','errors'),['write_string_to_file','install/uninstall'],['file system'],['exit status','directory tree']),
]
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(here+'/properties.jsonl','w') as fh:
    for p in props: fh.write(json.dumps(p)+'\n')
