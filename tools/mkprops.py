import json
P=[]
import re
def whr(x,files):
    import glob
    for f in list(files)+glob.glob('/repo/preload-src/src/*/*.[ch]'):
        p=f if f.startswith('/') else '/repo/'+f
        if 'tests/' in p: continue
        for i,l in enumerate(open(p),1):
            if re.match(r'^(\w[\w \*]*\s\**)?'+x+r'\s*\(',l): return p[6:]+':'+x
    raise Exception(x)

def add(id,title,st,over,q,why,files,syms):
    assert len(title)<=80,title
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=x,where=whr(x,files)) for x in syms],hook_needed=None)))
S="preload-src/src/"
add("P01","A save replaces the state file atomically, whatever crash or fault hits it",
"At every instant of a save, including a crash at any point, the configured state file is either the complete previous file or the complete new model, never a mixture, a truncation or nothing. A save that fails at any step (temporary file cannot be created, write error, disk full, failed rename) leaves the previous file in place, is reported, leaves no temporary file behind where it can be removed, and the daemon goes on and writes the model at the next save. A temporary file left by an earlier crash never prevents a later save.",
["crash_points","fault_sequences","histories"],"every system call of a save as crash point and as failing call with any errno or short write, for any model content and previous file, followed by restarts and further saves",
"The tests write one small model to a healthy disk; no test crashes or injects a fault inside a save.",
[S+"handling/state_io.c",S+"handling/state.c"],["preload_state_write_file","write_state","preload_state_save"])
add("P02","A restart resumes with everything the daemon had learned",
"Starting from a state file the daemon wrote restores the learned model it described: model time, applications with running time and file-region sets, pair statistics (joint time, per-state mean durations, transition counts) and the launch-sequence tree, for any path names the file system allows and any length the daemon tracks. Whatever was learned up to an orderly termination or an on-demand or periodic save is in the file that save leaves: a save is skipped only when nothing was learned since the last successful one. Small applications that were remembered as uninteresting are forgotten by a restart.",
["histories","inputs"],"all histories of launches, exits, saves at any moment of a cycle, terminations and restarts, under both prediction algorithms, with arbitrary path bytes",
"Round-trip tests save and reload two or three hand-made objects in one process; saves in the middle of a cycle, the launch tree, odd path names and whole restarts are not exercised.",
[S+"handling/state_io.c",S+"handling/state.c",S+"algorithm/vomm.c"],["preload_state_read_file","preload_state_write_file","preload_state_load","preload_state_run","vomm_export_state","vomm_import_node"])
add("P03","Any state file is loaded, ignored or refused with a line number; never a crash",
"Whatever bytes the state file holds, start-up ends in one of three ways: the described model is loaded, the file is ignored with a warning and the model starts empty (missing file, foreign header, other major version), or start-up is refused with an error message naming the offending line and a failure exit status. Malformed fields, references to undeclared objects, duplicate declarations and unknown record types are refused; comment lines and remembered-small-application records are skipped; launch-tree records that fit nowhere (unknown application or parent, too deep, or a duplicate) are dropped with a warning. A refused or ignored file is not modified by start-up, and a loaded one never makes the daemon crash later.",
["inputs"],"all sequences of records, well-formed or not, and arbitrary damage (truncation, byte edits, reordering, repetition) of valid files",
"The tests feed a handful of fixed bad lines; the combinations of records, duplicates, dangling references and damage are unbounded.",
[S+"handling/state_io.c",S+"handling/state.c",S+"algorithm/vomm.c"],["read_state","read_map","read_exe","read_exemap","read_markov","read_vomm_node","vomm_import_node"])
add("P04","Exactly the accepted, big-enough applications are tracked, with run status",
"An application becomes known exactly when one of its processes is seen by a scan, is still alive when the scan is digested half a cycle later, its executable path is accepted by the executable filter and not deleted, and its accepted mapped regions total at least the configured minimum size; a smaller one is only remembered as uninteresting until the next save. After every scan an application counts as running exactly if a process of it was seen; starting and stopping is noticed at the scan that first sees it. The daemon never tracks itself, kernel threads or processes whose executable link cannot be read, and an application renamed by the prelinker counts as the original.",
["histories","schedules","configurations"],"all histories of processes starting, exiting, dying between scan and digestion, sharing an executable, being replaced or prelinked, over any number of cycles",
"No test runs a scan: unit tests build the model by hand, and the post-build test only watches that the daemon stays up for two seconds.",
[S+"monitoring/spy.c",S+"monitoring/proc.c",S+"handling/exe.c"],["preload_spy_scan","preload_spy_update_model","proc_foreach","exe_is_running"])
add("P05","Path filters decide by their first matching prefix",
"For executables and for mapped files separately, the configured prefix list is consulted in order and the first entry that is a prefix of the path decides: a plain entry accepts, an entry starting with '!' rejects; a path matching no entry, or an absent list, is accepted. Paths are compared literally and in full.",
["inputs","configurations"],"all prefix lists (any length, order, overlap, negation, empty entries) and all paths",
"No test covers the filters; the number of list and path combinations is unbounded.",
[S+"monitoring/proc.c"],["accept_file","proc_foreach","proc_get_maps"])
add("P06","Running time is accounted exactly and never exceeds elapsed model time",
"At every model update each application seen running by the latest scan, and each pair both of whose members were, is credited exactly the model time since the previous update, and nobody else is credited. Hence at every moment a pair's joint time is at most either member's running time, which is at most the model time, also across restarts.",
["histories","schedules","configurations"],"all histories of launches and exits over any number of cycles, cycle lengths, power states, configuration changes, saves and restarts",
"The tests set times by hand; none drives the accounting over a history.",
[S+"monitoring/spy.c",S+"handling/state.c"],["preload_spy_update_model","running_exe_inc_time","running_markov_inc_time","preload_state_tick"])
add("P07","Every pair of known applications has one Markov chain that records its history",
"Any two known applications share exactly one four-state chain, whose state after each update says which of the two run, and no chain outlives its members. Each change of that joint state, and nothing else, counts one departure from the old state, one transition from the old to the new state, and folds the time spent in the old state into that state's mean duration. So departures always equal the sum of outgoing transitions, and the mean durations are the averages of the observed stays, where a stay under way at a restart counts from the restart and a newcomer's pairs are recorded from its discovery on.",
["histories","schedules"],"all interleavings of starts and stops of any number of applications, including several changes in one cycle, discoveries, removals and restarts",
"Tests call the transition function once or twice on one hand-built pair; no history of more than one change, no simultaneous changes, no discovery of an application next to running ones.",
[S+"algorithm/markov.c",S+"monitoring/spy.c",S+"handling/exe.c",S+"handling/state_io.c"],["preload_markov_new","preload_markov_state_changed","exe_changed_callback","preload_state_register_exe"])
add("P08","The launch tree counts exactly the launch sequences observed, at most five deep",
"With the variable-order algorithm, every observed launch (an application turning from idle to running, or newly tracked) extends the current launch sequence by one node, counts that node once, and counts once the pair previous launch to this launch at the top of the tree; nothing else changes any count. The remembered history and the sequences stored never exceed five launches: a sequence that is full starts again from the top. When the algorithm starts without a stored tree, the tree is seeded with the recorded pair start counts, also when it is switched on while running.",
["histories","configurations"],"all launch sequences over any set of applications, of any length, with saves, removals, restarts and algorithm switches in between",
"The tests make at most a few direct calls on two or three applications and look at no counts beyond the first levels.",
[S+"algorithm/vomm.c",S+"monitoring/spy.c",S+"handling/state.c"],["vomm_update","vomm_init","vomm_hydrate_from_state"])
add("P09","Markov scores: the documented formula over exactly the idle applications",
"At each prediction with the Markov algorithm the probability that an idle application is not needed is the product, over its pairs, of one minus (absolute correlation, or 1 if disabled) times the probability of leaving the pair's state (as the latest model update recorded it) within one and a half cycles times the share of departures that started this application; pairs never seen leaving the present state or with mean stay of at most a second contribute nothing. Each file region's score is the sum of the log-probabilities of the idle applications using it plus one for each running one (whatever was bid for that one), computed afresh at every prediction.",
["histories","inputs","configurations"],"all models reachable by any history or loaded from a state file, all cycle lengths and both correlation settings",
"Tests compute one correlation for a few hand-picked times; no test runs a prediction.",
[S+"algorithm/prophet.c",S+"algorithm/markov.c"],["preload_prophet_predict","markov_bid_for_exe","preload_markov_correlation","exemap_bid_in_maps"])
add("P10","Variable-order scores: the documented bids over exactly the idle applications",
"At each prediction with the variable-order algorithm every idle application gets, for each remembered launch and for the present sequence, the factor one minus its share of the launches recorded there (share capped at 0.99), a weak constant bid as a direct successor of the present sequence, and a damped bid of at most one half for each pair by its global frequency. A likelier successor never ends up with a lower priority than a less likely one with the same other bids, and running applications receive no bid.",
["histories","inputs"],"all launch trees and histories",
"Tests only check that predicting does not crash and that some score changed.",
[S+"algorithm/vomm.c",S+"algorithm/prophet.c"],["vomm_predict","predict_ppm","predict_dg_fallback","predict_global_frequency"])
add("P11","Prefetch takes the most needed regions first and never exceeds the memory budget",
"The regions prefetched in a cycle are a prefix of the known regions ordered by decreasing need: every one is predicted to be needed, none left out is more needed than one taken, and taking stops only at the first region that is not predicted or does not fit. Their total size never exceeds the budget computed from the configured percentages of total, available (or, where the kernel does not report it, estimated), cached and buffer memory at that moment, a negative first part counting as zero and percentages clamped to plus or minus 100. With no budget nothing is prefetched.",
["inputs","histories","configurations"],"all models, memory situations and percentage settings",
"No test runs the selection; the budget depends on live memory figures and percentages in unbounded combinations.",
[S+"algorithm/prophet.c",S+"monitoring/proc.c"],["preload_prophet_readahead","proc_get_memstat","map_prob_compare"])
add("P12","Read-ahead requests cover exactly the selected regions, in order and bounded",
"The bytes requested from the kernel in a cycle are exactly the union of the selected file regions, in the order asked for by the sort setting (none, path, inode or disk block), overlapping or adjacent regions of a file that follow each other being merged into one request. With parallel reading at most the configured number of readers exist at any time and all are reaped before the cycle goes on; with none configured everything is read by the daemon itself. If a file cannot be opened, a reader cannot be started, or the kernel call is unsupported (then memory advice on the page-aligned region is used instead), the remaining regions are still requested and the daemon never blocks.",
["inputs","configurations","fault_sequences","schedules"],"all sets of regions (nested, overlapping, adjacent, duplicate, same and different files), all sort and parallelism settings, all failures of open, fork, wait and read-ahead",
"No test calls the read-ahead code.",
[S+"handling/readahead.c"],["preload_readahead","process_file","try_readahead_with_fallback","sort_files","set_block","wait_for_children"])
add("P13","A save forgets exactly the idle applications whose executable is gone",
"Each save, successful or not, removes from the model exactly the applications that are not running and whose executable no longer exists as a regular file; a running application, and one whose file cannot be examined for another reason, stays. With an application go all its pairs, its launch-tree nodes and their continuations, its place in the launch history, and every region no other application uses; everything else is unchanged, and remembered small applications get another chance.",
["histories","fault_sequences"],"all models and all combinations of present, missing, replaced and unreadable executables, running or idle, at any moment of a cycle",
"Tests remove one application from a tiny hand-made model outside a running daemon.",
[S+"handling/model_utils.c",S+"handling/exe.c",S+"handling/state.c",S+"algorithm/vomm.c"],["preload_cleanup_invalid_entries","preload_validate_exe","preload_state_unregister_exe","preload_state_save"])
add("P14","The daemon never crashes, hangs, leaks or refers to a forgotten object",
"In every history the daemon keeps serving: it never accesses freed memory, never stops on an internal check, never blocks or spins, and after each step every region is held exactly as often as known applications use it, every chain links two known applications that both list it, and every running or launch-tree entry is a known application. File descriptors, child processes and temporary files do not accumulate over cycles, and an orderly termination releases everything and exits successfully.",
["histories","schedules","fault_sequences","inputs"],"all histories of process activity, saves at any moment, removals, configuration changes, signals and restarts",
"Unit tests build and free single objects; use-after-free needs particular orders of scan, save, removal and update.",
[S+"handling/exe.c",S+"handling/map.c",S+"algorithm/markov.c",S+"algorithm/vomm.c",S+"monitoring/spy.c",S+"handling/state.c"],["preload_exe_free","preload_map_unref","preload_markov_free","preload_state_unregister_exe","preload_state_free"])
add("P15","Configuration is loaded all or nothing, with defaults, and takes effect at once",
"Starting with a configuration file yields exactly the documented defaults overlaid with the keys the file sets; keys it does not set keep their defaults and unknown keys are ignored. An unreadable, malformed or wrongly typed file makes start-up fail; at a reload it is reported and the previous configuration stays in force entirely. A valid reload replaces the whole configuration, keys no longer set return to their defaults, and the next step uses it.",
["inputs","histories","configurations"],"all configuration files and all sequences of reloads, valid or not, at any moment",
"No test loads a configuration file beyond the default one at start-up; reloading is not tested.",
[S+"config/conf.c",S+"config/confkeys.h",S+"daemon/preload.c"],["preload_conf_load","set_default_conf","preload_is_vomm_algorithm"])
add("P16","Cycle, autosave and signals: each does its job once, at its time, and only then",
"Steps alternate strictly: a scan and prediction (each only if enabled), half a cycle later the update of the model, half a cycle later the next scan, the model time advancing by one cycle per round; a periodic save happens every configured interval. A signal received at any moment takes effect exactly once after the step under way: reload and log reopening, a dump, a save, or orderly termination with a final save; it changes nothing else and disturbs no timing. Learning and prediction happen at no other time.",
["schedules","histories","configurations"],"all arrivals of signals relative to steps, bursts included, all cycle and save intervals, and all switch settings, over any number of cycles",
"The post-build test only stops an idle daemon after two seconds; no test sends a signal at a chosen moment or looks at timing.",
[S+"daemon/preload.c",S+"handling/state.c"],["sig_handler","sig_handler_sync","preload_state_tick","preload_state_tick2","preload_state_autosave","preload_state_run"])
add("P17","On battery the daemon neither scans nor prefetches, and resumes by itself",
"In a cycle that begins while any of the system's batteries is discharging, no process is scanned, no prediction is made and nothing is prefetched, and the next step comes only after twice the cycle length; model time still advances and a scan already made is still digested. As soon as a cycle begins with no battery discharging, scanning and prefetching resume as configured. Saves and signals work the same on battery.",
["schedules","histories","inputs"],"all sequences of power states (any number and state of batteries, missing or unreadable status) over cycles",
"No test simulates a battery.",
[S+"utils/power.c",S+"handling/state.c"],["preload_on_battery","preload_state_tick"])
add("P18","The recorded regions of an application are exactly its accepted file mappings",
"When an application becomes known, the regions recorded for it are exactly the file-backed, not deleted mappings of its process accepted by the map filter, each with its file path in full, offset and length; anonymous and special mappings are not recorded and prelinker-renamed files count as the original. Regions are shared: two applications mapping the same region of the same file refer to one region object, identified by path, offset and length, which keeps its identity as long as anyone uses it.",
["inputs","histories"],"all memory-map listings: any paths (spaces, long names, deletion marks, prelink names), any number and overlap of regions, shared between applications",
"Tests create region objects directly; no test parses a process's memory map.",
[S+"monitoring/proc.c",S+"handling/map.c",S+"monitoring/spy.c"],["proc_get_maps","sanitize_file","preload_map_equal","preload_map_hash","preload_map_ref"])
add("P19","Options decide the files, the mode and the verbosity, in any order and form",
"The last occurrence of each option (long, abbreviated, short, joined or separate) decides: an empty configuration name means defaults, an empty state name means nothing is loaded or saved, an empty log name means standard error; --debug means no log file, foreground, verbosity 9. --help and --version print to standard output and exit successfully without starting anything; an unknown option or a missing argument prints the usage to standard error and fails; an unwritable log or unreadable configuration fails with a message. Unless told to stay in the foreground the daemon detaches: the started process exits successfully and a child in a session of its own serves. The log holds exactly the messages up to the verbosity, and none of this changes what is learned, saved or prefetched.",
["inputs","configurations","fault_sequences"],"all lists of arguments, all combinations of present, missing, damaged and unwritable files behind the names, and a reload later",
"The post-build test uses one command line; no test parses another.",
[S+"config/cmdline.c",S+"daemon/preload.c",S+"utils/log.c"],["preload_cmdline_parse","main","daemonize","preload_log_init","preload_log_reopen","preload_log"])
add("P20","Watching and prefetching stay in the background and disturb nothing",
"The daemon creates, changes, renames, deletes and signals nothing but its state file, the temporary beside it and its log. Files it prefetches, or looks at to sort them, are opened for reading only, without becoming its terminal, without leaving a trace in the access time when read, and without ever waiting for anyone, even where a path has turned into a pipe. Every read-ahead request, the daemon's own or a reader's, is made at idle I/O priority. Whatever the files have become, the cycle ends with no reader and no descriptor left.",
["inputs","schedules","fault_sequences","configurations"],"all kinds of files found behind the recorded paths (missing, unreadable, directories, pipes, without read-ahead or mapping), all sort and parallelism settings, all orders in which readers finish",
"No test calls the read-ahead code, and none looks at the system calls the daemon makes.",
[S+"handling/readahead.c",S+"handling/madvise_utils.c",S+"handling/state_io.c",S+"utils/log.c"],["preload_readahead","process_file","set_block","try_readahead_with_fallback","wait_for_children"])
add("P21","What followed an application before is foreseen when it can come again",
"With the variable-order algorithm, once an application has been launched right after another one, then as long as both are known, across saves, restarts from what was saved, reloads, dumps and the removal of other applications, every prediction made while it is idle finds it needed: each of its regions that no running application uses is a candidate, and with enough memory for all candidates all of them are requested in that cycle. An application that never came after another one is never predicted.",
["histories","configurations"],"all sequences of launches, exits, saves, removals, restarts and reloads",
"No test follows a launch sequence from its observation to the read-ahead it should cause.",
[S+"algorithm/vomm.c",S+"algorithm/prophet.c",S+"monitoring/spy.c",S+"handling/state_io.c"],["vomm_update","vomm_predict","preload_prophet_predict","preload_prophet_readahead","preload_readahead"])
add("P22","A requested report tells the truth and changes nothing",
"Every dump request, at whatever moment it arrives and however often, is answered by exactly one report of the model (its time, and the numbers of known, of refused and of running applications and of recorded regions) and one of the configuration in force: every documented setting once, under its section and name, with the value that counts now, whether it came from the file, from a default or from the last accepted reload. A daemon told to tell everything (verbosity five and more) also reports the model after every scan, and at no other time. Reporting changes neither the model, nor the schedule, nor any file but the log.",
["histories","schedules","configurations"],"all histories, arrival times and numbers of requests, all configurations accepted at start or by a reload, refused reloads in between",
"No test requests a report or reads the log.",
[S+"config/conf.c",S+"handling/state.c",S+"daemon/preload.c"],["preload_conf_dump_log","preload_state_dump_log","sig_handler_sync"])
add("P23","What the daemon writes is private, and planted names do not divert it",
"The state file it writes is never accessible to others than its owner and group, and a log it creates to nobody but its owner, whatever the creation mask of whoever started it. Whatever somebody else puts at the name of the temporary (a file, a symbolic or hard link to another file, a directory), before a save or between any two of its steps, nothing but a file newly created by the daemon is written: the other file keeps its contents, and a save that cannot be done is reported and leaves the last saved state in place.",
["fault_sequences","schedules","inputs"],"all kinds and moments of names planted beside the state file, with failing calls and crashes in between, all creation masks, saves on request, by timer and at the end",
"No test runs a save with something at the temporary's name, or looks at the permissions of what was written.",
[S+"handling/state_io.c",S+"utils/log.c",S+"daemon/preload.c"],["preload_state_write_file","preload_log_init","preload_log_reopen","daemonize"])
add("P24","A state file is read whole or refused as it is, however its reads go",
"Whatever the reads of a stored state file bring at start-up (all of it, any part at a time, an interruption), the daemon starts with everything that is in it. If a read fails, or access to the file is denied, the daemon does not start: it says so, exits with an error and leaves the file as it was, so that the next start finds all of it; it never goes on with a part, and never saves a part in place of the whole.",
["fault_sequences","inputs","histories"],"all ways of cutting the reads into pieces, interruptions and failures at every read and at the opening, over several starts, with files of the daemon's own and written by hand, whole or with a line at fault",
"No test makes a read of the state file fail or come in pieces.",
[S+"handling/state_io.c",S+"handling/state.c"],["preload_state_read_file","read_state","preload_state_load"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(p,ensure_ascii=False)+"\n" for p in P))
