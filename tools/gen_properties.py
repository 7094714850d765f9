#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (one place to edit the statements)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(zip(("name", "meaning", "where"), s)) for s in state],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=list(observe), hook_needed=hook)))
S, I, F, H, C, X = "schedules", "inputs", "fault_sequences", "histories", "configurations", "crash_points"

prop("C01", "A pipeline delivers its stages' data complete, unaltered and in order",
 "Whatever mix of external programs, Python functions and iterators a pipeline is built from, each stage receives exactly the bytes its predecessor wrote, in order, and the caller who takes the result as bytes, as text or by iterating gets exactly the output of the last stage (of both members for a parallel group). Nothing is lost, duplicated, reordered or invented, for any amount of data, any speed of the stages and any pipe capacity, and the transfer always completes once all stages have finished.",
 [S, I, F], "all pipelines over the stage kinds, all data, all interleavings of shell, children and signals, short reads/writes, pipe sizes",
 "tests pipe a few short lines through ls/grep/sed with whatever interleaving the machine gives; none moves more than a pipe buffer, none controls who runs when",
 ["pieshell/pipeline/pipe.py", "pieshell/pipeline/group.py", "pieshell/pipeline/base.py", "pieshell/pipeline/function.py", "pieshell/iterio.py", "pieshell/redir.py"],
 [("connecting stages by pipes", "pieshell/pipeline/pipe.py Pipe._run"), ("event-loop readers/writers", "pieshell/iterio.py InputHandler, OutputHandler"), ("bytes()/str()/iteration", "pieshell/pipeline/base.py")],
 [("pipe descriptors", "ends held by shell and children", "pieshell/redir.py make_pipe")], ["bytes(p)", "str(p)", "list(p)", "async for", "what each stage read and wrote"])

prop("C02", "Reading by lines does not depend on how the bytes arrive",
 "Iterating over a pipeline, or over the input given to a Python function stage, yields exactly the newline-separated lines of the byte stream decoded as UTF-8, in order and without their newline, an unterminated last line included and nothing after it. This is the same however the stream is cut into reads (inside a line, inside a character, exactly at a newline), however long the lines are and however slowly they are consumed.",
 [S, I], "all UTF-8 byte streams, all ways of cutting them into reads, all consumer speeds",
 "the tests read short lines that arrive in one piece",
 ["pieshell/iterio.py", "pieshell/utils/asyncutils.py"],
 [("line buffer", "pieshell/iterio.py LineInputHandler"), ("async to sync iteration", "pieshell/utils/asyncutils.py asyncitertoiter")],
 [("buffer", "bytes read and not yet handed out", "pieshell/iterio.py LineInputHandler.buffer")], ["list(p)", "for/async for over p", "a function stage's argument"])

prop("C03", "Every item a Python stage produces is written once, as one line, in order",
 "Each item a Python function, generator, iterator, asynchronous iterator or coroutine stage produces reaches the next stage as exactly its own text and one newline after it (text as UTF-8, bytes unchanged, other objects as their text, None items skipped), in order and exactly once. This holds for items of any size, when the output is accepted only in parts, when the reader is slower than the producer or the producer slower than the reader, and items are not requested again after the producer has ended.",
 [S, I, F], "all item sequences and sizes, all producer/consumer speeds, partial writes, pipe capacities",
 "tests send two or three short strings; a full pipe, a partial write or a suspended producer never happens",
 ["pieshell/iterio.py", "pieshell/pipeline/function.py", "pieshell/utils/asyncutils.py"],
 [("writer driven by writability", "pieshell/iterio.py LineOutputHandler.send_output"), ("conversion of items", "pieshell/pipeline/function.py convert"), ("re-entrancy guard", "pieshell/iterio.py recursion_lock")],
 [("recursion_lock", "one outstanding request to the producer", "pieshell/iterio.py OutputHandler")], ["lines the next stage reads", "items taken from the producer"])

prop("C04", "Waiting for a pipeline ends exactly when all of it has ended",
 "Waiting for a running pipeline (explicitly, by awaiting it, by running it in the foreground, or at the end of iterating over it) never returns while one of its programs or Python stages is still running, and always returns once the last has ended. It does so whether they ended by exiting, by being killed by a signal, by dumping core or by raising an exception, before or after the wait began, in any order, and however their notifications are merged or delayed.",
 [S, F, X], "all termination orders and causes, all points at which a process is killed, all signal delivery delays and coalescings",
 "tests only run programs that exit by themselves and one order of events; nothing is ever killed, no function stage is the last to end by failing",
 ["pieshell/pipeline/running.py", "pieshell/signalio/__init__.py", "pieshell/signalio/manager_signalfd.py", "pieshell/signalio/manager_asyncio.py", "pieshell/signalio/signalutils.py"],
 [("completion future of a child", "pieshell/signalio/__init__.py ProcessSignalHandler"), ("pipeline completion", "pieshell/pipeline/running.py RunningPipeline.wait/handle_finish"), ("draining merged SIGCHLDs", "pieshell/signalio/signalutils.py get_sigchlds")],
 [("done_future", "one per child / function stage", "pieshell/signalio/__init__.py, pieshell/iterio.py")], ["return of wait()/run_interactive()/await/end of iteration", "is_running"])

prop("C05", "A pipeline is reported failed exactly when, and exactly for what, failed",
 "When all parts of a pipeline have ended, waiting for it raises the pipeline-failed error if and only if at least one program exited with a non-zero status or was killed by a signal, or one Python stage raised. The failed items listed are precisely those, each with its true exit status or terminating signal number, and an item that is still running or merely stopped is never reported as failed. The error can be shown as text, which holds what was captured from each failed program.",
 [S, F, X], "all combinations of exit statuses, terminating signals, exceptions and broken pipes, in all orders",
 "one test has one failing command; mixes, signals and failing functions are not tested",
 ["pieshell/pipeline/running.py", "pieshell/signalio/__init__.py", "pieshell/signalio/signalutils.py"],
 [("failed_processes / is_failed", "pieshell/pipeline/running.py"), ("status decoding", "pieshell/signalio/signalutils.py get_sigchlds")],
 [("last_event", "last status change of a child", "pieshell/signalio/__init__.py ProcessSignalHandler")], ["exception of wait()", "failed_processes", "exit_code", "is_failed"])

prop("C06", "Every child is reaped, and its status goes to the item it belongs to",
 "Every process the shell starts is reaped after it ends, so that none is left as a zombie once the event loop has run, and the status recorded for each process item is the one of that very process. This holds with many pipelines running at once, with several children changing state behind one merged notification, with children the shell did not start as pipelines, and when process ids are reused.",
 [S, F, H], "all sets of concurrent pipelines, all merge patterns of child notifications, all pid reuse patterns",
 "tests run one small pipeline at a time, so a status that went to the wrong item or a missed one would not show",
 ["pieshell/signalio/manager_signalfd.py", "pieshell/signalio/manager_asyncio.py", "pieshell/signalio/signalutils.py", "pieshell/signalio/__init__.py"],
 [("dispatch of child events by pid", "pieshell/signalio/manager_signalfd.py SignalManager.handle_event"), ("reap loop", "pieshell/signalio/signalutils.py get_sigchlds")],
 [("signal_handlers", "filter to handler map", "pieshell/signalio/manager_signalfd.py")], ["exit_code per item", "process table"])

prop("C07", "Running pipelines does not leak the shell's descriptors",
 "Once a pipeline has ended and its output has been consumed, the shell process has exactly the open descriptors it had before starting it, however often this is repeated and however the pipeline ended. No descriptor the caller passed in or the shell still needs is closed on the way.",
 [S, H, F], "all pipelines over the stage kinds, all ways they end, any number of repetitions",
 "no test looks at descriptors; a leak shows only after thousands of commands or as a pipe that never reaches end of file",
 ["pieshell/redir.py", "pieshell/iterio.py", "pieshell/pipeline/pipe.py", "pieshell/pipeline/command.py", "pieshell/pipeline/function.py"],
 [("closing the parent's copies", "pieshell/redir.py close_source_fds"), ("handler destruction", "pieshell/iterio.py IOHandler.destroy"), ("borrowing", "pieshell/redir.py Redirect.borrow")],
 [("borrowed", "descriptor belongs to somebody else", "pieshell/redir.py Redirect")], ["the shell's descriptor table"])

prop("C08", "A started program has exactly the descriptors declared for it",
 "When an external program starts, its open descriptors are exactly the ones declared for it (standard input, output and error, and those of its argument pipes), each connected to the declared object, and nothing else: no other stage's pipe end, no descriptor of the shell. So a reader sees end of file as soon as its real writers are gone, whatever else is running.",
 [S, C], "all pipeline shapes, redirect combinations, concurrent pipelines and start orders",
 "tests cannot see a child's descriptors; a stray pipe end only shows as a rare hang",
 ["pieshell/redir.py", "pieshell/pipeline/command.py", "pieshell/utils/pipe.py", "pieshell/log.py"],
 [("descriptor shuffling in the child", "pieshell/redir.py Redirects.perform, move_existing_fds"), ("closing all others", "pieshell/redir.py close_other_fds"), ("close-on-exec pipes", "pieshell/utils/pipe.py")],
 [("redirects", "target descriptor to source", "pieshell/redir.py Redirects")], ["descriptor table at exec"])

prop("C09", "Redirections connect the declared files, or the command does not run",
 "A stage whose input or output is redirected to a file, to the null device, to a descriptor or to another of its own descriptors reads and writes exactly there, with the declared open flags and permissions, whether the stage is an external program or a Python function, and whether the redirection is part of the pipeline, given when running it, or a default of its environment (and of that environment only). If a redirection cannot be made, the program is not executed and the pipeline is reported as failed.",
 [I, F, C], "all redirect sets over files, null, descriptors and flags, all open failures at any of them",
 "tests redirect stdout of ls to a temporary file and to null; nothing fails, nothing is combined",
 ["pieshell/redir.py", "pieshell/pipeline/redirect.py", "pieshell/pipeline/command.py", "pieshell/pipeline/function.py", "pieshell/iterio.py"],
 [("opening and duplicating", "pieshell/redir.py Redirect.perform/move"), ("merging of redirects", "pieshell/pipeline/redirect.py CmdRedirect")],
 [], ["file contents", "exec of the command", "PipelineFailed"])

prop("C10", "Captured output is complete and temporary files are cleaned up",
 "When a pipeline has ended, the text captured for a descriptor redirected to a captured string (standard error of every command by default) is everything that was written to it, of whatever bytes, and its temporary file is gone. A temporary-file redirection instead leaves its file in place with the complete output until the caller removes it.",
 [S, I, F], "all outputs including undecodable bytes, all interleavings of writers, all ways of ending",
 "tests never look at captured content, and no test writes non-text bytes to standard error",
 ["pieshell/pipeline/running.py", "pieshell/redir.py"],
 [("reading and removing at the end", "pieshell/pipeline/running.py handle_pipeline_finish, handle_pipeline_finish_destructive"), ("temporary files", "pieshell/redir.py make_pipe")],
 [("output_content", "captured text by descriptor", "pieshell/pipeline/running.py RunningItem")], ["output_content", "output_files", "the temporary directory"])

prop("C11", "A child process never runs on as a second copy of the caller",
 "After the shell forks, the child either becomes the requested program or ends: no failure on the way (program missing or not executable, unusable argument, working directory gone, redirection impossible, standard error closed, interrupt) ever lets it return into the caller's code, run the caller's cleanup, or continue as a second shell. Such a failure appears in the parent as a process that ended with a failure status, and the pipeline as failed.",
 [F, I, C], "all failures at every step between fork and exec, all redirect configurations, signals in the child",
 "tests never make a start fail",
 ["pieshell/pipeline/command.py", "pieshell/pipeline/builtins.py", "pieshell/redir.py"],
 [("child branch after fork", "pieshell/pipeline/command.py Command._run"), ("subshell child", "pieshell/pipeline/builtins.py SubShell._child")],
 [], ["number of processes that return from the caller's statement", "exit status seen by the parent"])

prop("C12", "Suspending and continuing a pipeline stops all of it and loses nothing",
 "When the user suspends the foreground pipeline, or asks a pipeline to suspend, all of its unfinished programs are stopped, and the waiting caller gets the pipeline-suspended error. Continuing it in the background or by waiting again lets all of them run on, its results are the same as without suspension, and the final wait reports as usual, for any number of suspensions at any moments.",
 [S, F, H], "all moments and numbers of suspend/continue requests, all pipeline shapes",
 "no test suspends anything",
 ["pieshell/pipeline/running.py", "pieshell/signalio/manager_signalfd.py", "pieshell/signalio/manager_asyncio.py"],
 [("SIGTSTP handler", "pieshell/pipeline/running.py StopSignalHandler"), ("suspend/restart", "pieshell/pipeline/running.py RunningPipeline")],
 [("pipeline_suspended", "suspension requested", "pieshell/pipeline/running.py")], ["PipelineSuspended", "process states", "output after continuing"])

prop("C13", "The shell signals only its own live children",
 "Stop and continue signals are sent only to processes that belong to the pipeline concerned and have not ended yet as far as the shell has been told. No process outside the pipeline is ever signalled, even when the process id of an ended and reaped child has been taken over by somebody else.",
 [S, H, F], "all orders of exits, reaps, waits, suspends and restarts, all pid reuse patterns",
 "pid reuse does not happen in a test run",
 ["pieshell/pipeline/running.py"],
 [("restart/suspend of a process", "pieshell/pipeline/running.py RunningProcess.restart/suspend")],
 [], ["signals received by every process in the system"])

prop("C14", "Every program runs in its own environment's directory and variables",
 "An external program starts in the working directory of the environment its command was made in and with exactly that environment's exported variables and its own argument list, as they are when the pipeline is started. Environments are independent: several used at once, or within the same pipeline, do not see each other's directory or variable changes, and the calling process's own directory and variables change only through an interactive environment. A change of directory that is refused (the directory is missing or, for an interactive environment, cannot be entered) changes nothing, and a program whose directory cannot be entered is not run in another one.",
 [S, H, C], "all sequences of environment creation, directory and variable changes, all concurrent pipelines over them",
 "tests use one environment; nothing checks what a child sees",
 ["pieshell/environ.py", "pieshell/pipeline/command.py", "pieshell/pipeline/builtins.py"],
 [("chdir in the child", "pieshell/pipeline/command.py Command._child"), ("exports of an environment", "pieshell/environ.py Environment")],
 [("_cwd/_exports", "directory and variables of an environment", "pieshell/environ.py")], ["cwd, environ and argv at exec"])

prop("C15", "Pipelines and iterators given as arguments behave as files",
 "A pipeline or iterator given as an argument, or as the value of an option, appears to the program as a file name which, opened and read, gives exactly that pipeline's output (that iterator's items as lines); a function so given appears as a file name into which the program can write and the function receives what was written. Any number of them can be combined in one command and in any stage, each is separate, and their outcome counts in the pipeline's completion and failure.",
 [S, I, C], "all numbers, kinds and positions of argument pipes, all data, all read orders of the program",
 "tests check one or two short argument pipes in one fixed read order",
 ["pieshell/pipeline/command.py", "pieshell/redir.py"],
 [("argument pipes", "pieshell/pipeline/command.py Command._handle_arg_pipes"), ("descriptor choice", "pieshell/redir.py find_free_fd")],
 [], ["what the program reads from / writes to the file name"])

prop("C16", "A pipeline is a reusable value; runs of it are independent",
 "Running a pipeline does not change it: the same pipeline object, also one used as a part of several larger ones, can be run again or several times at once, and every run gives the result it would give alone. Pipelines built from it afterwards are unaffected by runs already made or in progress.",
 [S, H], "all sequences and overlaps of runs of shared pipeline objects",
 "tests run each pipeline object once",
 ["pieshell/pipeline/base.py", "pieshell/utils/copy.py", "pieshell/pipeline/command.py", "pieshell/pipeline/redirect.py", "pieshell/redir.py"],
 [("copy before running", "pieshell/pipeline/base.py Pipeline.run"), ("deep copy", "pieshell/utils/copy.py")],
 [("_running_process", "run state lives in the copy", "pieshell/pipeline/command.py")], ["results and repr of each run"])

prop("C17", "When a consumer stops early its producers are released",
 "When a stage ends without having read all its input, the stages feeding it get a broken pipe at their next write and end, so that a pipeline in which every stage ends on a broken pipe always terminates; this holds when the early-ending stage is a program or a Python function and when the producer is a program or a Python stage. What was passed on before is unaffected, and the pipeline then reports completion or failure as usual instead of hanging.",
 [S, F, I], "all stages that stop early at any point of their input, all producer kinds including endless ones, all timings",
 "tests consume every pipeline to the end",
 ["pieshell/iterio.py", "pieshell/pipeline/function.py", "pieshell/pipeline/running.py"],
 [("closing a function stage's input", "pieshell/iterio.py"), ("broken pipe handling", "pieshell/iterio.py OutputHandler.send_output"), ("completion after failure", "pieshell/pipeline/running.py RunningItem.await_finish")],
 [], ["termination of the pipeline", "failed_processes"])

prop("C18", "Any number of waiters, including abandoned ones, see the completion",
 "Any number of tasks may wait for the same running pipeline, start waiting at any time, and give up waiting (time out or be cancelled); everyone who is still waiting is released when the pipeline has ended, with the same verdict. A wait that was given up neither disturbs the others nor the pipeline's own completion and clean-up.",
 [S, H], "all numbers of waiters, all times of arrival, cancellation and completion",
 "tests have one waiter that always waits to the end",
 ["pieshell/pipeline/running.py", "pieshell/signalio/__init__.py", "pieshell/iterio.py"],
 [("finish future", "pieshell/pipeline/running.py RunningPipeline.wait/handle_finish")],
 [("finish_future", "wakes the waiter", "pieshell/pipeline/running.py")], ["outcome of every wait"])

prop("C19", "A subshell behaves like its pipeline, isolated in a child process",
 "Running a pipeline inside a subshell gives on the subshell's output what the pipeline itself would write, and the subshell fails exactly if the pipeline inside fails. Nothing done inside affects the parent shell, whose other pipelines continue undisturbed.",
 [S, I, F], "all inner pipelines and positions of the subshell, inner failures of any stage, all interleavings of the two shells",
 "no test uses a subshell",
 ["pieshell/pipeline/builtins.py", "pieshell/pipeline/command.py", "pieshell/init.py"],
 [("child running its own event loop", "pieshell/pipeline/builtins.py SubShell._child"), ("re-initialisation", "pieshell/init.py")],
 [], ["output and exit status of the subshell"])

prop("C20", "Sourcing a bash script imports exactly the variables bash reports",
 "Sourcing bash scripts makes bash run exactly the named ones, whatever characters their names hold; after it has completed, the environment's exported variables contain every exported variable bash reports at their end with its exact value, and keep the others; before completion they are unchanged. The result does not depend on how bash's report is cut into reads, on the order of the report, or on whether functions are defined, and a report that could not be read to the end never counts as success.",
 [S, I, F], "all variable sets and values, all ways the report is cut into reads, a bash that fails or is killed at any point",
 "one test imports one variable with a plain value",
 ["pieshell/pipeline/builtins.py"],
 [("report over an argument pipe", "pieshell/pipeline/builtins.py BashSource._run"), ("parsing", "pieshell/pipeline/builtins.py parse_declares")],
 [], ["env._exports before and after"])

prop("C21", "A slow or stuck pipeline never stalls the others",
 "Work of other pipelines and tasks on the same event loop proceeds while one pipeline's reader is slow, stopped or stuck, whatever amount of data is waiting for it: the shell itself never blocks on that pipeline. Pipelines with Python stages on both sides of slow programs make progress whenever the programs do, so they never deadlock on full pipes.",
 [S, I, F], "all reader speeds, stops and amounts of pending data, all pipe capacities, all mixes of concurrent pipelines",
 "tests have no slow reader and run one pipeline at a time",
 ["pieshell/iterio.py", "pieshell/pipeline/function.py"],
 [("writability-driven output", "pieshell/iterio.py OutputHandler"), ("readability-driven input", "pieshell/iterio.py InputHandler")],
 [], ["longest gap between two turns of an unrelated task", "completion of unrelated pipelines"])

prop("C22", "Ctrl-C interrupts the foreground pipeline and leaves the shell usable",
 "If the user interrupts while a pipeline runs in the foreground, the caller gets the pipeline-interrupted error carrying that running pipeline, whether or not its programs die of the interrupt. The shell stays usable: the interrupted pipeline (its Python stages included) is still followed to its end, no program is run that the pipeline does not consist of, and pipelines run afterwards give correct results.",
 [S, F], "all moments of the interrupt during the wait, also while Python code of the pipeline runs or the pipeline is just ending, all reactions of the programs, all later pipelines",
 "no test interrupts anything",
 ["pieshell/pipeline/base.py", "pieshell/pipeline/running.py"],
 [("foreground run", "pieshell/pipeline/base.py run_interactive"), ("wait", "pieshell/pipeline/running.py RunningPipeline.wait")],
 [], ["exception class and its pipeline", "results of later pipelines"])

prop("C23", "The job list contains exactly the pipelines that are running",
 "At every moment the event loop is idle, an environment's list of running pipelines holds each pipeline started in it that has not ended yet, in start order, exactly once, and no pipeline that has ended, however it ended. The last-pipeline entry is the one started last.",
 [S, H, F], "all sequences of starts and ends of pipelines, however they end",
 "no test looks at the list",
 ["pieshell/pipeline/base.py", "pieshell/pipeline/running.py", "pieshell/environ.py"],
 [("registration", "pieshell/pipeline/base.py Pipeline.run"), ("removal", "pieshell/pipeline/running.py RunningPipeline.handle_finish")],
 [("running_pipelines", "jobs of an environment", "pieshell/environ.py")], ["env.running_pipelines", "env.last_pipeline"])

prop("C24", "A pipeline that cannot be started fails cleanly",
 "If a pipeline cannot be started because the system refuses a resource part-way (no process, no descriptor, no temporary file), the caller gets that error, the parts already started are not left blocked on pipes nobody serves, no descriptor or temporary file is left behind, and pipelines run afterwards are unaffected.",
 [F, S, C], "all pipelines, a refusal at any one of the resource requests made while starting them",
 "tests never run out of anything",
 ["pieshell/pipeline/base.py", "pieshell/pipeline/command.py", "pieshell/pipeline/pipe.py", "pieshell/redir.py"],
 [("start of a pipeline", "pieshell/pipeline/base.py Pipeline.run"), ("resource requests", "pieshell/redir.py make_pipe, pieshell/pipeline/command.py Command._run")],
 [], ["exception at the caller", "descriptor table", "temporary directory", "process table"])

prop("C25", "Foreground and background commands control the pipeline they are given",
 "The bg command continues the given (or last) suspended pipeline without waiting, and the fg command continues it and ends when it ends, failing (with an error that can be shown) exactly if it fails and getting suspended exactly if it is suspended again. The pipeline itself gives the same results as if it had never been suspended.",
 [S, H, F], "all sequences of suspend, bg, fg over pipelines that succeed, fail or are suspended again",
 "no test uses bg or fg",
 ["pieshell/pipeline/builtins.py", "pieshell/pipeline/running.py"],
 [("bg/fg", "pieshell/pipeline/builtins.py BgBuiltin, FgBuiltin, RunnningFg")],
 [], ["return/exception of fg", "process states"])

prop("C26", "Breaking off the reading of a pipeline releases it",
 "If the caller that reads a pipeline's output as it runs (iterating over it, taking its bytes or its text) stops before the end - it leaves the loop and lets go of the iterator, meets text that cannot be decoded, or is interrupted by Ctrl-C - the shell lets go of its end of the output: the descriptor is released, programs that write on get a broken pipe instead of being blocked for ever, and the pipeline is followed to its end and leaves the job list. What was read until then is right, and the pipelines run at the same time or afterwards are unaffected.",
 [S, H, F], "all pipelines, finite or endless, all moments and ways of breaking off, all schedules",
 "tests that iterate read to the end",
 ["pieshell/pipeline/base.py", "pieshell/iterio.py", "pieshell/utils/asyncutils.py"],
 [("synchronous iteration", "pieshell/pipeline/base.py Pipeline.__iter__, pieshell/utils/asyncutils.py asyncitertoiter"),
  ("release", "pieshell/iterio.py InputHandler.destroy")],
 [], ["descriptor table", "process table", "job list", "lines obtained"])

prop("C27", "What a running pipeline tells about its parts is true",
 "Once the event loop has handled what has happened, a running pipeline lists every process and Python function it was started with exactly once, each with the part of the pipeline it belongs to and its process id. A part counts as running exactly if it has not ended; the last event of a process is the last change of its state (ended with a status, killed by a signal with or without core, stopped, continued), whoever caused it; its exit code is None until it has ended and then that status. Looking at all this starts nothing.",
 [S, H, F], "all histories of parts being stopped, continued, killed and ending, by the shell or from outside, all schedules and merged notifications, reused process ids",
 "tests look at pipelines only after they have ended well",
 ["pieshell/pipeline/running.py", "pieshell/signalio/__init__.py", "pieshell/signalio/signalutils.py", "README.md"],
 [("items", "pieshell/pipeline/running.py RunningItem, RunningProcess, RunningFunction"),
  ("events", "pieshell/signalio/__init__.py ProcessSignalHandler"), ("decoding", "pieshell/signalio/signalutils.py get_sigchlds")],
 [("last_event", "last change of state of a process", "pieshell/signalio/__init__.py")],
 ["RunningPipeline.processes, failed_processes, running_processes", "is_running, is_failed, exit_code, pid, cmd, iohandler.last_event of items"])

prop("C28", "Showing a pipeline runs it once at a prompt, and never anywhere else",
 "Showing a pipeline that has not been run, in an interactive environment, runs it in the foreground exactly once and shows nothing but its output; showing it again runs it again. The function repr() only describes it. Showing anything else - a pipeline of an environment that is not interactive, a running or ended pipeline, the pipeline and commands it consists of, its items, the job list, the last pipeline, an error - runs nothing, changes nothing, and gives a text, whatever is in progress.",
 [S, H, F], "all pipelines and builtins, all histories and moments of showing, failing, interrupted and suspended ones included",
 "two tests show pipelines of an environment that is not interactive",
 ["pieshell/pipeline/base.py", "pieshell/pipeline/running.py", "pieshell/pipeline/builtins.py"],
 [("showing", "pieshell/pipeline/base.py Pipeline.__repr__"), ("errors", "pieshell/pipeline/running.py PipelineError.__str__")],
 [("_started", "has been run", "pieshell/pipeline/base.py")],
 ["programs executed", "directory, variables, job list, last pipeline and descriptors before and after", "text"])

prop("C29", "A redirection to PIPE hands exactly one end of a new pipe to the caller",
 "For every part that starts with a redirection to PIPE - any descriptor, for reading or writing, several at once, given to a command, a function, a group or to run() - a new pipe is made, shared by the members of a group and by nobody else. Its one end is that descriptor of the part, its other is a descriptor of the shell, found at the redirect's pipe attribute, open, and left for the caller to close. What is written to one end is read from the other, unchanged; the reader sees the end of it as soon as every writer is gone, and a writer fails as soon as every reader is.",
 [S, H, F], "all pipelines and combinations of redirections, all programs and callers reading, writing, stalling and closing at any moment, other pipelines running meanwhile",
 "the tests use PIPE through the shell's own reading of output only",
 ["pieshell/redir.py", "pieshell/pipeline/group.py", "pieshell/pipeline/command.py", "pieshell/pipeline/function.py"],
 [("making pipes", "pieshell/redir.py Redirect.make_pipe"), ("groups", "pieshell/pipeline/group.py Group._run")],
 [("redirects.<fd>.pipe", "the caller's end", "pieshell/redir.py")],
 ["bytes read and written at both ends", "ends of file", "descriptors of every program and of the shell"])

prop("C32", "A pipeline given to a remote shell runs there as it would here",
 "The remote builtin starts ssh with the given arguments and a command from which the remote shell recreates exactly the given pipeline: its commands, arguments, options, lists of items, redirections, and their environments' directories and exported variables. What the ssh process reads and writes is that pipeline's standard input and output, and it fails exactly if the pipeline fails there. None of this depends on what else its environments run at the moment or have run before.",
 [S, H, I], "all pipelines without live Python objects, all histories of the environments they belong to, all schedules of both shells",
 "nothing is pickled and no remote shell is run in the tests",
 ["pieshell/pipeline/base.py", "pieshell/pipeline/builtins.py", "pieshell/environ.py", "pieshell/redir.py"],
 [("sending", "pieshell/pipeline/builtins.py Remote"), ("state of environments", "pieshell/environ.py Environment.__getstate__"),
  ("reducer", "pieshell/pipeline/base.py describable_object_reduce")],
 [], ["arguments of ssh", "environment, directory, arguments and connections of every program at the other end", "wait statuses of both shells"])

# -- listed, not decidable by this family -------------------------------------------------
prop("C30", "Argument expansion follows the documented rules",
 "Every string argument is expanded by variable substitution, home-directory expansion and file name matching relative to the environment's directory, in that order, unless protected; option dictionaries become --name=value, --name or nothing.",
 [I], "all argument strings, option dictionaries, variable sets and directory contents",
 "one test expands one pattern", ["pieshell/environ.py", "pieshell/pipeline/command.py"],
 [("expansion", "pieshell/environ.py Environment._expand_argument"), ("argument list", "pieshell/pipeline/command.py BaseCommand._arg_list")])
prop("C31", "Names in shell scope resolve to locals, exports, builtins, then commands",
 "Looking up a name in a shell scope gives the local variable, else the exported variable, else the enclosing or Python builtin name, else a command of that name; assigning to the name of an exported variable updates the export and any other name makes a local.",
 [I, H], "all names and assignment histories", "two tests with three names",
 ["pieshell/environ.py"], [("scope lookup", "pieshell/environ.py EnvScope")])
prop("C33", "Items of a running pipeline are found under their command names",
 "Each process or function of a running pipeline is reachable as an attribute named after its command, items of the same name being grouped under further distinguishing names; none is unreachable and none appears twice.",
 [I], "all sets of command names", "one test looks up one name",
 ["pieshell/tree.py", "pieshell/pipeline/running.py", "pieshell/ps.py"], [("grouping", "pieshell/tree.py TreeGroup")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
