#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json: python3 tools/props.py"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
CLAIMED = open(os.path.join(HERE, "tools/claimed.txt")).read().split()
NA = {}

def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

WHY = "The existing tests only exercise pure helpers and one create/close race; none of them types a key, so "

prop("C01", "Every typed line is returned exactly once, whole and in order",
 "Whatever printable text is typed, each line ended by Enter or Ctrl-J is returned by exactly one Readline call, in typing order, character for character, with nothing lost, duplicated, merged or reordered. This holds however the bytes arrive, however long a line is relative to the window, and whatever else happens meanwhile (concurrent output through Stdout(), window resizes, interrupted reads, typing ahead of the next Readline call).",
 ["inputs", "schedules", "fault_sequences", "configurations"], "all texts, chunkings of the byte stream, schedules of the reader, editor and caller, EINTR and short reads, widths and prompts",
 WHY + "no input/chunking/schedule is sampled at all; the property needs every one.",
 ["terminal.go", "operation.go", "runebuf.go", "std.go", "readline.go"],
 [("terminal reader loop and kick channel", "terminal.go Terminal.ioloop/KickRead"), ("editor loop", "operation.go Operation.ioloop"), ("cancelable and fillable stdin hand-off", "std.go")],
 observe=["results of Readline()"])

prop("C02", "Editing keys change the line exactly as documented",
 "For every sequence of editing keys (movement, deletion, cut and yank, transpose, word commands, in every key encoding the terminal sends), the line and cursor seen by a Listener after each key, and the line finally returned, are those of a reference editor that applies each documented key to the text and cursor one at a time. Words are runs of ASCII letters and digits; the cut commands (Ctrl-K, Ctrl-U, Ctrl-W, Meta-Backspace, Meta-D, Delete) fill the buffer that Ctrl-Y inserts.",
 ["inputs", "schedules", "configurations"], "all key sequences over all texts, all chunkings of escape sequences, all schedules",
 WHY + "key sequences, of which there are unboundedly many, are not sampled.",
 ["runebuf.go", "operation.go", "terminal.go", "utils.go"],
 [("line buffer operations", "runebuf.go RuneBuffer"), ("key dispatch", "operation.go Operation.ioloop"), ("escape decoding", "terminal.go, utils.go escapeExKey/escapeKey/escapeSS3Key")],
 observe=["Listener.OnChange", "results of Readline()"])

prop("C03", "End of input is reported as io.EOF after everything typed was delivered",
 "When the input ends, every complete line typed before is still returned, an unfinished non-empty line is returned once as a line, and then Readline returns io.EOF; every later Readline call returns io.EOF too and never hangs. Ctrl-D on an empty line makes that call return io.EOF without ending the session, and on a non-empty line it deletes a character and never reports EOF.",
 ["inputs", "schedules", "fault_sequences"], "all positions of the end of input (also inside an escape sequence or UTF-8 character) or of a read error relative to keys and calls, all schedules, any number of calls afterwards",
 WHY + "the end of the stream at each point of each schedule is not sampled.",
 ["terminal.go", "operation.go", "std.go"],
 [("end of stream becomes rune 0", "terminal.go ReadRune/ioloop"), ("EOF and Ctrl-D handling", "operation.go ioloop"), ("closed state", "operation.go Runes")],
 observe=["results of Readline()"])

prop("C04", "Ctrl-C aborts one line, returns its text, and leaves the editor usable",
 "Ctrl-C during editing makes exactly that Readline call return ErrInterrupt together with the text typed so far; nothing of it appears in later lines, in the recallable history or in the history file, and the next Readline starts empty and works normally. In search or completion mode Ctrl-C only leaves the mode.",
 ["inputs", "schedules", "histories"], "all keys before and after, any number of interrupts, all schedules, with search or completion in progress",
 WHY + "no interrupt is ever delivered.",
 ["operation.go", "history.go", "search.go", "complete.go"],
 [("interrupt branch", "operation.go ioloop CharInterrupt"), ("history revert", "history.go Revert")],
 observe=["results of Readline()", "history file", "recall keys"])

prop("C05", "Close at any moment returns, wakes the pending call and loses nothing",
 "Close may be called from any goroutine at any moment, any number of times, and always returns within bounded time without panicking (after CaptureExitSignal, SIGINT and SIGTERM do the same); a Readline or password call in progress then returns promptly (io.EOF, or the line whose Enter was already processed), and every later call returns io.EOF. After Close has returned the terminal is in the mode it had before and, once pending calls have returned, no library goroutine starts another read of the input; opening and closing further instances leaves no further goroutines.",
 ["schedules", "inputs", "fault_sequences"], "all instants of Close relative to keys, output, resizes, Ctrl-Z stops and other Close calls; all schedules",
 "TestRace closes one instance at one moment under the real scheduler; the other instants and schedules are not reached.",
 ["readline.go", "operation.go", "terminal.go", "std.go"],
 [("close order", "readline.go Instance.Close"), ("stop channels", "terminal.go Close, std.go CancelableStdin.Close"), ("EOF to the pending call", "operation.go Close")],
 observe=["return of Close and Readline", "terminal mode", "live goroutines"])

prop("C06", "The terminal is raw while a line is read and restored on every outcome",
 "Every character is processed while the terminal is in raw no-echo mode, and whenever a Readline or password call has returned, with a line, interrupt, EOF, because of Close, or after a Ctrl-Z stop and resume, every terminal setting is back to exactly what it was before the first call. Mode-switch failures of one call do not corrupt the settings restored by later calls.",
 ["inputs", "schedules", "fault_sequences"], "all keys, outcomes, instants of Close and Ctrl-Z, terminal ioctl failures",
 WHY + "terminal modes are never looked at.",
 ["utils.go", "term.go", "operation.go", "terminal.go"],
 [("raw mode save and restore", "utils.go RawMode, term.go MakeRaw/Restore"), ("enter/exit around a read", "operation.go Runes"), ("suspend", "terminal.go SleepToResume")],
 observe=["termios of the simulated terminal"])

prop("C07", "Ctrl-Z stops the process in the original mode and editing resumes intact",
 "Ctrl-Z restores the original terminal mode, stops the process once, and after it is continued the same line is shown again and the same line, cursor and history position are edited on in raw mode, no key typed before or after being lost. This also holds when several stops follow each other, whatever the time between stop and continue.",
 ["inputs", "schedules"], "all keys around the stop, all stop durations, all schedules",
 WHY + "job control is never exercised.",
 ["terminal.go", "operation.go", "utils.go", "utils_unix.go"],
 [("suspend and wait for resume", "terminal.go SleepToResume, utils.go WaitForResume, utils_unix.go SuspendMe"), ("redraw", "operation.go ioloop CharCtrlZ")],
 observe=["terminal mode at the stop", "results of Readline()"])

prop("C08", "The history file holds exactly the submitted lines and is reloaded in order",
 "With a history file, every submitted non-empty line that differs from the one before it is in the file by the time the call returns, in order, one per line, character for character; interrupted, empty and password lines never are. A new session on the file recalls the newest HistoryLimit lines (surrounding blanks trimmed, blank lines skipped) in order and, if the file had more, cuts it to them; SaveHistory adds its argument in the same way, whatever is being edited.",
 ["histories", "inputs", "configurations", "schedules"], "all sequences of sessions, lines, recalls, saves, limits, enable/disable and path changes",
 WHY + "no history file is ever written or read.",
 ["history.go", "operation.go", "readline.go"],
 [("append on submit", "history.go New/Update"), ("load and cut", "history.go historyUpdatePath/Compact/rewriteLocked")],
 state=[("history list", "entries plus the line being edited", "history.go opHistory.history")],
 observe=["history file bytes", "recall keys in the next session"])

prop("C09", "No crash or disk error destroys saved history",
 "If the process dies at any instant, every line whose call had returned is intact in the file found by the next session, followed at most by one torn last line; the cut performed at start-up leaves either the old or the new file complete. Disk errors (full disk, I/O errors, failing open or rename) never lose or damage lines already saved, never crash the editor, and leave Readline working.",
 ["crash_points", "fault_sequences", "histories"], "all crash points at and inside each file operation, all placements of disk errors, then a restart",
 WHY + "no crash or disk error is injected.",
 ["history.go"],
 [("append only writes", "history.go Update"), ("temporary file and rename", "history.go rewriteLocked")],
 observe=["history file after restart", "results of Readline()"])

prop("C10", "Up and Down walk the history exactly, keeping edits until the line is submitted",
 "Up and Down show each recorded entry once, newest first, in order, never wrap, and come back to the line being typed; edits made to recalled entries are kept while moving about and dropped once a line is submitted or interrupted. The submitted text is exactly what is returned and what is recorded, even when it came from an edited older entry; empty lines and immediate repeats are not recorded; at most HistoryLimit entries are kept, the newest. The entries of a history file that can be opened only later come before those of the session.",
 ["histories", "inputs", "schedules", "configurations"], "all interleavings of typing, recall, submit and interrupt, all limits and initial histories",
 WHY + "history navigation is never exercised.",
 ["history.go", "operation.go"],
 [("list with working copies per entry", "history.go Prev/Next/Update/New/Revert/Compact")],
 observe=["results of Readline()", "Listener.OnChange"])

prop("C11", "Incremental search finds what it should and cancelling restores the line",
 "Ctrl-R and Ctrl-S followed by text select the nearest entry containing the text in that direction (ignoring ASCII case if configured), repeated presses move to the next match, Backspace shortens the pattern, a failed search leaves the line alone, and any other key accepts the line and then acts on it. Ctrl-G or Ctrl-C leaves search and puts back the history position and text from before the search; searching never alters the stored entries.",
 ["histories", "inputs", "schedules"], "all histories, patterns, search key sequences and continuations",
 WHY + "search is never exercised.",
 ["search.go", "history.go", "operation.go"],
 [("search state", "search.go opSearch"), ("matching", "history.go FindBck/FindFwd, runes.go IndexAllEx/IndexAllBckEx")],
 observe=["results of Readline()", "Listener.OnChange"])

prop("C12", "A password is never shown or stored, and normal reading resumes unchanged",
 "Characters typed at a password prompt never appear on the terminal (not even their width if no mask is set; with a mask only the mask character), never enter the history or the history file, and are returned exactly as typed. After the password call returns, by Enter, Ctrl-C, Ctrl-D, end of input or Close, prompt, echo, history, completion and configuration are as before.",
 ["inputs", "schedules", "fault_sequences"], "all passwords and editing keys, all outcomes, concurrent output and resizes, all schedules",
 WHY + "passwords are never read.",
 ["password.go", "operation.go", "runebuf.go", "history.go"],
 [("configuration swap", "password.go, operation.go SetConfig"), ("masked output", "runebuf.go output")],
 observe=["every byte written to the terminal", "history file", "results"])

prop("C13", "Output written while a line is edited is complete, in order and never lost",
 "Every byte written through the instance's Stdout() or Stderr(), at any instant during, between, at the start and end of and after calls, reaches the stream configured for it exactly once, in write order per writer and each write contiguous, and each call reports the full length; text ending in a newline remains visible above the prompt, the line being edited is redrawn after it and returned unchanged, and nothing else is drawn: no prompt without a call, no line drawn over.",
 ["schedules", "inputs"], "all numbers of writers, sizes and instants relative to keys and calls",
 WHY + "concurrent output is never produced.",
 ["operation.go", "runebuf.go"],
 [("wrapped writer", "operation.go wrapWriter"), ("redraw lock", "runebuf.go Refresh")],
 observe=["bytes written to the terminal", "screen of the terminal emulator"])

prop("C14", "At rest the screen shows prompt, line and cursor exactly",
 "Whenever all typed keys have been processed, the terminal shows the prompt followed by the current line (masked or painted as configured), wrapped at the window width, the cursor on the current position and nothing else left over from earlier states of the line (below it the search line, which says whether the search failed, or the completion menu, if open); previously submitted lines remain above as typed. Clean takes prompt and line away until Refresh or output brings them back; a line set by SetBuffer replaces the one being edited, with the cursor at its end. A resize that happens while the instance is being made counts as well as any later one. Not claimed: what a resize does to a line already taking several rows, and lines or menus taller than the window.",
 ["inputs", "schedules", "configurations"], "all texts including wide characters, prompts, window widths and editing keys",
 WHY + "nothing is ever drawn on a terminal.",
 ["runebuf.go", "operation.go", "utils.go", "runes.go"],
 [("clean and redraw", "runebuf.go clean/output/getBackspaceSequence"), ("width arithmetic", "runes.go Width, utils.go SplitByLine")],
 observe=["screen and cursor of the terminal emulator"])

prop("C15", "Prefilled text starts the next line, once and ahead of typed keys",
 "Text given to WriteStdin before a Readline call, or to ReadlineWithDefault, is the editable beginning of that next line, exactly once, whole, and ahead of any key the user types afterwards, whatever its length (for WriteStdin: any key not read yet); Readline calls that follow start empty.",
 ["inputs", "schedules"], "all texts and lengths (also longer than internal buffers), all schedules, any mix with typed keys",
 WHY + "no prefilled text is used.",
 ["std.go", "readline.go", "operation.go", "terminal.go"],
 [("fillable stdin", "std.go FillableStdin"), ("default text", "readline.go ReadlineWithDefault")],
 observe=["results of Readline()"])

prop("C16", "Completion inserts exactly what the completer offered and was chosen",
 "Tab asks the completer with the exact line and cursor; a single candidate or the common prefix of all is inserted at the cursor, otherwise a menu opens, a second Tab enters selection, and the movement keys select the candidate a grid of the window's width implies; Enter inserts the selected one, any other key leaves the selection without inserting. Candidates the completer returned are never modified, and the rest of the line never changes.",
 ["inputs", "schedules", "configurations"], "all completers, lines, cursor positions, widths and key sequences in and out of the menu",
 "Two tests cover the candidate computation of one completer; the editor side is never run.",
 ["complete.go", "operation.go", "complete_helper.go", "complete_segment.go"],
 [("completion state machine", "complete.go OnComplete/HandleCompleteSelect"), ("common prefix", "runes.go Aggregate")],
 observe=["results of Readline()", "Listener.OnChange", "arguments of the completer"])

prop("C17", "No input, size, prompt or schedule makes the editor crash or hang",
 "No sequence of bytes (invalid UTF-8, control characters, truncated or absurd escape sequences), no window width from 1 up or unknown, no prompt, mask, completer result, concurrent output, failing or short terminal write, no line set meanwhile from another goroutine (SetBuffer), and no schedule makes the library panic, spin or stop responding: after the bytes, cancelling modes and pressing Enter or Ctrl-C still ends the current call and typed text still works.",
 ["inputs", "schedules", "configurations", "fault_sequences"], "all byte strings, sizes, prompts, configurations, resize instants and schedules",
 WHY + "hostile input is never given.",
 ["terminal.go", "operation.go", "runebuf.go", "complete.go", "search.go", "vim.go", "utils.go", "runes.go"],
 [("decoding", "terminal.go ioloop, utils.go readEscKey"), ("drawing arithmetic", "runebuf.go, utils.go LineCount/SplitByLine, runes.go ColorFilter")],
 observe=["panics", "bounded progress"])

prop("C18", "A remote session reads exactly like a local one",
 "Over a connection of any latency and fragmentation, the lines a remote instance returns are exactly those typed at the client, in order and whole, all output written by the server appears at the client once and in order, the client's terminal is raw exactly while the server is reading, and the width the server uses is, whenever nothing is under way, that of the client's terminal (-1 when it has none), from the first moment of the client on.",
 ["inputs", "schedules", "fault_sequences"], "all byte streams, message fragmentations, delays, resizes and schedules on both sides",
 WHY + "no connection is ever made.",
 ["remote.go"],
 [("message framing", "remote.go Message/ReadMessage"), ("server buffers", "remote.go RemoteSvr.readLoop/Read/Write"), ("client", "remote.go RemoteCli")],
 observe=["results of Readline() on the server", "client terminal"])

prop("C19", "Disconnects and closes of a remote session end both sides promptly",
 "When the client ends its input, closes, dies or the connection breaks at any instant, the server's pending Readline returns io.EOF after delivering what arrived, later calls and writes return errors instead of blocking, and Close returns; when the server side closes, the client's serve call returns with its terminal restored. A listener keeps serving other clients, and ended sessions leave no goroutine on the server.",
 ["schedules", "fault_sequences", "crash_points"], "all instants and kinds of disconnect on either side, all schedules",
 WHY + "no connection is ever made.",
 ["remote.go", "terminal.go", "operation.go"],
 [("shutdown", "remote.go RemoteSvr.Close/readLoop/writeLoop, RemoteCli.ServeBy")],
 observe=["return of Readline, Write, Close, Serve", "client terminal mode"])

prop("C20", "A malformed or hostile remote peer is only ever disconnected",
 "Whatever bytes a peer sends (wrong first messages, negative, tiny, huge or truncated lengths, unknown types, short payloads), the receiving side never panics nor allocates memory for data it has not received: it returns an error or ends that session, well-formed data before the damage is still delivered, and other sessions are unaffected.",
 ["inputs", "fault_sequences", "schedules"], "all byte streams from the peer, in both directions",
 WHY + "no connection is ever made.",
 ["remote.go"],
 [("message parsing", "remote.go ReadMessage, RemoteSvr.init/GotIsTerminal/GotReportWidth")],
 observe=["panics", "results of HandleConn, Readline and Serve"])

prop("C21", "A cancelable input passes bytes through and unblocks on Close",
 "A CancelableStdin returns the bytes of its source in order, without loss or duplication, with the source's errors; Close makes a blocked Read and every later Read return io.EOF at once, may be called any number of times from any goroutine, and never panics or blocks; once its source lets go of a read begun earlier nothing of it runs on, and the buffer of a Read that Close ended is not written to any more. A FillableStdin returns everything written to its writer ahead of, and in addition to, the bytes of its source, whatever buffer sizes are used, and its Close closes a source that can be closed.",
 ["schedules", "inputs", "fault_sequences"], "all chunkings, buffer sizes, source errors, instants of Close and writes, numbers of readers",
 WHY + "these readers are only constructed.",
 ["std.go"],
 [("hand-off goroutine", "std.go CancelableStdin"), ("prefill buffer", "std.go FillableStdin")],
 observe=["results of Read and Close"])

prop("C22", "Callbacks see every key once and configuration changes take effect in order",
 "The Listener is called with (nil, 0, 0) when a read starts and then exactly once for every key the editor itself acts on (not for keys that vi commands, a menu selection or a search consume), with the line, cursor and key after it and before the next key is handled; what it returns replaces line and cursor, and the slice it returned is not modified. The input filter sees every decoded key exactly once, in order, before the editor, and what it answers is what is edited (filters that turn ordinary keys into keys that end a call are outside). The painter sees the line and can only change its display. SetConfig, SetPrompt, SetVimMode, SetMaskRune and Refresh, between or during calls, never lose or change typed text, take effect for the keys after them, and SetConfig returns the previous configuration with what belongs to it (history, mode) intact for when it is set again.",
 ["inputs", "schedules", "configurations"], "all keys, callback answers and instants of reconfiguration",
 WHY + "no callback or reconfiguration is exercised.",
 ["operation.go", "readline.go", "runebuf.go"],
 [("listener and filter", "operation.go ioloop"), ("SetConfig", "operation.go SetConfig")],
 observe=["callback arguments", "results of Readline()"])

prop("C23", "Vi mode edits exactly as its command set says and never traps the user",
 "With VimMode the editor starts in insert mode, Esc enters normal mode, and every supported command (h j k l 0 ^ $ x r d c f F t T p b w e i I a A s S with their operands) changes line, cursor and mode as a reference vi line editor does; unsupported commands change nothing. Enter and Ctrl-C always end the line, and after any sequence of keys Enter still does.",
 ["inputs", "schedules"], "all key sequences in both vi modes and all schedules",
 WHY + "vi mode is never exercised.",
 ["vim.go", "operation.go", "runebuf.go", "terminal.go"],
 [("vi command dispatch", "vim.go HandleVim")],
 observe=["results of Readline()"])

prop("C24", "The package-level functions behave as one instance created on first use",
 "Line, Password, AddHistory, SetHistoryPath and SetAutoComplete, called in any order, act on one shared instance created by the first of them: lines are returned as typed, history is recorded and persisted only through AddHistory and to the path set last, and earlier entries are kept in the files they were saved to.",
 ["histories", "inputs", "schedules"], "all orders of calls and typed lines",
 WHY + "the package-level functions are never called.",
 ["std.go", "readline.go", "operation.go", "history.go"],
 [("lazy instance", "std.go getInstance"), ("configuration clones", "std.go SetHistoryPath/SetAutoComplete")],
 observe=["results of Line", "history files"])

prop("C27", "Terminal mode functions restore exactly, and ReadPassword(fd) never echoes",
 "On a terminal in any initial mode: IsTerminal tells whether it is one, GetState and GetSize only look, MakeRaw switches to raw mode and Restore goes back to exactly the state that was taken, and ReadPassword returns one line of any length without its newline and without echo, with Enter ending the line and Ctrl-C working whatever mode the terminal was in (io.EOF at the end of the input), leaving the modes as they were on every outcome. A failing system call is reported and changes nothing else.",
 ["inputs", "histories", "fault_sequences"], "all orders of calls, initial modes, typed lines and failing system calls",
 WHY + "no terminal is ever switched.",
 ["term.go", "term_linux.go", "term_unix.go"],
 [("mode switches", "term.go MakeRaw/restoreTerm/ReadPassword")],
 observe=["terminal modes", "results"])

prop("C28", "Asking the terminal for its cursor position disturbs nothing that is typed",
 "GetOffset, called from any task, any number of times and at any moment while lines are read, calls each function exactly once with what the terminal answered to it and never with an answer given to nobody; however the answers are fragmented and wherever they land among the keys, the lines returned, the Listener's events and the screen are those of a session without questions.",
 ["inputs", "schedules", "histories"], "all keys, moments, numbers of questions and fragmentations of the answers",
 WHY + "no terminal ever answers.",
 ["terminal.go", "utils.go"],
 [("question and answer", "terminal.go GetOffset/ioloop"), ("escape sequences", "utils.go readEscKey/escapeExKey")],
 observe=["arguments of the functions", "results of Readline()", "terminal screen"])

exec(open(os.path.join(HERE, "tools/extra.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")

checks = []
for p in P:
    if p["id"] in CLAIMED:
        checks.append({"property": p["id"], "quick_cmd": "./check.sh %s quick" % p["id"], "thorough_cmd": "./check.sh %s thorough" % p["id"],
          "technique": "deterministic simulation with fault injection: seeded search over schedules, inputs and faults of the real package, judged by a reference model / invariants",
          "level": "exploration", "level_note": LEVEL.get(p["id"], "Seeded random search over simulated executions of the real code; bounded by the run time, not exhaustive.")})
na = [{"property": p["id"], "reason": NA.get(p["id"], "Check not built yet.")} for p in P if p["id"] not in CLAIMED]
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na}, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
