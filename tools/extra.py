# Properties that deterministic simulation cannot decide, and per-check notes.
LEVEL = {}
prop("C25", "Completer trees and rune width helpers compute the documented functions",
 "PrefixCompleter and SegmentComplete return exactly the candidates their tree or segment function defines for a line and position, and the rune helpers compute documented widths, prefixes and searches, for every argument.",
 ["inputs"], "all arguments of the pure helper functions",
 "Tests sample a few arguments.",
 ["complete_helper.go", "complete_segment.go", "runes.go", "runes/runes.go"],
 [("pure functions", "complete_helper.go doInternal, complete_segment.go RetSegment, runes.go")])
NA["C25"] = "Pure sequential functions: no scheduling, time, I/O, fault or second party for a simulator to control; their effect on the editor is covered through C14 and C16."
prop("C26", "Windows console support matches the Unix behaviour",
 "On Windows the console reader delivers the same keys, and the ANSI writer draws the same screen, as the Unix implementation.",
 ["inputs", "schedules", "configurations"], "all console events and output sequences",
 "Windows-only files are never built or run here.",
 ["rawreader_windows.go", "ansi_windows.go", "windows_api.go", "term_windows.go", "utils_windows.go", "std_windows.go"],
 [("console reader and ANSI translation", "rawreader_windows.go, ansi_windows.go")])
NA["C26"] = "The Windows files build only for GOOS=windows against kernel32 console calls; the simulator runs the Linux build and no Windows console or API model is available to replace the callee."
