#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (one JSON object per line) from the table below."""
import json, os

P = []

def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            **({"state": [{"name": n, "meaning": m} for n, m in state]} if state else {}),
            **({"observe_at": list(observe)} if observe else {}),
        },
    })

PROG = "tea/internal/application/program/program.go"

# ---------------------------------------------------------------- tea
prop("C01", "Quitting always ends the program",
     "Once a program that is running is asked to end - by the quit command its model returns, by Quit, or by Stop - its event loop ends: Run returns, IsRunning becomes false and no further Update happens, for every interleaving of that request with messages, commands, keyboard input, suspension and a busy Update. A program never blocks itself: whatever a model, its commands, Send and the input produce, the loop keeps handling messages until it is asked to end. A program that is not running ignores Quit and Stop, and Send on it reports an error; neither those nor what a command of an earlier run still returns reaches or ends a later run.",
     ["schedules", "programs"],
     "all interleavings (up to a delay bound) of the event loop, the input goroutine, command goroutines and outside callers of Quit/Stop/Send, for a family of small models",
     "tests run one schedule and sleep; a quit request that arrives while Update is running, or is swallowed by another goroutine, never happens in them",
     [PROG, "tea/tea.go"], [("quit channel and event loop select", PROG), ("Stop handshake", PROG)],
     [("running flag", "whether an event loop is active"), ("quit signal", "a request to end not yet seen by the loop")], ["Run/Start return", "IsRunning", "Update calls"])
prop("C02", "The terminal is restored however the program ends",
     "However a run ends - normally, by an error of any terminal operation during start-up, or by a panic in Init, Update or View that leaves Run - every terminal mode that the program entered (raw mode, alternate screen, hidden cursor, also when entered again by a suspend/resume cycle) has been left again when Run returns or panics. Nothing is undone that was not entered, and each mode is left exactly once.",
     ["fault_sequences", "crash_points", "configurations"],
     "every terminal operation failing at every call index, every callback panicking at every call, every option combination, with and without suspend/resume cycles before the end",
     "tests use a terminal that never fails and models that never panic; they cannot enumerate which of the calls fails",
     [PROG, "tea/tea.go"], [("deferred restore in Run", PROG), ("option handling", "tea/internal/application/program/options.go")],
     [("raw/alt-screen/cursor state", "modes of the terminal owned by the program")], ["terminal operations called"])
prop("C03", "Every message reaches Update exactly once and in order",
     "Every message accepted by Send on a running program, and every key typed, is passed to Update unchanged and exactly once unless the program ends first; messages of one sender arrive in the order sent; Update and View calls never overlap, each Update gets the model the previous one returned, Init runs before the first Update, and after the last Update before the program goes idle the view of that model is what was last rendered, also when the program runs again after others have written to the terminal.",
     ["schedules", "histories"],
     "all interleavings (up to a delay bound) of several senders, input and commands with the event loop",
     "unit tests observe one schedule with sleeps; loss, reordering or overlap shows only in particular interleavings",
     [PROG], [("message channel", PROG), ("event loop", PROG)],
     [("message queue", "messages accepted but not yet given to Update")], ["Update arguments", "View output"])
prop("C04", "Commands run exactly once; Batch runs all, Sequence keeps its order",
     "Every command returned by Init or Update is run exactly once, off the event loop, and the message it produces is delivered to Update exactly once (a command or a result that is absent delivers nothing). Batch runs every one of its commands and delivers every result; Sequence delivers its results in the order of its commands and does not start a command before the previous one has finished; this holds for any nesting of the two and for any number of results.",
     ["schedules", "programs"],
     "all nestings of Batch/Sequence/plain/nil/quit commands up to a depth, under all schedules up to a delay bound",
     "tests sample two or three flat shapes and one schedule",
     ["tea/internal/domain/model/cmd.go", "tea/tea.go", PROG],
     [("command runner goroutine", PROG), ("batch/sequence expansion", "tea/tea.go")],
     [], ["command invocations", "Update arguments"])
prop("C05", "Suspend, Resume and ExecProcess hand the terminal over and back",
     "While the program is suspended or an external process it started is running, the terminal is in normal mode, nothing is rendered and no input is consumed; afterwards the program owns the terminal in the raw and alternate-screen modes it had before, reads all further input and shows the current view; the foreground process group returns to where it was. Suspend and Resume are idempotent and can be repeated, external processes take turns when started concurrently and each gets the terminal until its end, and a failure of a terminal operation or of the process itself is reported and never leaves the program unable to resume.",
     ["schedules", "fault_sequences", "histories"],
     "every sequence of suspend/resume/exec/quit calls up to a length, all schedules up to a delay bound, each terminal operation failing in turn",
     "tests call each once with a terminal that never fails",
     [PROG, "tea/internal/application/program/tty_control_linux.go"],
     [("suspend/resume state machine", PROG), ("exec wrapper", PROG)],
     [("suspended flag", "terminal handed over"), ("raw/alt-screen state", "what to re-enter")], ["terminal operations called", "rendered output", "bytes read"])
prop("C06", "Cancellable input loses, duplicates and reorders no byte",
     "Across any sequence of reads, cancellations and restarts of the program's input reader, the bytes delivered to readers are exactly the bytes of the underlying stream in order, with nothing lost or delivered twice; a cancelled read returns promptly even though the underlying read is still blocked; the end of the input is reported once all bytes before it were delivered.",
     ["schedules", "histories", "inputs"],
     "all interleavings of reader, canceller and restarts, all chunkings of a short stream, every buffer size",
     "tests cancel once with a fixed chunking and large buffers",
     ["tea/internal/infrastructure/input/cancelable_reader.go"],
     [("background relay goroutine and leftover buffer", "tea/internal/infrastructure/input/cancelable_reader.go")],
     [("pending result", "bytes read from the stream but not delivered yet")], ["Read results"])
prop("C07", "Keys are decoded the same however the input is chunked",
     "A byte stream made of printable characters, control keys, UTF-8 characters and the documented escape sequences is decoded to the corresponding sequence of key messages - each key exactly once, in order, none invented - whatever the sizes of the chunks in which the terminal delivers the bytes of different keys.",
     ["inputs", "fault_sequences"],
     "all sequences of keys up to a length over the full key alphabet, all chunkings at key boundaries (and inside multi-byte characters)",
     "tests feed one key at a time in a single chunk; the number of combinations is far beyond a table",
     ["tea/internal/infrastructure/input/reader.go", "tea/internal/infrastructure/ansi/parser.go"],
     [("escape sequence reader", "tea/internal/infrastructure/input/reader.go"), ("sequence table", "tea/internal/infrastructure/ansi/parser.go")],
     [], ["key messages passed to Update"])
prop("C08", "The inline renderer always shows the last view",
     "After any sequence of rendered views, size changes, repaints and clears, a terminal that executed the renderer's output shows exactly the lines of the last view (clipped to the terminal's width and height, wide characters and styled text included), nothing of earlier views, and has not disturbed what stood above the program's area.",
     ["histories", "inputs"],
     "all sequences of views over a small line alphabet, with resizes, executed on a terminal emulator",
     "tests compare escape strings for single transitions; whether the screen is right depends on the history",
     ["tea/internal/infrastructure/renderer/inline.go"],
     [("line diff against previous frame", "tea/internal/infrastructure/renderer/inline.go")],
     [("previous lines", "what is on screen")], ["bytes written, on an emulated terminal"])
# ---------------------------------------------------------------- render
prop("C10", "Differential rendering always yields the buffer on screen",
     "After any sequence of frames - any cell contents, styles and wide characters, with clearing, resizing and cursor operations in between and the cursor anywhere at the start - a terminal that executed everything the renderer wrote shows exactly the last frame: every cell has its character and its style. Rendering an unchanged frame writes nothing, and closing leaves the frame, a visible cursor and the default style.",
     ["histories", "inputs"],
     "all pairs and triples of small frames over a cell alphabet of characters and styles, executed on a terminal emulator",
     "tests check that some output was produced for a handful of frames; correctness depends on the pair of frames and the style/cursor state left by earlier ones",
     ["render/renderer.go", "render/internal/application/renderer.go", "render/internal/domain/service/diff.go", "render/internal/infrastructure/ansi/writer.go"],
     [("diff and span optimisation", "render/internal/domain/service"), ("style/cursor tracking writer", "render/internal/infrastructure/ansi/writer.go")],
     [("front buffer", "what is on screen"), ("cursor and style tracked", "state of the terminal as the writer believes")], ["bytes written, on an emulated terminal"])
prop("C11", "Buffer operations behave like a grid of cells",
     "A drawing buffer behaves like a plain width x height grid under any sequence of writes, string drawing, fills, clears, clones, copies and resizes: every in-range operation changes exactly the addressed cells and everything out of range is ignored; a wide character takes both its cells and leaves blanks when it loses one; a combining sequence takes one cell. Copies, and what was rendered before, are independent of the original, and a buffer taken from a renderer is blank, has the renderer's current size and belongs to one owner.",
     ["histories", "inputs"],
     "all operation sequences up to a depth over small grids including out-of-range and negative arguments",
     "tests exercise each operation alone on fresh buffers",
     ["render/internal/domain/model/buffer.go", "render/renderer.go"],
     [("bounds-checked cell store", "render/internal/domain/model/buffer.go")],
     [("cells", "grid contents")], ["Get/String"])
prop("C12", "A failed write is reported and a later frame repairs the screen",
     "Whenever the output fails or accepts only part of the data, the call that suffered it returns that error and nothing panics. Calls whose writes succeed report success, and the next successful frame leaves the terminal showing exactly that frame, whatever part of the failed data arrived.",
     ["fault_sequences"],
     "the output failing at every write, with every short-write length, for short frame sequences",
     "tests use writers that always succeed",
     ["render/internal/application/renderer.go", "render/internal/infrastructure/ansi/writer.go"],
     [("error propagation", "render/internal/infrastructure/ansi/writer.go")], [], ["returned errors"])
# ---------------------------------------------------------------- style
prop("C13", "A styled box has exactly the requested geometry and content",
     "For every non-empty text and every combination of border sides, padding, margin, alignment and target size, the rendered box is a rectangle of lines of equal display width: margin, border, padding and text area, in that order, with the requested thickness on each side. Every line of the text stands intact in the text area at the requested alignment, cut only where a target size is smaller than the text. A box that would violate its minimum or maximum size is not drawn: the text is returned as it is.",
     ["configurations", "inputs"],
     "all combinations of a small set of values for every attribute and of single- and multi-line, wide and empty texts",
     "tests check one attribute at a time",
     ["style/style.go", "style/internal/application/command/render.go", "style/internal/application/command/border_renderer.go"],
     [("render pipeline", "style/internal/application/command/render.go")], [], ["rendered string as cells"])
prop("C14", "Colours and attributes cover exactly the styled text",
     "Every character of a styled box is shown with exactly the requested text, background and border colour and attributes, also where already styled text stands inside it, and text after it is unaffected. Conversion of colours is faithful: true colour keeps all components, 256 and 16 colours give the nearest colour (nearly black and nearly white greys may become black and white), and no colour support gives no colour codes.",
     ["configurations", "inputs"],
     "all attribute combinations with all capability levels; colour conversions over the complete 256-colour palette and a dense RGB grid",
     "tests sample a few colours and attribute pairs",
     ["style/internal/domain/service/color_adapter.go", "style/internal/application/command/render.go", "style/internal/domain/value/color.go"],
     [("colour adapter", "style/internal/domain/service/color_adapter.go")], [], ["cell attributes on an emulated terminal"])
prop("C15", "The theme manager is linearizable",
     "Concurrent reads, switches, lookups and resets of the active theme behave as if executed one after another in some order consistent with real time: every read returns a theme that was active at that point, and no switch is lost. A theme consists of exactly the parts it was made of, and merging replaces exactly the parts that are set.",
     ["schedules"],
     "all interleavings of three threads with two operations each",
     "tests use the race detector on one schedule and check no order",
     ["style/internal/application/theme_manager.go"], [("read/write lock", "style/internal/application/theme_manager.go")],
     [("current theme", "the active theme")], ["return values"])
prop("C16", "Styles are immutable values",
     "Deriving a style or theme from another one, merging themes, or rendering never changes the original: it renders and reads exactly as before. Two values derived from a common origin never influence each other.",
     ["histories", "programs"],
     "all derivation trees of depth up to three over every builder operation",
     "tests check a few builders once",
     ["style/style.go", "style/internal/domain/model/style.go"], [("copy on write builders", "style/internal/domain/model/style.go")], [], ["rendered strings of all values"])
# ---------------------------------------------------------------- layout
prop("C17", "Flex layout places items in order, without overlap, inside the container",
     "For every list of items and every combination of direction, justification, alignment, gap and container size, the rendered text is exactly as many columns and lines as the container, every item is drawn intact at its place (cut off only at the container's edge, never in the middle of a wide character), and nothing else is drawn. The places follow from the outer sizes of the items (content in display columns, padding, border with one blank cell on every side, margin, adjusted by the item's size constraints): items stand in order, separated by the gap, the free space is put before (end), around (center), after (start) or equally between (space-between, rounded down) them, and across the direction each item is at the start, end or middle. Rendering never changes the container or its items, and changing a box after it was added does not affect the container.",
     ["configurations", "inputs", "histories"],
     "all item lists up to length four with items of different kinds, all options, all container sizes up to a bound, all sequences of calls",
     "tests sample a few hand-computed layouts of ASCII items",
     ["layout/internal/domain/service/flexbox_layout_service.go", "layout/internal/domain/model/flexbox.go", "layout/layout.go"],
     [("main/cross axis placement", "layout/internal/domain/service/flexbox_layout_service.go"), ("drawing into the grid of cells", "layout/layout.go")], [], ["rendered text"])
prop("C18", "A layout box is drawn as margin, border, padding and content",
     "A box rendered with any content, padding, border and margin is drawn as margin, border, padding and content in that order with the requested number of cells on each side (negative ones counting as zero); a bordered box is a rectangle in display columns, one blank column between border and content, whatever wide, combining or joined characters the content has. It is drawn with the size it is measured with, size constraints included, and its place in a parent follows from that size and its alignment and never is negative. Rendering or placing a box never changes it, and only the last value set for an attribute counts.",
     ["configurations", "inputs", "histories"],
     "all combinations of small values of every attribute with single- and multi-line, wide and empty contents; all sequences of builder, rendering and placing calls",
     "tests check one attribute at a time, nearly always with ASCII text",
     ["layout/internal/domain/service/render_service.go", "layout/internal/domain/service/measure_service.go", "layout/internal/domain/service/layout_service.go", "layout/layout.go"],
     [("box renderer", "layout/internal/domain/service/render_service.go"), ("measuring", "layout/internal/domain/service/measure_service.go")], [], ["rendered text", "positions"])
# ---------------------------------------------------------------- core
prop("C19", "Display width is right for every character and additive over text elements",
     "Measuring a string never panics and never returns a negative width or more than two columns per character, for any byte string. Every character whose width is undisputed gets that width (ASCII 1, control characters and combining marks 0, East Asian wide and fullwidth characters 2, all others 1), and the width of a text is the sum of the widths of its elements - plain characters, combining sequences, emoji with modifiers or joiners, flags - wherever they stand and however long the text is. A cell sized automatically has exactly the measured width and keeps its text.",
     ["inputs"],
     "every code point alone and in context, all sequences of text elements up to a length, all byte strings up to three bytes",
     "tests list individual strings; whether an element keeps its width among others depends on the combination",
     ["core/internal/domain/service/unicode_service.go", "core/unicode.go", "core/core.go"], [("width of a string", "core/internal/domain/service/unicode_service.go"), ("automatic cell width", "core/core.go")], [], ["returned widths"])
prop("C20", "Terminal capabilities follow the environment consistently",
     "Capability detection is a total, deterministic function of the environment with one precedence: a request for no colour disables everything, otherwise a forced colour level decides alone, otherwise the platform's rules apply - on Unix-like systems an absent or dumb terminal type means no capabilities, explicit true-colour support gives true colour, then the known terminal programs, then the terminal type. On macOS its own terminal program never gets more than 256 colours and on Windows only the terminals known to support it get true colour and the mouse. Every combination of variables gives a consistent answer: the colour queries agree with the colour depth, and no capability is claimed without support for control sequences.",
     ["configurations"],
     "the complete product of small value sets of every environment variable consulted, on every platform",
     "tests set one or two variables at a time",
     ["core/internal/domain/service/capabilities_detector.go", "core/internal/infrastructure/platform", "core/core.go"], [("detector", "core/internal/domain/service/capabilities_detector.go")], [], ["returned capabilities"])
prop("C21", "Core geometry values never leave their valid range",
     "Sizes, positions, cells, capabilities and the raw-mode state are immutable values whose components stay in their valid range under every operation, whose constructors normalise every input, and whose operations obey plain arithmetic unless the result does not fit an integer. Deriving a terminal or raw-mode value from another one never changes the original.",
     ["histories", "inputs"],
     "all operation sequences up to a depth from all small and extreme values",
     "tests sample a few values",
     ["core/internal/domain/value", "core/internal/domain/model", "core/core.go"], [("validating constructors", "core/internal/domain/value")], [], ["returned values"])
# ---------------------------------------------------------------- terminal
prop("C22", "Terminal operations drive a terminal to the state they promise",
     "After any sequence of terminal operations - cursor movement, saving and restoring, clearing, writing, alternate screen, raw mode - a terminal that executed the emitted bytes is in the state the operations describe, zero and negative counts doing nothing and negative positions being refused, and leaving raw mode restores the input exactly. The object's own idea of alternate-screen and raw mode always matches the terminal, also when goroutines switch modes concurrently; redundant transitions are refused and emit nothing, and whatever could not be written is reported without changing the mode. Size and colour support are those the terminal and the environment announce, 80x24 when no size is known.",
     ["histories", "fault_sequences", "schedules", "configurations"],
     "all operation sequences up to a depth executed on a terminal emulator and a pty, every operation also on failing output and input, outputs failing after every byte count; concurrent mode switches under all schedules up to a deviation bound; combinations of sizes and environments",
     "tests check the bytes of single calls",
     ["terminal/internal/infrastructure/unix/ansi.go", "terminal/terminal.go"], [("ANSI terminal", "terminal/internal/infrastructure/unix/ansi.go")],
     [("alt-screen/raw flags", "mode the object believes")], ["emulated screen", "attributes of the input terminal"])
prop("C23", "The mock terminal records faithfully, also concurrently",
     "The recording test terminal records every call exactly once with its arguments, in an order consistent with the callers' program order; its alternate-screen and raw-mode state follow the calls, redundant transitions being refused; the null terminal accepts everything and reports fixed capabilities. This holds when several goroutines use it at once.",
     ["schedules", "histories"],
     "all operation sequences up to a depth against a reference model; all interleavings of two to three threads",
     "tests use it from one goroutine",
     ["testing/mock_terminal.go", "testing/null_terminal.go"], [("mutex-protected call log", "testing/mock_terminal.go")],
     [("call log", "calls so far")], ["Calls, state getters"])
# ---------------------------------------------------------------- mouse
prop("C09", "Mouse tracking is on exactly while it is enabled",
     "After every sequence of enabling and disabling mouse tracking, including ones the terminal refuses, the terminal's tracking modes are on exactly when tracking is reported as enabled, a refusal is reported to the caller, and disabling leaves no mouse mode on.",
     ["histories", "fault_sequences"],
     "all sequences of enabling and disabling up to a depth, each step accepted or refused, executed by a terminal emulator whose modes are compared after every step",
     "tests inspect the text of single sequences",
     ["mouse/mouse.go", "mouse/internal/infrastructure/platform", "mouse/internal/infrastructure/ansi"],
     [("terminal mode", "mouse/internal/infrastructure/platform/terminal_mode.go")], [("enabled, mode", "tracking state")], ["bytes written to the terminal"])
prop("C24", "Mouse reports of every protocol decode to the event they encode",
     "Every well-formed report in the SGR, URxvt and X10 encodings decodes to the action, button, modifiers and zero-based position it encodes (URxvt with the button code as the library documents it, motion without a button held carrying no button, unsupported buttons decoding to no button). Formatting an event and parsing it again gives the event back, and a malformed report yields an error, never a panic or an event.",
     ["inputs"],
     "the complete set of button codes and boundary positions in each encoding, and all malformed strings over the protocol alphabet up to a length",
     "tests list individual sequences",
     ["mouse/internal/infrastructure/parser", "mouse/mouse.go"], [("protocol parsers", "mouse/internal/infrastructure/parser")], [], ["decoded events"])
prop("C25", "Clicks and drags are recognised exactly as the rules say",
     "For every sequence of presses, releases and motions with times, a release near its press gives a click whose count follows the documented multi-click rules (time limit, distance, same button, wraps after triple), movement past the threshold with a held button gives a drag that starts at the press and ends at the release, and nothing else produces either; a reset forgets everything.",
     ["histories", "schedules"],
     "all event sequences up to a depth over buttons, positions around the tolerance and time steps around the limit, against a reference model",
     "tests replay a dozen fixed gestures",
     ["mouse/internal/domain/service", "mouse/internal/application"], [("click detector and drag tracker", "mouse/internal/domain/service")],
     [("last click, active drag", "gesture in progress")], ["events returned by the handler"])
prop("C26", "Hover tracking and menu placement are exact",
     "For every arrangement of areas and every pointer path, an enter event is reported exactly when the first area under the pointer changes to another area (which ends the previous hover), a leave event exactly when it changes to none, and no event otherwise repeats them. A popup placed at any cursor position of any screen lies on the screen whenever it fits.",
     ["histories", "inputs"],
     "all pointer paths up to a length over small area arrangements; all cursor, menu and screen sizes up to a bound",
     "tests follow a few paths",
     ["mouse/internal/domain/service/hover_tracker.go", "mouse/internal/domain/service/menu_positioner.go"], [("hover tracker", "mouse/internal/domain/service")],
     [("current area", "area hovered")], ["hover events"])
# ---------------------------------------------------------------- clipboard
prop("C27", "Clipboard history is a bounded, expiring, thread-safe list",
     "Clipboard history keeps the newest entries up to its limit and evicts the oldest first, lists them newest first, drops exactly those older than their lifetime when expired entries are removed, finds exactly the matching ones, and records every successful write and nothing else. What it returns are copies with identifiers that never repeat, and every call is atomic under concurrent use.",
     ["histories", "schedules"],
     "all operation sequences up to a depth against a reference model; all interleavings of three threads",
     "tests run one operation at a time in one order",
     ["clipboard/internal/domain/service/clipboard_history.go"], [("read/write lock and slice", "clipboard/internal/domain/service/clipboard_history.go")],
     [("entries", "history contents")], ["returned entries"])
prop("C28", "What is written to the clipboard is what is read back",
     "Text and rich content written through the clipboard is delivered unchanged to the first provider that is available at that moment and read back unchanged; a provider failure is reported as an error and never as wrong data. The terminal-escape provider emits exactly one well-formed sequence that decodes to the text, reports success exactly when it was put out in time, and leaves nothing running; the provider chosen follows the session, the terminal and the installed programs. Images keep their pixels through the lossless format, and formats are recognised consistently.",
     ["inputs", "fault_sequences", "configurations"],
     "all short texts over an alphabet of special characters, all availability/failure patterns of up to three providers",
     "tests use one provider and a few ASCII texts",
     ["clipboard/internal/application/clipboard_manager.go", "clipboard/internal/infrastructure/osc52", "clipboard/clipboard.go"], [("provider chain", "clipboard/internal/application/clipboard_manager.go")],
     [], ["provider calls, bytes written"])
prop("C29", "Rich text survives encoding to HTML and RTF and back",
     "Encoding any text with any combination of bold, italic, underline and colour to HTML or RTF gives a well-formed document that any reader of the format shows as that text in that style, and decoding or converting it gives the same text and style back, whatever special characters the text contains (RTF drops carriage returns). Malformed documents give an error or text, never a crash.",
     ["inputs", "configurations"],
     "all strings up to a length over the alphabet of characters special to either format, with all style combinations",
     "tests round-trip plain words",
     ["clipboard/internal/domain/service/richtext_codec.go"], [("codec", "clipboard/internal/domain/service/richtext_codec.go")], [], ["decoded text and style"])
# ---------------------------------------------------------------- components
prop("C30", "Single-line input edits like an editor, cursor always valid",
     "For every sequence of keys and API calls the single-line input holds the text an ideal editor would hold, with the cursor on a character boundary inside it; whole user-perceived characters are inserted, deleted and skipped; validation and placeholder follow the content; and the view shows the text around the cursor within its width.",
     ["histories", "inputs"],
     "all key sequences up to a depth over an alphabet with combining, wide and emoji characters, against a reference editor",
     "tests apply a few keys to ASCII text",
     ["components/input/input.go", "components/input/internal/input"], [("edit operations by grapheme", "components/input/internal/input/domain")],
     [("value, cursor", "editor state")], ["Value, CursorPosition, View"])
prop("C31", "The text area edits like an editor, cursor always valid and visible",
     "For every sequence of keys and API calls the multi-line text area holds the text and cursor an ideal editor with a kill ring would hold, the cursor is always inside the text, limits are respected, and the view shows the cursor's line.",
     ["histories", "inputs"],
     "all key sequences up to a depth against a reference editor",
     "tests apply single keys to fixed texts",
     ["components/input/textarea.go", "components/input/internal/textarea"], [("buffer and navigation services", "components/input/internal/textarea/domain")],
     [("buffer, cursor, kill ring, scroll", "editor state")], ["Value, CursorPosition, View"])
prop("C32", "List navigation, filtering and selection stay consistent",
     "For every sequence of navigation, filter, toggle, item and size changes, the focused item exists and is visible whenever the list shows anything, selection holds exactly what was toggled, filtering shows exactly the matching items in order, and the view shows exactly the items of the visible window.",
     ["histories"],
     "all operation sequences up to a depth over small lists against a reference model",
     "tests run short fixed sequences",
     ["components/list/list.go", "components/list/internal"], [("list model", "components/list/internal/domain/model/list.go")],
     [("focus, scroll, selection, filter", "list state")], ["accessors, View"])
prop("C33", "The viewport always shows a valid window of its content",
     "For every sequence of scrolling, content, size, wrap and follow changes, the offset stays within range, the view is exactly the lines of that window, scrolling keys move as documented, and in follow mode the end stays in view as content or size changes.",
     ["histories"],
     "all operation sequences up to a depth over small contents and heights against a reference model",
     "tests run short fixed sequences",
     ["components/viewport/viewport.go", "components/viewport/internal"], [("viewport model", "components/viewport/internal/domain/model/viewport.go")],
     [("offset, follow", "scroll state")], ["accessors, View"])
prop("C34", "Table sorting, selection and scrolling stay consistent",
     "For every sequence of navigation, sorting, row and size changes the selected row exists and is visible, sorting is a permutation ordered by the chosen column and direction, clearing it restores the original order, and the view shows exactly the visible window with each cell in its column.",
     ["histories", "inputs"],
     "all operation sequences up to a depth over small tables with duplicate keys and wide characters",
     "tests sort one fixed table",
     ["components/table/table.go", "components/table/internal"], [("table model", "components/table/internal/domain/model/table.go")],
     [("selection, scroll, sort", "table state")], ["accessors, View"])
prop("C35", "Select and multi-select keep focus, filter and choices consistent",
     "For every sequence of keys, the focused option exists and is visible, filtering shows exactly the matching options, a choice is made only of the focused option, a multi-selection never exceeds its maximum nor is confirmed below its minimum, and the reported choices are exactly those toggled, in option order. Settings hold in whatever order they are given, and a default value is selected and focused.",
     ["histories"],
     "all key sequences up to a depth over small option lists against a reference model",
     "tests run short fixed sequences",
     ["components/select/select.go", "components/multiselect/multiselect.go"], [("selection models", "components/multiselect/internal/domain/model/multiselect.go")],
     [("focus, filter, selection", "widget state")], ["accessors, View"])
prop("C36", "A form submits only valid data and never loses its fields",
     "For every sequence of focus moves, edits, submissions and resets, exactly one field has focus, a form is submitted only when every validator accepts its field's current value, errors shown are exactly those of failing validators, and forms derived from a common one do not influence each other.",
     ["histories", "programs"],
     "all operation sequences up to a depth over forms with two to four fields and validators",
     "tests submit a few fixed forms",
     ["components/form/form.go", "components/form/internal"], [("form model", "components/form/internal/domain/model/form.go")],
     [("focus, errors, submitted", "form state")], ["accessors, messages"])
prop("C37", "Confirmations and modals report exactly what the user chose",
     "For every configuration and key sequence a confirmation reports exactly the button the user activated, exactly once, and never one by accident; a modal takes keys only while visible, cycles its buttons, and its box is drawn within its size with its content intact.",
     ["histories", "configurations"],
     "all key sequences up to a depth for all button configurations",
     "tests press a few keys on the default configuration",
     ["components/confirm/confirm.go", "components/modal/modal.go"], [("button focus", "components/confirm"), ("modal model", "components/modal/internal")],
     [("focus, done", "dialog state")], ["result messages, View"])
prop("C38", "Progress stays between 0 and 100 and is drawn proportionally",
     "For every sequence of set, increment and decrement the percentage stays within 0 to 100, the drawn bar has exactly its width with the filled part proportional and monotone in the percentage, and a spinner shows its frames cyclically, each for the time its rate gives it.",
     ["histories", "configurations"],
     "all percentages x all widths up to a bound, all operation sequences up to a depth including extreme arguments",
     "tests check a few percentages",
     ["components/progress"], [("bar model", "components/progress/internal")],
     [("percentage", "progress")], ["View"])
prop("C39", "A key typed at a terminal does what the component's documentation says",
     "For every component, in every state, the bytes a terminal sends for a documented key have exactly the documented effect (synonyms of a key have the same one), and a Ctrl or Alt letter or special key the component does not document has none. A sequence of keys typed at a program that runs the component leaves it, the messages of its commands and the screen exactly as those keys say.",
     ["histories", "inputs"],
     "every documented and undocumented key in every state up to a depth; all short sequences of keys through a program",
     "tests build key messages by hand, in a form no terminal delivers",
     ["tea/internal/infrastructure/ansi/parser.go", "components/select/internal/infrastructure", "components/confirm/internal/infrastructure", "components/form/internal/infrastructure", "components/list", "components/input", "components/viewport", "components/table", "components/modal", "components/multiselect"], [("key decoding", "tea/internal/infrastructure/ansi/parser.go"), ("key bindings", "components/list/internal/infrastructure/keybindings.go")],
     [("typed keys", "component state")], ["View", "command messages", "the terminal's screen"])

prop("C40", "The top-level package is the modules it stands for",
     "For every argument, environment, style sequence, program option and key sequence, what is made through the top-level package behaves exactly like the same thing made through its module: capabilities and sizes, detected terminals, styles, programs on a terminal and the clipboard.",
     ["inputs", "histories"],
     "every combination of arguments and environment; all short style and key sequences; every pair of clipboard texts",
     "tests call each function once and check that the result is not nil",
     ["phoenix.go"], [("top-level package", "phoenix.go")],
     [("program on a terminal", "clipboard")], ["View", "error", "the terminal's screen"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
ids = [p["id"] for p in P]
assert len(ids) == len(set(ids))
for p in P:
    assert len(p["title"]) <= 80, p["id"]
    for f in p["anchors"]["files"]:
        if not os.path.exists("/repo/" + f):
            print("missing anchor", p["id"], f)
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=True) + "\n")
print(len(P), "properties")
