#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (kept as code so that
the long texts stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe or [], hook_needed=None))
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    assert len(title) <= 80, title
    P.append(d)

prop("C01", "The accepted line is exactly the result of the editing keys typed",
 "When Enter ends the editing, the returned string is the initial text with the effect of every editing key applied in order: insertion at the cursor, cursor motions by character, by word and to the line's ends, deletion before and under the cursor, kill to the end, to the start, of the whole line and of the word before the cursor, character swap and quoted insert. No key loses, duplicates, reorders or alters any other character, whatever the terminal's width and however far the line is scrolled.",
 ["histories", "inputs", "configurations"], "every sequence of editing keys, over every initial text and cursor position, every character inserted, and every terminal width",
 "The 9 tests play two fixed key sequences (a,i,u,BS,Left,e and farmer,BS,x) at width 80; the commands interact through cursor, view start and slice aliasing, so correctness must hold for every text, cursor and sequence.",
 ["gommand.go", "buffer.go", "slice.go", "repaints.go", "main.go", "keymap.go"],
 [("editing commands", "gommand.go"), ("sliceInsert/sliceDelete", "slice.go"), ("Buffer.insert/Delete", "buffer.go"), ("ReadLine loop", "main.go")],
 [("Buffer.Buffer", "cells of the line", "buffer.go"), ("Editor.Cursor", "index of the cell under the cursor", "main.go")],
 ["(*Editor).ReadLine result", "(*Buffer).String", "Editor.Cursor"])

prop("C02", "No sequence of keys, widths, prompts or histories makes ReadLine panic",
 "Whatever keys arrive (bound commands, ordinary, control, combining or joining characters, unknown escape sequences), whatever the terminal's width (including zero and widths narrower than one character), the prompt and the history are, with prediction, history cycling and colouring on or off, ReadLine neither panics nor loops for ever. It waits for the next key or returns.",
 ["histories", "inputs", "configurations"], "every key sequence over all commands and all code points, every terminal width >= 0, prompt width, history content and feature switch",
 "Slice-bounds panics appear only for particular combinations of cursor, view start, character widths and terminal width; the tests visit none of them.",
 ["gommand.go", "buffer.go", "repaints.go", "history.go", "isearch.go", "main.go", "slice.go", "internal/moji/moji.go", "internal/moji/codepoint.go"],
 [("ResetViewStart", "buffer.go"), ("getView/getView2", "buffer.go"), ("all commands", "gommand.go"), ("undo records", "gommand.go")],
 [("ViewStart", "index of the first cell shown", "buffer.go"), ("termWidth/topColumn", "terminal and prompt width", "buffer.go")],
 ["(*Editor).ReadLine returns"])

prop("C03", "The screen shows the line around the cursor, cursor at its place",
 "When the editor waits for a key, the terminal row right of the prompt shows exactly one contiguous stretch of the current line, rendered in order with nothing stale left to its right (except the predicted text when prediction is on), and the stretch reaches up to the end of the line unless the view is full (right after a cursor motion to the right that scrolled the line, the part behind the cursor may still be unpainted). The stretch includes everything from its start up to the cursor, and the terminal's cursor stands at the column where the character under the editing cursor is (or will be) drawn.",
 ["histories", "inputs", "configurations"], "every key sequence, every mix of narrow, wide, control and escaped characters, every terminal width wide enough to show one character, every prompt width",
 "The painting is incremental: each command repaints only part of the row and relies on what earlier commands left there. The tests never look at the output.",
 ["repaints.go", "buffer.go", "gommand.go", "history.go", "isearch.go", "internal/moji/codepoint.go"],
 [("repaint", "repaints.go"), ("puts/eraseline/GotoHead", "buffer.go, repaints.go"), ("partial paints in FORWARD_CHAR, END_OF_LINE, FORWARD_WORD, SWAPCHAR, KILL_LINE", "gommand.go")],
 [("ViewStart", "first cell shown", "buffer.go")], ["bytes written to Editor.Writer"])

prop("C04", "Painting never reaches the last column, so the row never wraps",
 "While a line is edited, nothing the editor paints for the line, the prediction or the incremental search extends to or beyond the terminal's last column, and the cursor is never placed there, as long as the terminal has room for the prompt and the widest display unit of the line. Hence the terminal never wraps or scrolls on account of the edited line.",
 ["histories", "inputs", "configurations"], "every key sequence, every mix of character widths, every terminal and prompt width",
 "Overflow needs a wide character meeting the view's edge after particular scrolling; the tests edit at most three characters on an 80-column terminal.",
 ["buffer.go", "gommand.go", "repaints.go", "isearch.go"],
 [("ViewWidth/forbiddenWidth", "buffer.go"), ("getView", "buffer.go"), ("right scroll", "gommand.go cmdForwardChar"), ("suffix clipping", "repaints.go")],
 None, ["bytes written to Editor.Writer"])

prop("C05", "Undo steps back through earlier texts of the line",
 "Each undo replaces the text by a text the line had before the latest change not yet undone, leaves the cursor inside the line, and never produces a text the line never had. Repeating it runs back through the history of the line to the empty line the session began with, after which undo changes nothing. A change without effect may count as a step, and a history recall may take two.",
 ["histories", "inputs"], "every sequence of edits, kills, swaps, yanks, history recalls and undos, over every text",
 "No test calls undo; each undo record holds positions into a line that later edits and undos move.",
 ["gommand.go", "buffer.go", "repaints.go", "history.go", "isearch.go"],
 [("_Undo records", "buffer.go, gommand.go"), ("cmdUndo", "gommand.go"), ("joinUndo", "buffer.go")],
 [("undoes", "stack of inverse edits", "buffer.go")], ["(*Buffer).String after CmdUndo"])

prop("C06", "History browsing recalls every entry and keeps edits made on the way",
 "Previous/next history replace the line by the neighbouring entry, starting from the newest, stop at the oldest entry (or wrap round to the line being typed when cycling is on) and come back to the line being typed. An entry (or the line being typed) that was edited is shown as last left when it is visited again during the same session, all other entries are shown as recorded, and the history object itself is never changed.",
 ["histories", "inputs", "configurations"], "every interleaving of previous/next and edits, every history length and content (including empty entries), cycling on or off",
 "No test uses a history. The state is a pointer plus a sparse map of modified entries, and errors need an edit, leaving, returning and another edit.",
 ["history.go", "simplehistory/main.go", "main.go"],
 [("cmdPreviousHistory/cmdNextHistory", "history.go"), ("saveModifiedHistory/getHistory", "history.go")],
 [("historyPointer", "entry shown", "buffer.go"), ("modifiedHistory", "edited entries", "buffer.go")],
 ["(*Editor).ReadLine result", "(*Buffer).String"])

prop("C07", "Incremental search finds the newest match and can always be abandoned",
 "Incremental search shows the newest history entry that contains the search string, compared without regard to case; while a match is shown, Ctrl-R moves to the next older different match, wrapping round, and Ctrl-S to the next newer one, not wrapping. Enter takes the entry shown (empty when nothing matched) as the whole line, as one undoable change; Ctrl-C, Ctrl-G and Escape leave text and cursor as they were.",
 ["histories", "inputs"], "every history, every sequence of search keys and control keys",
 "No test covers the search; its result depends on the history's content and on the order of extend, shorten, older and newer steps.",
 ["isearch.go", "repaints.go"],
 [("cmdISearchBackward", "isearch.go"), ("ReplaceAndRepaint", "repaints.go")], None, ["(*Editor).ReadLine result", "bytes written"])

prop("C08", "Splitting a text into display units loses nothing",
 "For every valid UTF-8 text and every terminal capability setting, writing back the display units into which the text is split gives exactly the same text. Therefore a text that is pasted, recalled from history or given as the default comes back from ReadLine unchanged.",
 ["inputs", "configurations"], "every valid UTF-8 string; every combination of surrogate, joiner, variation-sequence, modifier and ambiguous-width support",
 "The test writes back one six-character string; joiners, variation selectors, modifiers and where they stand multiply the cases.",
 ["internal/moji/moji.go", "internal/moji/codepoint.go", "internal/moji/width.go", "buffer.go"],
 [("StringToMoji", "internal/moji/moji.go"), ("Moji.WriteTo", "internal/moji/*.go"), ("cell2string", "buffer.go")], None,
 ["StringToMoji + WriteTo", "(*Editor).ReadLine result"])

prop("C09", "Reported widths equal the columns really printed",
 "The width the library reports for a display unit equals the number of columns its printed form occupies, every unit is at least one column wide, and string width and unit count equal the sum and number of the units the string splits into (each character as wide as go-runewidth's tables say, or as set by the caller). A tab fills up to the next multiple of four.",
 ["inputs", "configurations"], "every code point and every short string, every terminal capability setting and every position of a tab",
 "Five sample strings are tested; printed forms (^X, <XXXX>, tab filling, save/restore sequences) differ per class over 1.1 million code points.",
 ["internal/moji/codepoint.go", "internal/moji/moji.go", "internal/moji/width.go", "buffer.go"],
 [("Width/PrintTo pairs", "internal/moji/codepoint.go"), ("lenEscaped", "internal/moji/width.go"), ("MojiWidthAndCountInString", "internal/moji/moji.go")],
 None, ["Moji.Width vs Moji.PrintTo", "GetStringWidth, MojiCountInString"])

prop("C10", "Text in the line can never smuggle control sequences to the terminal",
 "Whatever text is typed, pasted, predicted or recalled, its control characters (C0, DEL, C1) are never sent to the terminal as such: they appear as visible stand-ins. Control bytes on the output come only from the editor itself, the prompt, the line-feed writer and the configured colours.",
 ["inputs", "configurations"], "every code point in every position of a short text, every terminal capability setting",
 "The test prints one backspace and one DEL; control characters can sit anywhere, including inside joined or variation sequences.",
 ["internal/moji/codepoint.go", "internal/moji/moji.go", "repaints.go", "isearch.go"],
 [("rune2moji classification", "internal/moji/codepoint.go"), ("PrintTo", "internal/moji/*.go")], None, ["Moji.PrintTo", "bytes written to Editor.Writer"])

prop("C11", "Reading keys loses, invents and reorders nothing",
 "From any stream of runes (NULs apart), the keys read contain exactly the stream's characters in order, with well-formed surrogate pairs combined into one character. A key is a single character unless it starts with Escape, in which case it takes what is already buffered behind it; raw mode is left again in every case, and read errors are passed on.",
 ["inputs", "schedules", "fault_sequences"], "every rune stream, every timing of what is buffered when, an error at any point",
 "No test reads keys from a rune stream; timing (Buffered) and surrogates decide the split.",
 ["getkey.go", "tty8.go"],
 [("GetRawKey", "getkey.go"), ("GetKeys", "getkey.go"), ("GetKey", "getkey.go")], None, ["GetKey/GetKeys/GetRawKey results"])

prop("C12", "The alternative terminal driver delivers every byte typed, in order",
 "The keys delivered by the alternative (x/term based) terminal driver, concatenated, equal the bytes read from standard input, for every way the bytes are split into reads; a character outside an escape sequence is never torn apart. Opening and closing the terminal in pairs stops the size watcher and never blocks or panics. A read that fails is reported as an error by the key request that needed it, and no byte is lost by it.",
 ["inputs", "schedules"], "every byte stream of valid UTF-8 and every chunking of it into reads",
 "The package has no test; tearing needs a read boundary inside a character.",
 ["tty10/main.go"], [("(*Tty).GetKey/getKey", "tty10/main.go"), ("(*Tty).Close", "tty10/main.go")],
 [("buf", "bytes read, not yet delivered", "tty10/main.go")], ["(*Tty).GetKey results"])

prop("C13", "Colour sequences emit exactly the SGR parameters given",
 "A colour built from up to six SGR parameters between 0 and 255 (by the constructors, by adding parameters or by chaining colours) is written as ESC [ p1 ; p2 ; ... m with exactly those parameters in order. A zero or negative colour writes nothing, the number returned is the number of bytes written, and a failing writer's error is returned.",
 ["inputs"], "every parameter list of length 1 to 6 over 0..255 and every way of building it",
 "One test checks three packed values; packing and shifting errors show only for particular lengths and values.",
 ["color.go"], [("Add/Chain/SGR1..SGR4", "color.go"), ("WriteTo", "color.go")], None, ["ColorSequence.WriteTo output"])

prop("C14", "Colouring sees exactly the line and never changes what is shown",
 "At each repaint the colouring callback is restarted and receives the characters of the line in order with one cursor mark at the cursor's place. Each painted character carries the colour chosen for it, the default colour is restored behind the text, and apart from the colour sequences the output is the same as without colouring.",
 ["histories", "inputs"], "every key sequence, every text and every colouring function",
 "No test sets a colouring; colour runs are emitted only on change and the callback is stateful.",
 ["repaints.go", "buffer.go", "color.go", "coloring/vimbatch.go"],
 [("refreshColor", "repaints.go"), ("puts", "buffer.go")], [("Cell.color", "colour of the cell", "buffer.go")],
 ["Coloring.Init/Next calls", "bytes written"])

prop("C15", "A key runs the command bound to it, the editor's own bindings first",
 "A key runs the command last bound to it in the editor's own map, else the one in the global map, else it inserts itself (Escape followed by one character inserts that character); binding nil removes a binding and uncovers the global one. Binding a key affects no other key and no other editor.",
 ["histories", "inputs"], "every sequence of bind and unbind operations over arbitrary key strings, and every key looked up",
 "No test binds a key.",
 ["keymap.go", "main.go"], [("BindKey/Lookup", "keymap.go"), ("LookupCommand", "main.go")], [("KeyMap.table", "bindings", "keymap.go")],
 ["(*Editor).LookupCommand"])

prop("C16", "Keys and commands can be named in any spelling and bind what they name",
 "A key name binds the key it names and a function name the command of that name, in any letter case and with hyphen or underscore; an unknown name is reported as an error and binds nothing.",
 ["inputs"], "every registered key and function name in every spelling, and arbitrary other strings",
 "The packages have no tests.",
 ["nameutils/main.go", "keys/naming.go", "keys/code.go", "gommand.go"],
 [("NormalizeName", "keys/naming.go"), ("BindKeyFunc/BindKeySymbol/GetFunc", "nameutils/main.go")], None, ["KeyMap.Lookup after BindKeySymbol"])

prop("C17", "Completion changes only the word being completed",
 "A completion key leaves the text before the current word and behind the cursor exactly as it was, and replaces the word by a text that extends what was typed (ignoring case and quotation marks), quoted when a candidate needs it; words end at spaces and delimiters outside quotation marks, and a delimiter directly before the cursor is a word of its own. When nothing matches or nothing can be added, the line stays unchanged, and completion never panics.",
 ["inputs", "histories"], "every line and cursor position, every candidate list a completer returns",
 "The package has no test; the outcome depends on quotes, delimiters, spaces, case folding and the candidates together.",
 ["completion/main.go", "repaints.go"], [("split", "completion/main.go"), ("complete", "completion/main.go"), ("ReplaceAndRepaint", "repaints.go")], None,
 ["(*Buffer).String before/after the command"])

prop("C18", "Completion inserts the longest prefix common to all matching candidates",
 "With several matching candidates the word becomes their longest common prefix, compared without regard to case and spelled as in a shortest candidate; with exactly one it becomes that candidate plus the configured postfix. Only candidates starting with the typed word (ignoring case) count, and those are what is listed when no progress is possible.",
 ["inputs"], "every list of candidates and every typed word",
 "The package has no test; the prefix length is computed in bytes on one candidate and applied to another.",
 ["completion/main.go"], [("commonPrefix", "completion/main.go"), ("removeUnmatches", "completion/main.go")], None, ["word after completion"])

prop("C19", "File completion offers exactly the entries that match what was typed",
 "For the last word of the line, file completion offers every directory entry whose name starts with the typed base name (ignoring case) and no other, each spelled as the typed directory part followed by the entry's name, with a separator appended to directories and symbolic links; a single matching directory is offered together with its contents. An empty word offers the entries of the current directory, an unreadable directory nothing.",
 ["inputs", "configurations"], "every typed path and every directory content",
 "The package has no test; the result depends on the file system.",
 ["completion/file.go"], [("File.List", "completion/file.go")], None, ["File.List results"])

prop("C20", "A prediction is only ever a suggestion for the current text",
 "With prediction on, moving right at the end of the line appends the predictor's answer for the text as it is now, and by default that makes the line equal to the newest history entry starting with it; the predicted text otherwise never becomes part of the line. It is shown, in the prediction colour and as far as there is room, after typing at the end of the line, never while the cursor is elsewhere or the line is empty, and it is gone from the screen when the line is accepted.",
 ["histories", "inputs"], "every key sequence and every history",
 "No test turns prediction on; stale predictions need a text change through a command that repaints only partially.",
 ["buffer.go", "gommand.go", "repaints.go", "main.go"], [("updateSuffix/predictByHistory", "buffer.go"), ("cmdForwardChar", "gommand.go"), ("repaintWithoutUpdateSuffix", "repaints.go")],
 [("suffix", "predicted text", "buffer.go")], ["(*Editor).ReadLine result", "bytes written"])

prop("C21", "A session ends with the right result and the terminal released",
 "Enter returns the text and no error, Ctrl-C an empty text and the interrupt error, Ctrl-D on an empty line an empty text and EOF, a failing key read an empty text and that error, and a command's own result the matching one of these. On every path the terminal opened is closed exactly once, the cursor is left visible, all output is flushed, the line-feed writer has run exactly once for a finished line, and the next session on the same editor starts with a fresh line, undo list and history position. A terminal that fails to take output changes none of this but the output.",
 ["histories", "fault_sequences"], "every key sequence and a failure of open, size or key reading at any step",
 "Only successful sessions ending with Enter are tested.",
 ["main.go", "gommand.go"], [("ReadLine", "main.go"), ("cmdInterrupt/cmdDeleteOrAbort", "gommand.go")], None, ["(*Editor).ReadLine result", "ITty calls", "bytes written"])

prop("C22", "Resizing the terminal at any moment affects only the painting",
 "A resize notice arriving while the editor waits for a key, at any point of a session and to any width, never changes text, cursor, undo list or history position and never panics, and the line is repainted at once fitting the new width. A notice arriving while a command runs takes effect only after the command has finished, and one arriving before the line is first shown or when the session ends paints nothing.",
 ["schedules", "histories"], "every key sequence with resize notices of any width between (and during) the keys",
 "No test resizes.",
 ["main.go", "repaints.go", "buffer.go"], [("onResize + mutex", "main.go"), ("RepaintLastLine", "repaints.go"), ("ResetViewStart", "buffer.go")], None,
 ["(*Editor).ReadLine result", "bytes written"])

prop("C23", "Editing starts at the column where the prompt ends",
 "The column at which the line is painted equals the column where the terminal's cursor stands after the prompt, whatever mixture of text, wide characters, colour and other sequences that do not move the cursor, window-title sequences, backspaces over one-column characters and line breaks the prompt contains. A prompt too wide for the terminal moves the line to the start of the next row; both also hold when the line is repainted with another prompt or width.",
 ["inputs"], "every prompt composed of those elements, every terminal width",
 "Two fixed prompts are tested.",
 ["main.go", "repaints.go"], [("cutEscapeSequenceAndOldLine", "main.go"), ("callPromptWriter", "main.go")], [("topColumn", "column of the line's start", "buffer.go")],
 ["cursor-column sequences written"])

prop("C24", "The editing primitives for command authors keep their contracts",
 "InsertString inserts exactly the given text at the given position and returns the number of units; Delete removes exactly n units and returns their width, or does nothing when the range is not inside the line; SubString and String give back exact text; ReplaceAndRepaint replaces the text from a position to the cursor and leaves the cursor behind it. CurrentWord is the stretch before the cursor since the last space outside quotation marks.",
 ["inputs"], "every text, position, count and string, in every order of calls",
 "The primitives are only exercised through two fixed sessions.",
 ["buffer.go", "repaints.go", "slice.go"], [("InsertString/Delete/SubString/CurrentWord", "buffer.go"), ("ReplaceAndRepaint", "repaints.go")], None, ["(*Buffer) methods"])

prop("C25", "Killed text goes to the clipboard and yank brings it back",
 "Kill to end of line, kill to start of line and word rubout put exactly the removed text on the clipboard; yank inserts the clipboard's text without trailing line ends at the cursor and moves the cursor behind it. Yank with quotes wraps a one-line text that contains a space and does not start with a quotation mark in double quotes, doubling the quotes inside, and inserts any other unchanged.",
 ["histories", "inputs"], "every text, cursor position and clipboard content",
 "No test uses the clipboard.",
 ["gommand.go"], [("cmdKillLine/cmdUnixLineDiscard/cmdUnixWordRubout/cmdYank/cmdYankWithQuote", "gommand.go")], None, ["clipboard content", "(*Editor).ReadLine result"])

prop("C26", "The batch colouring marks exactly quotes, variables and separators",
 "The bundled colouring gives an ideographic space the warning colour, every other character between and including a pair of percent signs the variable colour, otherwise between and including double quotes the string colour, an ampersand outside both the separator colour, and everything else the default (an opening mark with no closing one counts to the end); restarting it forgets all state.",
 ["inputs", "histories"], "every character sequence",
 "The package has no test.",
 ["coloring/vimbatch.go"], [("(*VimBatch).Next/Init", "coloring/vimbatch.go")], [("bits", "open quotes", "coloring/vimbatch.go")], ["Next results"])

prop("C27", "Scripted input and the simple history play back exactly what was put in",
 "The scripted terminal delivers the given keys in order, each once, and then Enter for ever. The simple history returns entries in the order added, with their number as length, and adding never changes earlier entries.",
 ["histories", "inputs"], "every list of keys and every sequence of additions and reads",
 "One fixed script is tested, the history container never.",
 ["auto/main.go", "simplehistory/main.go"], [("(*Pilot).GetKey", "auto/main.go"), ("Container", "simplehistory/main.go")], None, ["GetKey, At, Len"])

prop("C28", "Clearing the screen or repainting on a new row shows the same line again",
 "Clear-screen empties the screen once and shows prompt and line from its top; repaint-on-newline shows them again starting on the next row. Neither changes text, cursor, undo list or history position, and afterwards the row shows the line and the cursor as the screen rule says.",
 ["histories", "inputs", "configurations"], "every line, cursor position, prompt, width and sequence of keys before and after",
 "No test calls either command; the prompt is written again and the view computed anew.",
 ["gommand.go", "repaints.go"], [("cmdClearScreen/cmdRepaintOnNewline", "gommand.go"), ("RepaintAll", "repaints.go")], None, ["bytes written", "(*Buffer).String"])

prop("C29", "Editors are independent and a session keeps the caller's configuration",
 "A session on one editor, even one run from inside a command of another editor, leaves the other's text, cursor, undo list and history position as they were, and ends as it would alone (the clipboard is shared). What the caller has set (default text, history, writer, buffered output, prompt, line feed, colouring, predictor, terminal) is used and is still set the same afterwards, and predictions are asked for only when prediction is on.",
 ["histories", "configurations"], "every pair of key sequences, every point of nesting, every combination of settings",
 "No test uses two editors or looks at the settings afterwards.",
 ["main.go", "keymap.go", "buffer.go"], [("Editor.Init", "main.go"), ("ReadLine", "main.go")], None, ["(*Editor).ReadLine result", "exported fields of Editor"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P), "properties")
