package main

import (
	"github.com/nyaosorg/go-readline-ny"
	"github.com/nyaosorg/go-readline-ny/keys"
	"github.com/nyaosorg/go-readline-ny/nameutils"
)

func init() {
	harnesses["HKeyName"] = HKeyName
	harnesses["HFuncName"] = HFuncName
	harnesses["HNoName"] = HNoName
}

type keyName struct{ name, code string }

// keyNames: the key names and what the terminal sends for the key.
var keyNames = makeKeyNames()

func makeKeyNames() []keyName {
	t := []keyName{
		{"BACKSPACE", "\x7F"}, {"CLEAR", "\x0C"}, {"CTRL", "\x11"}, {"CTRL_BREAK", "\x03"},
		{"CTRL_DOWN", "\x1B[1;5B"}, {"C_LEFT", "\x1B[1;5D"}, {"C_RIGHT", "\x1B[1;5C"}, {"C_UP", "\x1B[1;5A"},
		{"C_UNDERBAR", "\x1F"}, {"C_[", "\x1B"}, {"C_\\", "\x1C"}, {"C_]", "\x1D"}, {"C_^", "\x1E"},
		{"DELETE", "\x1B[3~"}, {"DOWN", "\x1B[B"}, {"END", "\x1B[F"}, {"ENTER", "\r"}, {"ESCAPE", "\x1B"},
		{"HOME", "\x1B[H"}, {"LEFT", "\x1B[D"}, {"M_BACKSPACE", "\x1B\b"}, {"M_OEM_2", "\x1B/"},
		{"PAGEDOWN", "\x1B[6~"}, {"PAGEUP", "\x1B[5~"}, {"PAUSE", "\x13"}, {"RIGHT", "\x1B[C"}, {"UP", "\x1B[A"},
		{"F1", "\x1B[OP"}, {"F2", "\x1B[OQ"}, {"F3", "\x1B[OR"}, {"F4", "\x1B[OS"},
		{"F5", "\x1B[15~"}, {"F6", "\x1B[16~"}, {"F7", "\x1B[17~"}, {"F8", "\x1B[18~"},
		{"F9", "\x1B[20~"}, {"F10", "\x1B[21~"}, {"F11", "\x1B[23~"}, {"F12", "\x1B[24~"},
		{"F13", "\x7C"}, {"F14", "\x7D"}, {"F15", "\x7E"}, {"F16", "\x7F"}, {"F17", "\x80"}, {"F18", "\x81"},
		{"F19", "\x82"}, {"F20", "\x83"}, {"F21", "\x84"}, {"F22", "\x85"}, {"F23", "\x86"}, {"F24", "\x87"},
	}
	for c := byte('A'); c <= 'Z'; c++ {
		t = append(t, keyName{"C_" + string(rune(c)), string(rune(c - '@'))},
			keyName{"M_" + string(rune(c)), "\x1B" + string(rune(c+32))})
	}
	return t
}

// funcNames: the names of the commands.
var funcNames = map[string]readline.Command{
	"ACCEPT_LINE": readline.CmdAcceptLine, "INTR": readline.CmdInterrupt,
	"BEGINNING_OF_LINE": readline.CmdBeginningOfLine, "BACKWARD_CHAR": readline.CmdBackwardChar,
	"END_OF_LINE": readline.CmdEndOfLine, "FORWARD_CHAR": readline.CmdForwardChar,
	"BACKWARD_DELETE_CHAR": readline.CmdBackwardDeleteChar, "DELETE_CHAR": readline.CmdDeleteChar,
	"DELETE_OR_ABORT": readline.CmdDeleteOrAbort, "KILL_LINE": readline.CmdKillLine,
	"KILL_WHOLE_LINE": readline.CmdKillWholeLine, "UNIX_WORD_RUBOUT": readline.CmdUnixWordRubout,
	"UNIX_LINE_DISCARD": readline.CmdUnixLineDiscard, "CLEAR_SCREEN": readline.CmdClearScreen,
	"REPAINT_ON_NEWLINE": readline.CmdRepaintOnNewline, "QUOTED_INSERT": readline.CmdQuotedInsert,
	"YANK": readline.CmdYank, "YANK_WITH_QUOTE": readline.CmdYankWithQuote, "SWAPCHAR": readline.CmdSwapChar,
	"BACKWARD_WORD": readline.CmdBackwardWord, "FORWARD_WORD": readline.CmdForwardWord, "UNDO": readline.CmdUndo,
	"ISEARCH_BACKWARD": readline.CmdISearchBackward, "PREVIOUS_HISTORY": readline.CmdPreviousHistory,
	"NEXT_HISTORY": readline.CmdNextHistory,
}

var funcList = []string{
	"ACCEPT_LINE", "INTR", "BEGINNING_OF_LINE", "BACKWARD_CHAR", "END_OF_LINE", "FORWARD_CHAR",
	"BACKWARD_DELETE_CHAR", "DELETE_CHAR", "DELETE_OR_ABORT", "KILL_LINE", "KILL_WHOLE_LINE", "UNIX_WORD_RUBOUT",
	"UNIX_LINE_DISCARD", "CLEAR_SCREEN", "REPAINT_ON_NEWLINE", "QUOTED_INSERT", "YANK", "YANK_WITH_QUOTE",
	"SWAPCHAR", "BACKWARD_WORD", "FORWARD_WORD", "UNDO", "ISEARCH_BACKWARD", "PREVIOUS_HISTORY", "NEXT_HISTORY",
}

// spell: the name with any letter in any case, and hyphens for underscores.
func spell(name string) string {
	b := []byte(name)
	for i, c := range b {
		if c >= 'A' && c <= 'Z' {
			b[i] = symByte("letter", 'A', 'z')
			symAssume(b[i]|0x20 == c|0x20)
		} else if c == '_' {
			b[i] = symByte("mark", '-', '_')
			symAssume(b[i] == '-' || b[i] == '_')
		}
	}
	return string(b)
}

// boundTo: what a key of the map is bound to.
func boundTo(km *readline.KeyMap, code string) readline.Command {
	if f, ok := km.Lookup(keys.Code(code)); ok {
		return f
	}
	return nil
}

// HKeyName: a key name, in any spelling, binds its key and no other.
func HKeyName() {
	k := keyNames[symChoose("name", len(keyNames))]
	km := &readline.KeyMap{}
	f := readline.CmdYank
	var err error
	name := spell(k.name)
	if symBool("symbol") {
		err = nameutils.BindKeySymbol(km, name, "yank")
	} else {
		err = nameutils.BindKeyFunc(km, name, f)
	}
	symAssert(err == nil, "a key name is not known")
	for _, o := range keyNames {
		if o.code == k.code {
			symAssert(boundTo(km, o.code) == f, "the key named is not bound")
		} else {
			symAssert(boundTo(km, o.code) == nil, "another key is bound")
		}
	}
	symReach("done")
}

// HFuncName: a function name, in any spelling, names its command.
func HFuncName() {
	n := funcList[symChoose("name", len(funcList))]
	name := spell(n)
	f, err := nameutils.GetFunc(name)
	symAssert(err == nil, "a function name is not known")
	symAssert(f == funcNames[n], "the name stands for another command")
	symAssert(f.String() == n, "the command has another name")
	km := &readline.KeyMap{}
	symAssert(nameutils.BindKeySymbol(km, "C-O", name) == nil, "error from BindKeySymbol")
	symAssert(boundTo(km, "\x0F") == f, "the key is not bound to the command named")
	symReach("done")
}

// upperName is the standard spelling of an ASCII name.
func upperName(s string) string {
	b := []byte(s)
	for i := range b {
		b[i] = upperByte(b[i])
	}
	return string(b)
}

func upperByte(c byte) byte {
	if c >= 'a' && c <= 'z' {
		return c - 32
	}
	if c == '-' {
		return '_'
	}
	return c
}

// HNoName: a name that is not in the table is an error and binds nothing.
func HNoName() {
	n := symChoose("len", symParam("len", 4))
	b := make([]byte, n)
	for i := range b {
		b[i] = symByte("c", 1, 0x7F)
	}
	name := string(b)
	up := upperName(name)
	for _, k := range keyNames {
		symAssume(up != k.name)
	}
	for _, f := range funcList {
		symAssume(up != f)
	}
	km := &readline.KeyMap{}
	km.BindKey(keys.CtrlO, readline.CmdUndo)
	switch symChoose("call", 3) {
	case 0:
		symAssert(nameutils.BindKeyFunc(km, name, readline.CmdYank) != nil, "no error for an unknown key name")
	case 1:
		symAssert(nameutils.BindKeySymbol(km, name, "yank") != nil, "no error for an unknown key name")
	case 2:
		symAssert(nameutils.BindKeySymbol(km, "C-O", name) != nil, "no error for an unknown function name")
	}
	for _, o := range keyNames {
		if o.code == keys.CtrlO {
			symAssert(boundTo(km, o.code) == readline.CmdUndo, "an unknown name changed a binding")
		} else {
			symAssert(boundTo(km, o.code) == nil, "an unknown name bound a key")
		}
	}
	symReach("done")
}
