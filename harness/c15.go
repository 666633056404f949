package main

import (
	"context"
	"errors"

	"github.com/nyaosorg/go-readline-ny"
	"github.com/nyaosorg/go-readline-ny/keys"
)

func init() {
	harnesses["HBind"] = HBind
	harnesses["HBindSeq"] = HBindSeq
	harnesses["HBindRun"] = HBindRun
}

var errStop = errors.New("stop")

// bindOp is one call of BindKey: where 0: the editor, 1: another editor,
// 2: the global map; cmd < 0: nil.
type bindOp struct {
	where int
	key   string
	cmd   int
}

// expectBound gives the command a key must run by the bindings made: one of
// cmds, the global command orig it had at the start, or nil for self insert.
func expectBound(ops []bindOp, q string, me int, cmds []*readline.GoCommand, orig readline.Command) readline.Command {
	for _, where := range []int{me, 2} {
		for i := len(ops) - 1; i >= 0; i-- {
			if ops[i].where == where && ops[i].key == q {
				if ops[i].cmd >= 0 {
					return cmds[ops[i].cmd]
				}
				if where == 2 {
					return nil
				}
				break
			}
			if i == 0 && where == 2 {
				return orig
			}
		}
	}
	return orig
}

func bindKey(kinds int) string {
	if kinds == 0 { // few keys, for longer sequences
		if symBool("bound") {
			return string([]byte{symByte("key", 2, 3)})
		}
		return string([]byte{symByte("key", 'x', 'y')})
	}
	switch symChoose("form", kinds) {
	case 0:
		return string([]byte{symByte("key", 0, 0x7F)})
	case 1:
		return "\x1B" + string([]byte{symByte("key", 0, 0x7F)})
	case 2:
		return string(symRune("key", 0x80, 0x7FF))
	}
	return "\x1B[" + string([]byte{symByte("key", 'A', 'Z')})
}

// globalOf: the global command of a key.
func globalOf(q string) readline.Command {
	if f, ok := readline.GlobalKeyMap.Lookup(keys.Code(q)); ok {
		return f
	}
	return nil
}

// bindings makes some bindings and returns them.
func bindings(eds [2]*readline.Editor, cmds []*readline.GoCommand) []bindOp {
	var ops []bindOp
	for i := 0; i < symParam("ops", 2); i++ {
		o := bindOp{symChoose("where", 3), bindKey(symParam("forms", 2)), symChoose("cmd", len(cmds)+1) - 1}
		ops = append(ops, o)
		var f readline.Command
		if o.cmd >= 0 {
			f = cmds[o.cmd]
		}
		if o.where == 2 {
			readline.GlobalKeyMap.BindKey(keys.Code(o.key), f)
		} else {
			eds[o.where].BindKey(keys.Code(o.key), f)
		}
	}
	return ops
}

// HBindSeq: like HBind with more bindings of fewer keys.
func HBindSeq() { HBind() }

// HBind: bindings made in any order; any key is looked up in two editors.
func HBind() {
	cmds := []*readline.GoCommand{{Name: "one"}, {Name: "two"}}
	q := bindKey(symParam("forms", 2))
	orig := globalOf(q)
	eds := [2]*readline.Editor{{}, {}}
	ops := bindings(eds, cmds)
	for me, ed := range eds {
		got := ed.LookupCommand(q)
		want := expectBound(ops, q, me, cmds, orig)
		if want == nil {
			symAssert(got == readline.SelfInserter(q), "the key does not insert itself")
		} else {
			symAssert(got == want, "the key runs another command")
		}
	}
	symReach("done")
}

// HBindRun: the key is typed.
func HBindRun() {
	ran := ""
	note := func(name string) func(context.Context, *readline.Buffer) readline.Result {
		return func(context.Context, *readline.Buffer) readline.Result {
			ran += name
			return readline.CONTINUE
		}
	}
	cmds := []*readline.GoCommand{{Name: "one", Func: note("1")}, {Name: "two", Func: note("2")}}
	q := string([]byte{symByte("typed", 1, 0x7F)})
	orig := globalOf(q)
	s := newSession(40)
	ops := bindings([2]*readline.Editor{s.ed, {}}, cmds)
	want := expectBound(ops, q, 0, cmds, orig)
	symAssume(orig == nil || want != orig) // the bundled commands have properties of their own
	done := false
	s.next = func() string {
		if done {
			switch want {
			case nil:
				symAssert(ran == "", "a command ran")
				symAssert(s.b.String() == q, "the key does not insert itself")
			case cmds[0]:
				symAssert(ran == "1" && s.b.String() == "", "the key does not run its command")
			case cmds[1]:
				symAssert(ran == "2" && s.b.String() == "", "the key does not run its command")
			}
			s.fail = errStop
			return ""
		}
		done = true
		return q
	}
	_, err := s.run()
	symAssert(err == errStop, "the session ended")
	symReach("done")
}
