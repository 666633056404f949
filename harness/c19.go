package main

import (
	"errors"
	"io/fs"
	"os"
	"path/filepath"

	"github.com/nyaosorg/go-readline-ny/completion"
)

func init() {
	harnesses["HFiles"] = HFiles
	harnesses["HFilesHidden"] = HFilesHidden
	harnesses["HFilesFold"] = HFilesFold
}

// fileNode is an entry of the directory tree under test.
type fileNode struct {
	name string
	mode fs.FileMode // fs.ModeDir, fs.ModeSymlink or 0
	kids []*fileNode
}

func (f *fileNode) Name() string               { return f.name }
func (f *fileNode) IsDir() bool                { return f.mode&fs.ModeDir != 0 }
func (f *fileNode) Type() fs.FileMode          { return f.mode }
func (f *fileNode) Info() (fs.FileInfo, error) { return nil, errNoDir }

var errNoDir = errors.New("no such directory")
var fileRoot *fileNode // the current directory

// mReadDir stands for os.ReadDir
func mReadDir(path string) ([]os.DirEntry, error) {
	d := findDir(path)
	if d == nil {
		return nil, errNoDir
	}
	var es []os.DirEntry
	for _, k := range d.kids {
		es = append(es, k)
	}
	return es, nil
}

// findDir finds a directory by its path relative to the current one.
func findDir(path string) *fileNode {
	d := fileRoot
	for len(path) > 0 {
		i := 0
		for i < len(path) && path[i] != '/' {
			i++
		}
		part := path[:i]
		if i < len(path) {
			i++
		}
		path = path[i:]
		if part == "." || part == "" {
			continue
		}
		var next *fileNode
		for _, k := range d.kids {
			if k.name == part && k.mode != 0 {
				next = k
			}
		}
		if next == nil {
			return nil
		}
		d = next
	}
	return d
}

// makeTree creates the tree for real when the harness runs natively.
func makeTree() {
	if symSymbolic() {
		return
	}
	dir, err := os.MkdirTemp("", "verif-files-")
	if err != nil {
		panic(err)
	}
	symCleanups = append(symCleanups, func() {
		os.Chdir("/")
		os.RemoveAll(dir)
	})
	top := filepath.Join(dir, "t")
	makeNode(fileRoot, top, dir)
	if err := os.Chdir(top); err != nil {
		panic(err)
	}
}

func makeNode(f *fileNode, path, scratch string) {
	switch {
	case f.mode == fs.ModeSymlink: // to a directory outside the tree
		to, err := os.MkdirTemp(scratch, "link-")
		if err != nil {
			panic(err)
		}
		for _, k := range f.kids {
			makeNode(k, filepath.Join(to, k.name), scratch)
		}
		if err := os.Symlink(to, path); err != nil {
			panic(err)
		}
	case f.mode == fs.ModeDir:
		if err := os.Mkdir(path, 0o700); err != nil {
			panic(err)
		}
		for _, k := range f.kids {
			makeNode(k, filepath.Join(path, k.name), scratch)
		}
	default:
		if err := os.WriteFile(path, nil, 0o600); err != nil {
			panic(err)
		}
	}
}

var nodeModes = []fs.FileMode{0, fs.ModeDir, fs.ModeSymlink}

// symNodes: up to max entries with names in ascending order, as listed.
func symNodes(what string, max int, kinds string, names int) []*fileNode {
	var ns []*fileNode
	last := ""
	for k := symChoose(what, max+1); k > 0; k-- {
		name := string(compText("len", 1, names, kinds, symParam("letters", 2)))
		symAssume(name != "." && name != "..")
		symAssume(last < name)
		last = name
		ns = append(ns, &fileNode{name: name, mode: nodeModes[symChoose("mode", len(nodeModes))]})
	}
	return ns
}

// foldStr: whether s starts with p, ignoring case.
func foldStr(p, s string) bool { return foldPrefix([]rune(p), []rune(s)) }

// checkFiles: what is offered for a word made of a directory part and a base.
func checkFiles(dir, base string) {
	full, names := completion.File{}.List([]string{"cmd", dir + base})
	symObserveInt("offered", len(full))
	var wantFull, wantNames []string
	d := findDir(dir)
	if d != nil {
		var one *fileNode
		for _, k := range d.kids {
			if !foldStr(base, k.name) {
				continue
			}
			one = k
			wantFull, wantNames = offer(wantFull, wantNames, dir, k)
		}
		if len(wantFull) == 1 && one.mode != 0 {
			in := wantFull[0]
			for _, k := range one.kids {
				wantFull, wantNames = offer(wantFull, wantNames, in, k)
			}
			symReach("inside")
		}
	} else {
		symReach("unreadable")
	}
	if len(wantFull) > 0 {
		symReach("offered")
	}
	symAssert(eqStrs(full, wantFull), "the full names offered differ")
	symAssert(eqStrs(names, wantNames), "the base names offered differ")
}

func offer(full, names []string, dir string, k *fileNode) ([]string, []string) {
	sep := ""
	if k.mode != 0 {
		sep = "/"
	}
	return append(full, dir+k.name+sep), append(names, k.name+sep)
}

// HFiles: a directory with a few entries, and any word typed.
func HFiles() {
	sub := &fileNode{name: "sub", mode: fs.ModeDir}
	fileRoot = &fileNode{mode: fs.ModeDir}
	here := &fileNode{mode: fs.ModeDir, kids: symNodes("entries", symParam("entries", 2), "a", symParam("name", 2))}
	for _, k := range here.kids {
		if k.mode != 0 {
			k.kids = symNodes("inside", symParam("inside", 1), "a", 1)
		}
	}
	base := string(compText("base", 0, symParam("base", 2), "a", symParam("letters", 2)))
	dir := ""
	switch symChoose("dir", 5) {
	case 0:
		fileRoot = here
	case 1:
		fileRoot = here
		dir = "./"
	case 2:
		sub.kids = here.kids
		fileRoot.kids = []*fileNode{sub}
		dir = "sub/"
	case 3:
		sub.kids = here.kids
		fileRoot.kids = []*fileNode{sub}
		dir = "./sub//"
	case 4:
		fileRoot = here
		dir = "zzz/"
	}
	makeTree()
	checkFiles(dir, base)
	symReach("done")
}

// HFilesHidden: names with dots, spaces and letters of two bytes.
func HFilesHidden() {
	fileRoot = &fileNode{mode: fs.ModeDir, kids: symNodes("entries", symParam("entries", 2), "a. l", symParam("name", 2))}
	base := string(compText("base", 0, symParam("base", 2), "a. l", 1))
	makeTree()
	if symBool("none") {
		full, names := completion.File{}.List(nil)
		symAssert(len(full) == 0 && len(names) == 0, "something offered for no word")
		symReach("done")
		return
	}
	checkFiles("", base)
	symReach("done")
}

// HFilesFold: names and words with letters of more than two spellings, or of
// spellings that differ in their length in bytes.
func HFilesFold() {
	class := oddCases[symChoose("class", symParam("classes", 7))]
	letter := func() rune { return class[symChoose("letter", len(class))] }
	fileRoot = &fileNode{mode: fs.ModeDir}
	last := ""
	for k := 1 + symChoose("entries", symParam("entries", 2)); k > 0; k-- {
		name := string(append([]rune{letter()}, compText("len", 0, symParam("len", 1), "a", 2)...))
		symAssume(last < name)
		last = name
		fileRoot.kids = append(fileRoot.kids, &fileNode{name: name, mode: nodeModes[symChoose("mode", len(nodeModes))]})
	}
	makeTree()
	base := []rune{letter()}
	if symBool("more") {
		base = append(base, compLetter(1))
	}
	checkFiles("", string(base))
}
