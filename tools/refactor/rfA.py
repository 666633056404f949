import re
R='/tmp/rf/'
def ed(f,*prs):
    s=open(R+f).read()
    for a,b in prs:
        assert a in s,(f,a)
        s=s.replace(a,b)
    open(R+f,'w').write(s)
ed('slice.go',('''	// expand buffer (elements... is dummy)
	slice = append(slice, elements...)

	// shift
	copy(slice[at+len(elements):], slice[at:])

	// copy elements
	copy(slice[at:at+len(elements)], elements)

	return slice''','''	return slices.Insert(slice, at, elements...)'''),('package readline\n','package readline\n\nimport "slices"\n'),
('''	copy(slice[at:], slice[at+n:])
	return slice[:len(slice)-n]''','''	return append(slice[:at], slice[at+n:]...)'''))
ed('buffer.go',
('''	var buffer strings.Builder
	for _, m1 := range m {
		m1.Moji.WriteTo(&buffer)
	}
	return buffer.String()
''','''	var buffer bytes.Buffer
	for i := 0; i < len(m); i++ {
		m[i].Moji.WriteTo(&buffer)
	}
	return buffer.String()
'''),
('import (\n','import (\n\t"bytes"\n'),
('''	view := B.Buffer[B.ViewStart:]
	width := B.ViewWidth()
	w := WidthT(0)
	for i, c := range view {
		_w := w
		w += c.Moji.Width()
		if w >= width {
			return view[:i], _w
		}
	}
	return view, w
''','''	limit := B.ViewWidth()
	end, total := B.ViewStart, WidthT(0)
	for end < len(B.Buffer) {
		next := total + B.Buffer[end].Moji.Width()
		if next >= limit {
			break
		}
		total = next
		end++
	}
	return B.Buffer[B.ViewStart:end], total
'''),
('''	for i := B.History.Len() - 1; i >= 0; i-- {
		h := B.History.At(i)
		if strings.HasPrefix(h, current) {
			return h[len(current):]
		}
	}
	return ""
''','''	for n := B.History.Len(); n > 0; {
		n--
		if rest := strings.TrimPrefix(B.History.At(n), current); len(rest) < len(B.History.At(n)) || current == "" {
			return rest
		}
	}
	return ""
'''),
('''	B.Buffer = sliceInsert(B.Buffer, csrPos, insStr...)
	B.resetTabPosition()

	u := &_Undo{
		pos: csrPos,
		del: len(insStr),
	}
	B.undoes = append(B.undoes, u)
''','''	B.pushUndo(csrPos, len(insStr), nil)
	B.Buffer = sliceInsert(B.Buffer, csrPos, insStr...)
	B.resetTabPosition()
'''),
('''	u := &_Undo{
		pos:  pos,
		text: cloneCells(B.Buffer[pos : pos+n]),
	}
	B.undoes = append(B.undoes, u)

	delw''','''	B.pushUndo(pos, 0, B.Buffer[pos:pos+n])
	delw'''),
('''func mojis2cells''','''func (B *Buffer) pushUndo(pos, del int, text []Cell) {
	u := new(_Undo)
	u.pos, u.del = pos, del
	if text != nil {
		u.text = cloneCells(text)
	}
	B.undoes = append(B.undoes, u)
}

func mojis2cells'''),
('''	return append([]Cell{}, cells...)''','''	c := make([]Cell, len(cells))
	copy(c, cells)
	return c'''),
('''	cells := make([]Cell, 0, len(mojis))
	for _, m := range mojis {
		cells = append(cells, Cell{Moji: m})
	}
	return cells''','''	cells := make([]Cell, len(mojis))
	for i := range mojis {
		cells[i].Moji = mojis[i]
	}
	return cells'''),
('''			if quotedchar == '\\000' {
				if strings.ContainsRune(Delimiters, ch) {
					quotedchar = ch
				}
			} else if ch == quotedchar {
				quotedchar = '\\000'
			}
''','''			switch {
			case quotedchar == 0 && strings.IndexRune(Delimiters, ch) >= 0:
				quotedchar = ch
			case quotedchar != 0 && ch == quotedchar:
				quotedchar = 0
			}
'''),
('''	color := ColorSequence(-1)
	for _, ch := range s {
		if ch.color != color {
			color = ch.color
			color.WriteTo(B.Out)
		}
		ch.Moji.PrintTo(B.Out)
	}
''','''	color := ColorSequence(-1)
	emit := func(c ColorSequence) {
		if c == color {
			return
		}
		color = c
		c.WriteTo(B.Out)
	}
	for i := range s {
		cell := &s[i]
		emit(cell.color)
		cell.Moji.PrintTo(B.Out)
	}
'''),
('''	if len(u1.text) > 0 && len(u2.text) > 0 {
		return
	}
	if u1.del != 0 && u2.del != 0 {
		return
	}
''','''	if (len(u1.text) > 0 && len(u2.text) > 0) || (u1.del != 0 && u2.del != 0) {
		return
	}
'''),
)
ed('repaints.go',
('''	fmt.Fprintf(B.Out, "\\x1B[%dG", B.topColumn+1)''','''	B.Out.WriteString("\\x1B[")
	B.Out.Write(strconv.AppendInt(nil, int64(B.topColumn)+1, 10))
	B.Out.WriteByte('G')'''),('"fmt"\n\t"io"\n','"io"\n\t"strconv"\n'),
('''		for _, c := range B.Suffix() {
			w += c.Width()
			if w >= B.ViewWidth() {
				break
			}
			c.PrintTo(B.Out)
		}
''','''		B.putsSuffix(w)
'''),
('''// DrawFromHead''','''func (B *Buffer) putsSuffix(w WidthT) {
	suffix := B.Suffix()
	for len(suffix) > 0 {
		if w += suffix[0].Width(); w >= B.ViewWidth() {
			return
		}
		suffix[0].PrintTo(B.Out)
		suffix = suffix[1:]
	}
}

// DrawFromHead'''),
('''		prompt = strings.ReplaceAll(prompt, "\\n", "\\r")''','''		prompt = strings.Map(func(r rune) rune {
			if r == '\\n' {
				return '\\r'
			}
			return r
		}, prompt)'''),
('''			var cs ColorSequence
			for _, c := range tmpbuf.String() {
				cs = ColorSequence(B.Coloring.Next(c))
			}
			B.Buffer[i].color = cs
			tmpbuf.Reset()
''','''			B.Buffer[i].color = B.colorOf([]rune(tmpbuf.String()))
			tmpbuf.Reset()
'''),
('''// InsertAndRepaint ins''','''func (B *Buffer) colorOf(runes []rune) (cs ColorSequence) {
	for _, r := range runes {
		cs = ColorSequence(B.Coloring.Next(r))
	}
	return cs
}

// InsertAndRepaint ins'''),
)
ed('gommand.go',
('''		if this.Cursor < 2 {
			return CONTINUE
		}
		u := &_Undo{
			pos:  this.Cursor - 2,
			del:  2,
			text: cloneCells(this.Buffer[this.Cursor-2 : this.Cursor]),
		}
		this.undoes = append(this.undoes, u)
		this.Buffer[this.Cursor-2], this.Buffer[this.Cursor-1] = this.Buffer[this.Cursor-1], this.Buffer[this.Cursor-2]
		this.resetTabPosition()
		this.ResetViewStart()
		this.repaint()
	} else {
		if this.Cursor < 1 {
			return CONTINUE
		}
		u := &_Undo{
			pos:  this.Cursor - 1,
			del:  2,
			text: cloneCells(this.Buffer[this.Cursor-1 : this.Cursor+1]),
		}
		this.undoes = append(this.undoes, u)

		this.Buffer[this.Cursor-1], this.Buffer[this.Cursor] = this.Buffer[this.Cursor], this.Buffer[this.Cursor-1]
		this.Cursor++
		this.resetTabPosition()
		this.ResetViewStart()
		this.repaint()
	}
	return CONTINUE''','''		if this.Cursor >= 2 {
			this.swapAt(this.Cursor-2, this.Cursor)
		}
	} else if this.Cursor >= 1 {
		this.swapAt(this.Cursor-1, this.Cursor+1)
	}
	return CONTINUE'''),
('''// CmdBackwardWord is''','''func (B *Buffer) swapAt(pos, cursor int) {
	pair := B.Buffer[pos : pos+2]
	B.pushUndo(pos, 2, pair)
	slices.Reverse(pair)
	B.Cursor = cursor
	B.resetTabPosition()
	B.RepaintAfterPrompt()
}

// CmdBackwardWord is'''),('"context"\n','"context"\n\t"slices"\n'),
('''	newPos := this.Cursor
	for newPos > 0 && moji.IsSpaceMoji(this.Buffer[newPos-1].Moji) {
		newPos--
	}
	for newPos > 0 && !moji.IsSpaceMoji(this.Buffer[newPos-1].Moji) {
		newPos--
	}
''','''	back := func(from int, space bool) int {
		for i := from - 1; i >= 0; i-- {
			if moji.IsSpaceMoji(this.Buffer[i].Moji) != space {
				return i + 1
			}
		}
		return 0
	}
	newPos := back(back(this.Cursor, true), false)
'''),
('''		for {
			if this.ViewStart <= 0 {
				break
			}
			_w := w + this.Buffer[this.ViewStart-1].Moji.Width()
			if _w >= this.ViewWidth() {
				break
			}
			w = _w
			this.ViewStart--
		}
''','''		for this.ViewStart > 0 {
			left := this.Buffer[this.ViewStart-1].Moji.Width()
			if w+left >= this.ViewWidth() {
				break
			}
			w += left
			this.ViewStart--
		}
'''),
('''	text = strings.TrimRight(text, "\\r\\n\\000")''','''	for strings.HasSuffix(text, "\\r") || strings.HasSuffix(text, "\\n") || strings.HasSuffix(text, "\\000") {
		text = text[:len(text)-1]
	}'''),
('''	if len(keys) == 2 && keys[0] == '\\x1B' { // for AltGr-shift
		keys = keys[1:]
	}''','''	if strings.HasPrefix(keys, "\\x1B") && len(keys) == 2 { // for AltGr-shift
		keys = strings.TrimPrefix(keys, "\\x1B")
	}'''),
('''	if this.Cursor > 0 {
		this.Cursor--
		this.Delete(this.Cursor, 1)
		if this.Cursor < this.ViewStart {
			this.ViewStart = this.Cursor
		}
		this.repaint()
	}
	return CONTINUE''','''	if this.Cursor <= 0 {
		return CONTINUE
	}
	this.Delete(this.Cursor-1, 1)
	if this.Cursor--; this.ViewStart > this.Cursor {
		this.ViewStart = this.Cursor
	}
	this.repaint()
	return CONTINUE'''),
)
ed('history.go',('''	CmdKillWholeLine.Func(ctx, this)
	if s := this.getHistory(); s != "" {
		this.InsertString(0, s)
		this.ViewStart = 0
		this.Cursor = 0
		CmdEndOfLine.Func(ctx, this)
	}
	return CONTINUE''','''	return this.showHistory(ctx)'''),
('''// CmdNextHistory is''','''func (B *Buffer) showHistory(ctx context.Context) Result {
	cmdKillWholeLine(ctx, B)
	s := B.getHistory()
	if len(s) == 0 {
		return CONTINUE
	}
	B.InsertString(0, s)
	B.ViewStart, B.Cursor = 0, 0
	return cmdEndOfLine(ctx, B)
}

// CmdNextHistory is'''),
('''	if this.History.Len() <= 0 {
		return CONTINUE
	}
	if this.historyPointer+1 > this.History.Len() {
		return CONTINUE
	}
''','''	if n := this.History.Len(); n <= 0 || this.historyPointer >= n {
		return CONTINUE
	}
'''))
ed('isearch.go',('''			searchBuf.Reset()
			// chop last char
			var lastchar rune
			for i, c := range searchStr {
				if i > 0 {
					searchBuf.WriteRune(lastchar)
				}
				lastchar = c
			}
			searchStr = searchBuf.String()
''','''			if _, size := utf8.DecodeLastRuneInString(searchStr); size > 0 {
				searchStr = searchStr[:len(searchStr)-size]
			}
			searchBuf.Reset()
			searchBuf.WriteString(searchStr)
'''),
('''		for i := this.History.Len() - 1; ; i-- {
			if i < 0 {
				foundStr = ""
				break
			}
			line := this.History.At(i)
			if caseInsensitiveStringContains(line, searchStr) {
				foundStr = line
				lastFoundPos = i
				break
			}
		}
''','''		foundStr = ""
		for i := this.History.Len() - 1; i >= 0; i-- {
			if line := this.History.At(i); caseInsensitiveStringContains(line, searchStr) {
				foundStr, lastFoundPos = line, i
				return
			}
		}
'''),
('''fmt.Sprintf("(i-search)[%s]:%s", searchStr, foundStr)''','''strings.Join([]string{"(i-search)[", searchStr, "]:", foundStr}, "")'''),('	"fmt"\n',''))
ed('getkey.go',('''		buffer.WriteRune(r)
		if r == '\\x1B' {
			escape = true
		}
		if !(escape && tty.Buffered()) && buffer.Len() > 0 {
			return buffer.String(), nil
		}
''','''		escape = escape || r == '\\x1B'
		buffer.WriteRune(r)
		if escape && tty.Buffered() {
			continue
		}
		return buffer.String(), nil
'''))
ed('main.go',('''		key, err := editor.Tty.GetKey()
		editor.mutex.Lock()
''','''		key, err := editor.waitKey()
		editor.mutex.Lock()
'''),('''// ReadLine calls LineEditor''','''func (editor *Editor) waitKey() (string, error) {
	return editor.Tty.GetKey()
}

// ReadLine calls LineEditor'''),
('''			if rc == ENTER {
				return result, nil
			} else if rc == INTR {
				return result, CtrlC
			} else {
				return result, io.EOF
			}
''','''			switch rc {
			case ENTER:
				return result, nil
			case INTR:
				return result, CtrlC
			}
			return result, io.EOF
'''),
('''	buffer := make([]byte, 0, len(s)*2)
''','''	var buffer []byte
'''),
('''	for i, end := 0, len(s); i < end; i++ {
		r := s[i]
''','''	for _, r := range []byte(s) {
'''),
('''	mutex          sync.Mutex
''','''	mutex          sync.RWMutex
'''))
