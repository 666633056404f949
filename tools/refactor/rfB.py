R='/tmp/rf2/'
def ed(f,*prs):
    s=open(R+f).read()
    for a,b in prs:
        assert a in s,(f,a)
        s=s.replace(a,b)
    open(R+f,'w').write(s)
ed('color.go',('''	_n, err := io.WriteString(w, "\\x1B[")
	n := int64(_n)
	if err != nil {
		return n, err
	}
	count := c & colorCodeMask
	for {
		c >>= colorCodeBitSize
		_n, err = fmt.Fprintf(w, "%d", c&colorCodeMask)
		n += int64(_n)
		if err != nil {
			return n, err
		}
		count--
		if count <= 0 {
			break
		}
		_n, err = w.Write([]byte{';'})
		n += int64(_n)
		if err != nil {
			return n, err
		}
	}
	_n, err = w.Write([]byte{'m'})
	n += int64(_n)
	return n, err
''','''	var n int64
	emit := func(s string) error {
		k, err := io.WriteString(w, s)
		n += int64(k)
		return err
	}
	if err := emit("\\x1B["); err != nil {
		return n, err
	}
	for i := c & colorCodeMask; ; i-- {
		c >>= colorCodeBitSize
		if err := emit(strconv.FormatInt(int64(c&colorCodeMask), 10)); err != nil {
			return n, err
		}
		if i <= 1 {
			break
		}
		if err := emit(";"); err != nil {
			return n, err
		}
	}
	err := emit("m")
	return n, err
'''),('	"fmt"\n	"io"\n','	"io"\n	"strconv"\n'),
('''	return ColorSequence(4) |
		(ColorSequence(n1) << colorCodeBitSize) |
		(ColorSequence(n2) << (colorCodeBitSize * 2)) |
		(ColorSequence(n3) << (colorCodeBitSize * 3)) |
		(ColorSequence(n4) << (colorCodeBitSize * 4))''','''	return pack(n1, n2, n3, n4)'''),
('''	return ColorSequence(3) |
		(ColorSequence(n1) << colorCodeBitSize) |
		(ColorSequence(n2) << (colorCodeBitSize * 2)) |
		(ColorSequence(n3) << (colorCodeBitSize * 3))''','''	return pack(n1, n2, n3)'''),
('''func SGR1(''','''func pack(params ...int) ColorSequence {
	seq := ColorSequence(len(params))
	for i, p := range params {
		seq |= ColorSequence(p) << uint(colorCodeBitSize*(i+1))
	}
	return seq
}

func SGR1('''))
ed('completion/main.go',('''	common := list[0]
	var cr, fr *strings.Reader
''','''	common := []rune(list[0])
'''),('''	for index, f := range list[1:] {
		if cr != nil {
			cr.Reset(common)
		} else {
			cr = strings.NewReader(common)
		}
		if fr != nil {
			fr.Reset(f)
		} else {
			fr = strings.NewReader(f)
		}
		i := 0
		var buffer strings.Builder
		for {
			ch, _, err := cr.ReadRune()
			if err != nil {
				break
			}
			fh, _, err := fr.ReadRune()
			if err != nil || !strings.EqualFold(string(ch), string(fh)) {
				break
			}
			buffer.WriteRune(ch)
			i++
		}
		common = buffer.String()
		if''','''	for index, f := range list[1:] {
		common = common[:matchLen(common, []rune(f))]
		if'''),
('''	rest := utf8.RuneCountInString(common)
	for i := range list[minimumIndex] {
		if rest <= 0 {
			return list[minimumIndex][:i]
		}
		rest--
	}
	return list[minimumIndex]
}
''','''	shortest := []rune(list[minimumIndex])
	if len(shortest) > len(common) {
		shortest = shortest[:len(common)]
	}
	return string(shortest)
}

func matchLen(a, b []rune) int {
	n := 0
	for n < len(a) && n < len(b) && strings.EqualFold(string(a[n]), string(b[n])) {
		n++
	}
	return n
}
'''),
('''	var buffer strings.Builder
	for _, c := range s {
		if !strings.ContainsRune(q, c) {
			buffer.WriteRune(c)
		}
	}
	return buffer.String()
''','''	return strings.Map(func(c rune) rune {
		if strings.ContainsRune(q, c) {
			return -1
		}
		return c
	}, s)
'''),
('''	for i, name := range full {
		if hasPrefixFold(name, source) {
			newFull = append(newFull, name)
			newBase = append(newBase, base[i])
		}
	}
	return
''','''	matches := func(name string) bool {
		return hasPrefixFold(name, source)
	}
	for i := 0; i < len(full); i++ {
		if !matches(full[i]) {
			continue
		}
		newFull, newBase = append(newFull, full[i]), append(newBase, base[i])
	}
	return newFull, newBase
'''),
('''	for _, s := range list {
		if strings.ContainsAny(s, spaceAndSoOn) {
			return true
		}
	}
	return false''','''	return slices.IndexFunc(list, func(s string) bool { return strings.ContainsAny(s, spaceAndSoOn) }) >= 0'''),('	"context"\n','	"context"\n	"slices"\n'),
('''	if strings.EqualFold(fields[len(fields)-1], prefix) {
		B.Out.WriteByte('\\a')
		return baselist
	} else {
		if len(quotes) > 0 && hasToInsertQuotation(list, " \\t\\r\\n\\v\\f"+del) {
			prefix = string(quotes[0]) + prefix
		}
		B.ReplaceAndRepaint(lastWordStart, prefix)
		return nil
	}
''','''	if !strings.EqualFold(prefix, fields[len(fields)-1]) {
		if quotes != "" && hasToInsertQuotation(list, " \\t\\r\\n\\v\\f"+del) {
			prefix = quotes[:1] + prefix
		}
		B.ReplaceAndRepaint(lastWordStart, prefix)
		return nil
	}
	io.WriteString(B.Out, "\\a")
	return baselist
'''),('	"slices"\n','	"io"\n	"slices"\n'))
ed('completion/file.go',('''			if name == "." || name == ".." {
				continue
			}
			if !hasPrefixFold(name, base) {
				continue
			}
''','''			if !acceptable(name, base) {
				continue
			}
'''),('''func (File) List(''','''func acceptable(name, base string) bool {
	switch name {
	case ".", "..":
		return false
	}
	return hasPrefixFold(name, base)
}

func (File) List('''),
('''	var sep string
	if strings.ContainsRune(target, '/') {
		sep = "/"
	} else {
		sep = string(os.PathSeparator)
	}
''','''	sep := string(rune(os.PathSeparator))
	if strings.IndexByte(target, '/') >= 0 {
		sep = "/"
	}
'''),('''d.Type() & (os.ModeDir | os.ModeSymlink)) != 0''','''d.Type()&os.ModeDir) != 0 || (d.Type()&os.ModeSymlink) != 0'''))
ed('keymap.go',('''	if km.table == nil {
		return nil, false
	}
	f, ok := km.table[key]
	return f, ok''','''	f, ok := km.table[key]
	if !ok {
		return nil, false
	}
	return f, true'''))
ed('coloring/vimbatch.go',('''	color := readline.DefaultForeGroundColor
	if codepoint == '\\u3000' {
		color = readline.SGR3(37, 22, 41)
	} else if ((s.bits | newbits) & envArea) != 0 {
		color = readline.Cyan
	} else if ((s.bits | newbits) & quotedArea) != 0 {
		color = readline.Magenta
	} else if codepoint == '&' {
		color = readline.DarkYellow
	} else {
		color = readline.DefaultForeGroundColor
	}
	s.bits = newbits
	return color
''','''	either := s.bits | newbits
	s.bits = newbits
	switch {
	case codepoint == 0x3000:
		return readline.SGR3(37, 22, 41)
	case either&envArea != 0:
		return readline.Cyan
	case either&quotedArea != 0:
		return readline.Magenta
	case codepoint == '&':
		return readline.DarkYellow
	}
	return readline.DefaultForeGroundColor
'''))
ed('tty8.go',('''		for {
			wh, ok := <-ws
			if !ok {
				break
			}
			if lastw != wh.W {
				onResize(wh.W)
				lastw = wh.W
			}
		}
''','''		for wh := range ws {
			if wh.W == lastw {
				continue
			}
			lastw = wh.W
			onResize(lastw)
		}
'''),('''	var top string
	top, m.buf = m.buf[0], m.buf[1:]
	return top, nil''','''	top := m.buf[0]
	m.buf = append([]string(nil), m.buf[1:]...)
	return top, nil'''))
ed('tty10/main.go',('''	var result string
	r, size := utf8.DecodeRune(M.buf)
	if r == '\\x1B' {
		result = string(M.buf)
		M.buf = nil
	} else {
		result = string(M.buf[:size])
		M.buf = M.buf[size:]
	}
	return result, nil
''','''	size := len(M.buf)
	if M.buf[0] != 0x1B {
		_, size = utf8.DecodeRune(M.buf)
	}
	result := string(M.buf[:size])
	M.buf = M.buf[size:]
	return result, nil
'''))
ed('keys/naming.go',('''	return strings.Replace(strings.ToUpper(src), "-", "_", -1)''','''	return strings.ReplaceAll(strings.ToUpper(src), "-", "_")'''))
ed('nameutils/main.go',('''	f, ok := readline.NameToFunc[keys.NormalizeName(name)]
	if ok {
		return f, nil
	}
	return nil,''','''	if f := readline.NameToFunc[keys.NormalizeName(name)]; f != nil {
		return f, nil
	}
	return nil,'''))
ed('internal/moji/width.go',('''	w := WidthT(3) // '<' + 1-digit + '>'
	for c > 0xF {
		c >>= 4
		w++
	}
	return w
''','''	return WidthT(len(strconv.FormatInt(int64(c), 16))) + 2
'''),('''import (
''','''import (
	"strconv"
'''),('''	return unicode.Is(unicode.Variation_Selector, ch) ||
		unicode.Is(unicode.Me, ch)''','''	return unicode.In(ch, unicode.Variation_Selector, unicode.Me)'''))
ed('internal/moji/moji.go',('''	for len(s) > 0 {
		r, size := utf8.DecodeRuneInString(s)
		s = s[size:]

		if last != nil {
			if next, nextsize := utf8.DecodeRuneInString(s); isZeroWidthJoin(r) && nextsize > 0 && !unicode.IsControl(next) {
				s = s[nextsize:]

				last = _ZeroWidthJoinSequence([...]Moji{last, _RawCodePoint(next)})
				mojis[len(mojis)-1] = last
				pos = lastPos + int(last.Width())
				continue
			}
			if isVariationSelectorLike(r) {
				last = _VariationSequence([...]Moji{last, _RawCodePoint(r)})
				mojis[len(mojis)-1] = last
				pos = lastPos + int(last.Width())
				continue
			}
			if isEmojiModifier(r) {
				last = _ModifierSequence([...]Moji{last, _RawCodePoint(r)})
				mojis[len(mojis)-1] = last
				pos = lastPos + int(last.Width())
				continue
			}
		}
''','''	replaceLast := func(m Moji) {
		last = m
		mojis[len(mojis)-1] = m
		pos = lastPos + int(m.Width())
	}
	for len(s) > 0 {
		r, size := utf8.DecodeRuneInString(s)
		s = s[size:]

		if last != nil {
			if isZeroWidthJoin(r) && len(s) > 0 {
				if next, nextsize := utf8.DecodeRuneInString(s); !unicode.IsControl(next) {
					s = s[nextsize:]
					replaceLast(_ZeroWidthJoinSequence{last, _RawCodePoint(next)})
					continue
				}
			}
			switch {
			case isVariationSelectorLike(r):
				replaceLast(_VariationSequence{last, _RawCodePoint(r)})
				continue
			case isEmojiModifier(r):
				replaceLast(_ModifierSequence{last, _RawCodePoint(r)})
				continue
			}
		}
'''),
('''	for i := WidthT(0); i < n; i++ {
		w.Write([]byte{' '})
	}
	w.Write([]byte{'\\x1B', '7'})
	for i := WidthT(0); i < n; i++ {
		w.Write([]byte{'\\b'})
	}
''','''	io.WriteString(w, strings.Repeat(" ", int(n)))
	io.WriteString(w, "\\x1B7")
	io.WriteString(w, strings.Repeat("\\b", int(n)))
'''),('	"io"\n','	"io"\n	"strings"\n'))
ed('internal/moji/codepoint.go',('''	w.Write([]byte{'^', byte('A' + (byte(c) - 1))})''','''	fmt.Fprintf(w, "^%c", '@'+rune(c))'''),
('''	if ch == '\\t' {
		return &Tab{pos: int16(pos)}
	} else if ch < ' ' {
		return _CtrlCodePoint(ch)
	} else if boxDrawingBegin <= ch && ch <= boxDrawingEnd && AmbiguousIsWide {
		return _WavingWhiteFlagCodePoint(ch)
	} else if isToBeEscaped(ch) {
		return _EscCodePoint(ch)
	} else if regionalIndicatorBegin <= ch && ch <= regionalIndicatorEnd {
		return _RegionalIndicator(ch)
	} else if mathematicalBoldCapitalBegin <= ch && ch <= mathematicalBoldCapitalEnd {
		return _WavingWhiteFlagCodePoint(ch)
	} else if ch == wavingWhiteFlagCodePoint {
		return _WavingWhiteFlagCodePoint(ch)
	} else {
		return _RawCodePoint(ch)
	}
''','''	between := func(lo, hi rune) bool { return lo <= ch && ch <= hi }
	switch {
	case ch == '\\t':
		return &Tab{pos: int16(pos)}
	case ch < ' ':
		return _CtrlCodePoint(ch)
	case AmbiguousIsWide && between(boxDrawingBegin, boxDrawingEnd):
		return _WavingWhiteFlagCodePoint(ch)
	case isToBeEscaped(ch):
		return _EscCodePoint(ch)
	case between(regionalIndicatorBegin, regionalIndicatorEnd):
		return _RegionalIndicator(ch)
	case between(mathematicalBoldCapitalBegin, mathematicalBoldCapitalEnd), ch == wavingWhiteFlagCodePoint:
		return _WavingWhiteFlagCodePoint(ch)
	}
	return _RawCodePoint(ch)
'''))
