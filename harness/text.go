package main

import (
	"math/rand"
	"strconv"
	"strings"
	"unicode/utf8"
)

// Text is a Go string. In JSON it is the array of its decoded characters: a
// code point, or -b for a byte b that is not part of valid UTF-8.
type Text string

func (t Text) MarshalJSON() ([]byte, error) {
	b := make([]byte, 0, 4*len(t)+2)
	b = append(b, '[')
	s := string(t)
	first := true
	for i := 0; i < len(s); {
		r, n := utf8.DecodeRuneInString(s[i:])
		v := int64(r)
		if r == utf8.RuneError && n == 1 {
			v = -int64(s[i])
		}
		if !first {
			b = append(b, ',')
		}
		first = false
		b = strconv.AppendInt(b, v, 10)
		i += n
	}
	return append(b, ']'), nil
}

func (t *Text) UnmarshalJSON(b []byte) error {
	var sb strings.Builder
	for _, f := range strings.FieldsFunc(string(b), func(r rune) bool { return r == '[' || r == ']' || r == ',' || r == ' ' || r == '\n' }) {
		v, err := strconv.Atoi(f)
		if err != nil {
			return err
		}
		if v < 0 {
			sb.WriteByte(byte(-v))
		} else {
			sb.WriteRune(rune(v))
		}
	}
	*t = Text(sb.String())
	return nil
}

func chars(s string) int {
	return utf8.RuneCountInString(s)
}

// ---- random texts ----

type rng struct{ *rand.Rand }

func newRng(seed int64) *rng { return &rng{rand.New(rand.NewSource(seed))} }

func (r *rng) pick(ss ...string) string { return ss[r.Intn(len(ss))] }
func (r *rng) chance(p float64) bool    { return r.Float64() < p }
func (r *rng) between(a, b int) int     { return a + r.Intn(b-a+1) }
func (r *rng) cp(a, b int) string       { return string(rune(r.between(a, b))) }

// one representative-rich alphabet of pieces
func (r *rng) piece() string {
	switch r.Intn(30) {
	case 0, 1, 2, 3:
		return r.cp('a', 'z')
	case 4:
		return r.cp(0x20, 0x7e)
	case 5:
		return r.cp(0x3041, 0x3096) // hiragana
	case 6:
		return r.cp(0x4e00, 0x9fff)
	case 7:
		return r.pick("☆", "①", "±", "│", "α", "Я", "…", "″", "♥", "§", "°")
	case 8:
		return r.pick("é", "ß", "ñ", "Ω", "ｱ", "￦", "Ａ", "！", "⟦")
	case 9:
		return r.cp(0x300, 0x36f)
	case 10:
		return r.pick("\u200d", "\ufe0f", "\ufe0e", "\u200b", "\u200c", "\ufeff", "\u00ad", "\u2060")
	case 11:
		return r.pick("👩", "👨", "👧", "🍳", "😀", "☺", "❤", "👁", "⌚", "©", "‼", "🏳", "🌈", "♂")
	case 12:
		return r.cp(0x1f3fb, 0x1f3ff)
	case 13:
		return r.cp(0x1f1e6, 0x1f1ff)
	case 14:
		return r.cp(0x1100, 0x115f) // L
	case 15:
		return r.cp(0x1160, 0x11a7) // V
	case 16:
		return r.cp(0x11a8, 0x11ff) // T
	case 17:
		return r.cp(0xac00, 0xd7a3) // LV, LVT
	case 18:
		return r.pick("\u0903", "\u093e", "\u0e33", "\u0bbf", "\u17b6") // spacing marks
	case 19:
		return r.pick("\u0600", "\u06dd", "\u070f", "\u0d4e", "\U000110bd", "\U000111c2") // prepend
	case 20:
		return r.pick("\u0e31", "\u0e34", "\u093c", "\u0941", "\u05b0", "\u20dd", "\u3099") // extend
	case 21:
		return r.pick("\r", "\n", "\r\n", "\t", "\x00", "\x07", "\x7f", "\u0085", "\u2028", "\u0080", "\u009f")
	case 22, 23:
		return r.escape()
	case 24:
		return r.badUTF8()
	case 25:
		return r.anyRune()
	case 26:
		return " "
	case 27:
		return r.pick("⸺", "⸻", "가", "각", "ힰ", "ᄀ", "ꥠ")
	default:
		return r.cp('0', '9')
	}
}

func (r *rng) anyRune() string {
	for {
		c := r.Intn(0x110000)
		switch r.Intn(4) {
		case 0:
			c = r.Intn(0x3000)
		case 1:
			c = r.Intn(0x10000)
		case 2:
			c = 0x1f000 + r.Intn(0x1000)
		}
		if c < 0xd800 || c > 0xdfff {
			return string(rune(c))
		}
	}
}

func (r *rng) badUTF8() string {
	return r.pick("\xff", "\x80", "\xbf", "\xc3", "\xe3\x81", "\xf0\x9f\x98", "\xed\xa0\x80", "\xc0\x80", "\xf5", "\x9b", "\xe3", "\xf8\x88")
}

// escape sequences, complete or not, with either introducer
func (r *rng) escape() string {
	intro := "\x1b"
	if r.chance(0.25) {
		intro = "\u009b"
	}
	switch r.Intn(12) {
	case 0, 1, 2:
		return intro + "[" + strconv.Itoa(r.Intn(108)) + "m"
	case 3:
		return intro + "[38;5;" + strconv.Itoa(r.Intn(256)) + "m"
	case 4:
		return intro + "[" + r.pick("38", "48") + ";2;" + strconv.Itoa(r.Intn(256)) + ";" + strconv.Itoa(r.Intn(256)) + ";" + strconv.Itoa(r.Intn(256)) + "m"
	case 5:
		return intro + "[" + r.pick("m", "K", "2J", "H", "?25l", "?25h", "10;20H", "1A", "s", "u", "6n", "0c", "!p", ">c")
	case 6:
		return intro + r.pick("M", "D", "E", "7", "8", "=", ">", "c", "(B", ")0", "#8", "Z", "N", "P", "]0;t", "\\")
	}
	// random shape
	var sb strings.Builder
	sb.WriteString(intro)
	for r.chance(0.6) {
		sb.WriteString(r.pick("[", "[", "[", "(", ")", "#", ";", "?"))
	}
	if r.chance(0.7) {
		for i, n := 0, r.Intn(6); i < n; i++ {
			sb.WriteString(r.cp('0', '9'))
		}
		for r.chance(0.5) {
			sb.WriteByte(';')
			for i, n := 0, r.Intn(6); i < n; i++ {
				sb.WriteString(r.cp('0', '9'))
			}
		}
	}
	if r.chance(0.8) {
		sb.WriteString(r.cp(0x20, 0x7e))
	}
	return sb.String()
}

// text gives a random text of about n pieces
func (r *rng) text(n int) string {
	var sb strings.Builder
	for i := 0; i < n; i++ {
		p := r.piece()
		sb.WriteString(p)
		if r.chance(0.06) {
			k := 1
			if r.chance(0.2) {
				k = r.Intn(20)
			}
			sb.WriteString(strings.Repeat(p, k))
		}
	}
	return sb.String()
}

func (r *rng) length() int {
	switch x := r.Intn(100); {
	case x < 4:
		return 0
	case x < 70:
		return r.between(1, 6)
	case x < 95:
		return r.between(5, 16)
	default:
		return r.between(16, 60)
	}
}

// simple text: ASCII and wide letters, no escapes, no joining; usable anywhere
func (r *rng) simple(max int) string {
	if r.chance(0.25) {
		if t := r.token(); len(t) <= max {
			return t
		}
	}
	n := r.Intn(max + 1)
	var sb strings.Builder
	for i := 0; i < n; i++ {
		if r.chance(0.15) {
			sb.WriteString(r.cp(0x3041, 0x3096))
		} else {
			sb.WriteString(r.cp('a', 'z'))
		}
	}
	return sb.String()
}

// token: what cells usually hold
func (r *rng) token() string {
	n := func() string { return strconv.Itoa(r.Intn([]int{10, 100, 10000, 100000000}[r.Intn(4)])) }
	switch r.Intn(22) {
	case 0, 1, 2:
		return n()
	case 3:
		return r.pick("-", "+", "$", "#", "~", "€", ".", "/", "0x", "<", "*", "@", "'", "\"", "\\", "&", "%", "^", "(", "{", "=", "`") + n()
	case 4:
		return n() + r.pick("%", "K", "M", "k", "B", " GB", "MiB", "s", "ms", "h", "°", "px", ".", ",", ":", "/")
	case 5:
		return n() + r.pick(".", ",", ":", "-", "/", "e", "_", " ") + n()
	case 6:
		return r.pick("true", "false", "yes", "no", "nil", "null", "none", "n/a", "N/A", "NaN", "inf", "ok", "-", "--", "*", "?")
	case 7:
		return r.pick("2024-01-02", "12:34:56", "1m30s", "Mon", "UTC", "12:34")
	case 8:
		return r.pick("-rw-r--r--", "drwxr-xr-x", "root", "/usr/bin", "a.txt", ".git", "..", "C:\\x", "a/b", "main.go", "~")
	case 9:
		return " " + r.pick("", "x", "12", " ", "x ")
	case 10:
		return r.pick("x", "12", "ab") + r.pick(" ", "  ")
	case 11:
		return r.pick("a b", "two words", "a  b", "x, y", "k=v", "a|b", "a\tb", "(x)", "[y]", "<z>", "{}", "%s", "%d", "%!", "\\n", "$HOME", "&amp;", "<b>")
	case 12:
		return strings.ToUpper(r.pick("abc", "xyz", "id", "name"))
	case 13:
		return r.pick("Größe", "naïve", "Ærø", "Жук", "λ", "Ωmega", "été", "İ", "ß")
	case 14:
		return r.cp(0x21, 0x7e) + r.cp(0x21, 0x7e)
	default:
		return r.cp(0x20, 0x7e)
	}
}

// mixed text for cells: simple, coloured, or anything (single line)
func (r *rng) cell(max int) string {
	switch r.Intn(6) {
	case 0:
		return ""
	case 1:
		return "\x1b[" + strconv.Itoa(30+r.Intn(8)) + "m" + r.simple(max) + "\x1b[0m"
	case 2:
		return oneLine(r.text(r.Intn(max + 1)))
	default:
		return r.simple(max)
	}
}

func oneLine(s string) string {
	// also without truncated UTF-8, which could combine with what follows
	var sb strings.Builder
	for i := 0; i < len(s); {
		c, n := utf8.DecodeRuneInString(s[i:])
		switch {
		case c == utf8.RuneError && n == 1:
			sb.WriteByte(0xff)
		case c == '\n' || c == '\r':
			sb.WriteByte('.')
		default:
			sb.WriteString(s[i : i+n])
		}
		i += n
	}
	return sb.String()
}
