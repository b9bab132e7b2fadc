package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"runtime"
	"strings"
	"sync"

	table "github.com/ilius/go-table"
	"github.com/ilius/go-table/runewidth"
)

// ---- C21: locale names; C22: the configuration at start-up ----

type Var struct {
	Set bool `json:"set"`
	V   Text `json:"v"`
}

type LocaleCase struct {
	K     string      `json:"k"` // "loc" or "start"
	All   Var         `json:"all"`
	Ctype Var         `json:"ctype"`
	Lang  Var         `json:"lang"`
	RW    Var         `json:"rw"`    // RUNEWIDTH_EASTASIAN
	Noise [][2]string `json:"noise"` // variables that must not matter
	Res   bool        `json:"res"`
	Got   Start       `json:"got"`
	done  bool
	err   string
	Outcome
}

// Start is what a fresh process reports.
type Start struct {
	Flag    bool  `json:"flag"`
	Strict  bool  `json:"strict"`
	Def     bool  `json:"def"`
	DefS    bool  `json:"defs"`
	New     bool  `json:"new"`
	NewS    bool  `json:"news"`
	IsEA    bool  `json:"isea"`
	Widths  []int `json:"widths"` // of an ambiguous character and an emoji, by every way to measure
	EWidths []int `json:"ewidths"`
	// conditions made after the package-wide flags were set to each configuration: their options and widths
	Later [][4]int `json:"later"`
}

func startupProbe() {
	s := Start{Flag: runewidth.EastAsianWidth, Strict: runewidth.StrictEmojiNeutral,
		Def: runewidth.DefaultCondition.EastAsianWidth, DefS: runewidth.DefaultCondition.StrictEmojiNeutral,
		IsEA: runewidth.IsEastAsian()}
	n := runewidth.NewCondition()
	s.New, s.NewS = n.EastAsianWidth, n.StrictEmojiNeutral
	all := func(c rune) []int {
		t := string(c)
		h := table.NewTable(nil)
		h.AddColumn(&table.Column{Name: "c", Title: t, Alignment: table.AlignmentRight})
		h.UpdateWidth(map[string]uint16{"c": 9})
		row, err := h.AlignFormattedItem([]string{t})
		if err != nil {
			panic(err)
		}
		return []int{runewidth.StringWidth(t), runewidth.DefaultCondition.StringWidth(t), runewidth.DefaultCondition.RuneWidth(c), n.RuneWidth(c), n.StringWidth(t),
			measure(t), 9 - strings.Count(table.AlignmentLeft(t, 9), " "), 9 - strings.Count(table.AlignmentRight(t, 9), " "), 9 - strings.Count(table.AlignmentCenter(t, 9), " "),
			9 - strings.Count(h.FormatHeader(""), " "), 9 - strings.Count(row[0], " ")}
	}
	s.Widths, s.EWidths = all('☆'), all('🌡')
	runewidth.CreateLUT()
	s.Widths = append(s.Widths, runewidth.StringWidth("☆"), runewidth.DefaultCondition.RuneWidth('☆'))
	s.EWidths = append(s.EWidths, runewidth.StringWidth("🌡"), runewidth.DefaultCondition.RuneWidth('🌡'))
	for _, f := range fourConfs {
		runewidth.EastAsianWidth, runewidth.StrictEmojiNeutral = f[0], f[1]
		c := runewidth.NewCondition()
		l := [4]int{0, 0, c.RuneWidth('☆'), c.StringWidth("🌡")}
		if c.EastAsianWidth {
			l[0] = 1
		}
		if c.StrictEmojiNeutral {
			l[1] = 1
		}
		s.Later = append(s.Later, l)
	}
	b, _ := json.Marshal(s)
	fmt.Println(string(b))
}

func execLocale(x any) {
	c := x.(*LocaleCase)
	vars := c.vars()
	if c.K == "loc" {
		c.Got = Start{Widths: []int{}, EWidths: []int{}, Later: [][4]int{}}
		for _, n := range c.Noise {
			os.Setenv(n[0], n[1])
			defer os.Unsetenv(n[0])
		}
		for _, v := range vars {
			os.Unsetenv(v.n)
			if v.v.Set {
				os.Setenv(v.n, string(v.v.V))
			}
		}
		c.Res = runewidth.IsEastAsian()
		return
	}
	if !c.done {
		c.start()
	}
	if c.err != "" {
		panic(c.err)
	}
}

func (c *LocaleCase) vars() []envVar {
	return []envVar{{"LC_ALL", c.All}, {"LC_CTYPE", c.Ctype}, {"LANG", c.Lang}, {"RUNEWIDTH_EASTASIAN", c.RW}}
}

type envVar struct {
	n string
	v Var
}

// start asks a fresh process
func (c *LocaleCase) start() {
	c.done = true
	c.Got = Start{Widths: []int{}, EWidths: []int{}, Later: [][4]int{}}
	vars := c.vars()
	self, err := os.Executable()
	if err != nil {
		panic(err)
	}
	cmd := exec.Command(self, "startup-probe")
	cmd.Env = []string{"PATH=/usr/bin:/bin"}
	for _, v := range vars {
		if v.v.Set {
			cmd.Env = append(cmd.Env, v.n+"="+string(v.v.V))
		}
	}
	for _, n := range c.Noise {
		cmd.Env = append(cmd.Env, n[0]+"="+n[1])
	}
	out, err := cmd.CombinedOutput()
	if err != nil {
		c.err = fmt.Sprint(err, string(out))
		return
	}
	if err := json.Unmarshal(out, &c.Got); err != nil {
		c.err = fmt.Sprint(err)
	}
}

var charsets = []string{"UTF-8", "utf8", "utf-8", "UTF8", "Utf-8", "jis", "JIS", "eucJP", "EUCJP", "eucjp", "euc-jp", "eucKR", "euckr", "eucCN", "sjis", "SJIS", "Shift_JIS", "cp932", "CP932", "cp51932", "cp936", "cp949", "cp950", "cp951", "big5", "Big5", "BIG5HKSCS", "gbk", "GBK", "gb2312", "GB2312", "gb18030",
	"ISO-8859-1", "iso88591", "ISO-2022-JP", "koi8-r", "ascii", "US-ASCII", "", "u", "utf-16", "utf-80", "xutf-8", "eucjpx", "jis ", " jis", "jis.x", "cp93", "cp9322", "ujis", "uhc", "utf", "euctw", "eucTW"}
var languages = []string{"ja", "ko", "zh", "en", "de", "C", "POSIX", "c", "posix", "jpn", "kor", "zho", "chi", "jav", "kok", "zha", "yue", "fr", "aja", "enzh", "JA", "Ja", "j", "k", "zz", "japanese", "korean", "jaaa", "", "C-", "Cx", "CJ", "pt"}
var territories = []string{"", "_JP", "_KR", "_CN", "_TW", "_HK", "_US", "_jp", "_JPN", "_J", "_", "-JP", "_JP_x", "_Jp", "JP"}
var modifiers = []string{"", "@cjk_narrow", "@CJK_NARROW", "@Cjk_Narrow", "@cjk_wide", "@euro", "@", "@@cjk_narrow", "@x@cjk_narrow", "@cjk_narrowx", "@cjk_narrow@x", "cjk_narrow", "@ cjk_narrow", "@cjknarrow", ".cjk_narrow", "@cjk_narrow "}

func (r *rng) locale() string {
	switch r.Intn(12) {
	case 0: // only a charset
		return charsets[r.Intn(len(charsets))] + modifiers[r.Intn(len(modifiers))]
	case 1:
		return languages[r.Intn(len(languages))] + territories[r.Intn(len(territories))] + modifiers[r.Intn(len(modifiers))]
	case 2: // modifier in front of the charset
		return languages[r.Intn(5)] + territories[r.Intn(6)] + modifiers[r.Intn(4)] + "." + charsets[r.Intn(len(charsets))]
	}
	l := languages[r.Intn(len(languages))]
	if r.chance(0.6) {
		l = languages[r.Intn(5)]
	}
	t := territories[r.Intn(len(territories))]
	if r.chance(0.6) {
		t = territories[r.Intn(6)]
	}
	c := charsets[r.Intn(len(charsets))]
	if r.chance(0.2) {
		c = randCase(r, c)
	}
	m := ""
	if r.chance(0.4) {
		m = modifiers[r.Intn(len(modifiers))]
	}
	s := l + t + "." + c + m
	if r.chance(0.1) && len(s) > 1 { // a small change
		k := r.Intn(len(s))
		switch r.Intn(3) {
		case 0:
			s = s[:k] + s[k+1:]
		case 1:
			s = s[:k] + r.pick("a", "Z", "_", ".", "@", "-", " ", "1", "é", "\xff") + s[k:]
		case 2:
			s = s[:k] + r.pick("a", "Z", "_", ".", "@", "-", " ", "1", "あ", "\xff") + s[k+1:]
		}
	}
	return s
}

func randCase(r *rng, s string) string {
	b := []byte(s)
	for i := range b {
		if r.chance(0.5) {
			b[i] = strings.ToUpper(string(rune(b[i])))[0]
		} else {
			b[i] = strings.ToLower(string(rune(b[i])))[0]
		}
	}
	return string(b)
}

var noiseNames = strings.Fields(`LANGUAGE LC_MESSAGES LC_NUMERIC LC_TIME LC_COLLATE LC_MONETARY LC_PAPER LC_NAME LC_ADDRESS LC_TELEPHONE LC_MEASUREMENT LC_IDENTIFICATION
	LC LOCALE LC_LANG lc_all lc_ctype lang LC_Ctype LC_ALL_ _LC_ALL LC_CTYPE2 CHARSET OUTPUT_CHARSET TERM TERM_PROGRAM COLORTERM VTE_VERSION VTE_CJK_WIDTH WT_SESSION CI NO_COLOR COLUMNS
	runewidth_eastasian RUNEWIDTH RUNEWIDTH_EASTASIA RUNEWIDTH_EAST_ASIAN RUNEWIDTH_EASTASIAN_ EASTASIAN EAST_ASIAN_WIDTH RUNEWIDTH_STRICT RUNEWIDTH_STRICTEMOJI RUNEWIDTH_STRICTEMOJINEUTRAL STRICT_EMOJI_NEUTRAL
	RUNEWIDTH_LUT RUNEWIDTH_EMOJI RUNEWIDTH_AMBIGUOUS AMBIGUOUS_WIDTH CJK_WIDTH GO_TABLE_EASTASIAN TABLE_EASTASIAN WCWIDTH LINES DISPLAY TMUX STY SSH_TTY`)

func (r *rng) noise() [][2]string {
	out := [][2]string{}
	if r.chance(0.5) {
		return out
	}
	k := 1
	if r.chance(0.2) {
		k = r.between(2, 5)
	}
	for ; k > 0; k-- {
		n := noiseNames[r.Intn(len(noiseNames))]
		if r.chance(0.3) {
			n = r.pick("LANGUAGE", "LC_MESSAGES", "LC_NUMERIC", "TERM")
		}
		out = append(out, [2]string{n, r.pick("ja_JP.UTF-8", "ja_JP.eucJP", "ja", "zh_CN.UTF-8", "en_US.UTF-8", "C", "POSIX", "0", "1", "", "true", "xterm-256color", "ko:en", "dumb", "linux", "C.UTF-8")})
	}
	return out
}

var precedencePool = []string{"", "C", "POSIX", "C.UTF-8", "C-x", "ja_JP.UTF-8", "ja_JP.eucJP", "en_US.UTF-8", "de_DE.sjis", "zh_CN.UTF-8@cjk_narrow", "ko_KR", " ", "ja", "x"}

func val(s string) Var { return Var{true, Text(s)} }

func genLocale(emit func(any)) {
	r := newRng(*flagSeed + 1300)
	loc := func(a, c, l Var) { emit(&LocaleCase{K: "loc", All: a, Ctype: c, Lang: l, Noise: r.noise()}) }
	// other variables alone, one by one
	for _, n := range noiseNames {
		for _, v := range []string{"ja_JP.UTF-8", "1", "C", "ja"} {
			for _, l := range []Var{{}, val(""), val("en_US.UTF-8"), val("ja_JP.UTF-8")} {
				emit(&LocaleCase{K: "loc", Lang: l, Noise: [][2]string{{n, v}}})
			}
		}
	}
	// precedence: every combination
	pool := []Var{{}}
	for _, s := range precedencePool {
		pool = append(pool, val(s))
	}
	for _, a := range pool {
		for _, c := range pool {
			for _, l := range pool {
				emit(&LocaleCase{K: "loc", All: a, Ctype: c, Lang: l, RW: []Var{{}, val("0"), val("1"), val("")}[r.Intn(4)], Noise: r.noise()})
			}
		}
	}
	// every combination of the parts, for some
	for _, l := range languages {
		for _, c := range charsets {
			for k, m := range modifiers {
				if k < 3 || r.chance(0.25) {
					loc(Var{}, Var{}, val(l+territories[r.Intn(6)]+"."+c+m))
				}
			}
		}
	}
	for _, t := range territories {
		for _, l := range languages {
			loc(val(l+t+".UTF-8"), Var{}, Var{})
			loc(val(l+t+".eucJP"), Var{}, Var{})
			loc(val(l+t), Var{}, val("ja_JP.UTF-8"))
		}
	}
	for _, c := range charsets {
		loc(val(c), Var{}, Var{})
		loc(val("en."+c), Var{}, Var{})
		loc(val("C."+c), Var{}, Var{})
		loc(val("C"+c), Var{}, Var{})
	}
	for i, n := 0, scale(10000, 150000); i < n; i++ {
		v := []Var{{}, {}, {}}
		v[r.Intn(3)] = val(r.locale())
		if r.chance(0.2) {
			v[r.Intn(3)] = val(r.locale())
		}
		loc(v[0], v[1], v[2])
	}
}

func genStartup(emit func(any)) {
	r := newRng(*flagSeed + 1400)
	rws := []Var{{}, val("")}
	for _, s := range strings.Fields(`0 1 2 true yes 01 10 on 11 -1 TRUE １ auto off no false none n y t f Y T N F C default wide narrow double single ambiguous
		enabled enable disabled disable 1.0 +1 0x1 1e0 1; 1, '1' "1" l I i 00 9 3 -0 +0 0.0 True Yes On Off No NO ON OFF AUTO Auto unset null nil NaN system locale env
		ja ja_JP ja_JP.UTF-8 zh_CN.UTF-8 utf-8 UTF-8 cjk CJK eastasian east_asian 1% 1= =1 ¹ ① 一 ١ 1\u0301 force always never never1 1auto`) {
		rws = append(rws, val(s))
	}
	for _, s := range []string{"1 ", " 1", "\xff", " ", "\t", "1\n", "\n1", "1\r", "\n", "0 ", " 0", strings.Repeat("1", 300), strings.Repeat(" ", 300) + "1"} {
		rws = append(rws, val(s))
	}
	for i := 0; i < scale(40, 400); i++ {
		rws = append(rws, val(strings.ReplaceAll(r.pick(r.token(), r.text(r.between(1, 3)), r.simple(6)), "\x00", "1")))
	}
	var all []*LocaleCase
	out := emit
	emit = func(x any) { all = append(all, x.(*LocaleCase)) }
	defer func() {
		var wg sync.WaitGroup
		sem := make(chan bool, 2*runtime.NumCPU())
		for _, c := range all {
			wg.Add(1)
			go func(c *LocaleCase) {
				defer wg.Done()
				sem <- true
				defer func() { <-sem }()
				c.start()
			}(c)
		}
		wg.Wait()
		for _, c := range all {
			out(c)
		}
	}()
	locs := []string{"", "C", "ja_JP.UTF-8", "en_US.UTF-8", "zh_CN.GBK", "ko_KR.UTF-8@cjk_narrow", "POSIX", "C.UTF-8"}
	for _, rw := range rws {
		for _, l := range locs {
			c := &LocaleCase{K: "start", RW: rw, Lang: val(l), Noise: r.noise()}
			switch r.Intn(4) {
			case 0:
				c.All = val(l)
				c.Lang = val(r.pick(locs...))
			case 1:
				c.Ctype = val(l)
				c.Lang = val(r.pick(locs...))
			case 2:
				c.All = val("")
			}
			emit(c)
		}
	}
	emit(&LocaleCase{K: "start"})
	for i, n := range noiseNames {
		for k, v := range []string{"ja_JP.UTF-8", "1", "0", "C"} {
			if (i+k)%2 == 0 || thorough() {
				emit(&LocaleCase{K: "start", Noise: [][2]string{{n, v}}})
				emit(&LocaleCase{K: "start", Noise: [][2]string{{n, v}}, Lang: val("ja_JP.UTF-8")})
			}
		}
	}
	for i, n := 0, scale(250, 2500); i < n; i++ {
		c := &LocaleCase{K: "start", Noise: r.noise()}
		for _, v := range []*Var{&c.All, &c.Ctype, &c.Lang} {
			if r.chance(0.5) {
				*v = val(r.pick(precedencePool...))
				if r.chance(0.4) {
					*v = val(strings.ReplaceAll(r.locale(), "\x00", ""))
				}
			}
		}
		if r.chance(0.3) {
			c.RW = rws[r.Intn(len(rws))]
		}
		emit(c)
	}
}

func init() {
	suites["locale"] = suite{genLocale, loader[LocaleCase](), execLocale}
	suites["startup"] = suite{genStartup, loader[LocaleCase](), execLocale}
}
