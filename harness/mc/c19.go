package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"strings"

	table "github.com/ilius/go-table"
	"github.com/ilius/go-table/runewidth"

	"verifmc/ref"
)

func init() {
	register(&Check{ID: "C19", Run: c19, Bounds: map[string]string{
		"rule":     "cases: environments; non-trivial: a variable decides for East Asian, or overrides one that would",
		"quick":    "locales: every language of two letters, 3-letter languages starting with each of them for {ja,ko,zh,en,ci}, x 4 territories x (19 character sets in 3 spellings, 42 unknown ones) x 7 modifiers, every 3-letter language x 2 territories x 4 character sets, every territory for 7 languages x 7 character sets x 3 modifiers, bare character sets, C and POSIX forms, one-character edits of locales; precedence: 9 values of each of LC_ALL, LC_CTYPE, LANG; start-up in a fresh process: 18 values of RUNEWIDTH_EASTASIAN x 3 values of each locale variable, and with other variables set",
		"thorough": "locales: every language of two or three letters; start-up: 18 values of RUNEWIDTH_EASTASIAN x 6 values of each locale variable",
	}, Assume: []string{"POSIX build (the windows, js and appengine variants: C22)",
		"a text that is not of the form of a locale is read as a bare character set"}})
}

var mbSets = []string{"jis", "eucjp", "euckr", "euccn", "sjis", "cp932", "cp51932", "cp936", "cp949", "cp950", "big5", "gbk", "gb2312"}

func eastAsianSet(set string) (multi, utf bool) {
	s := strings.ToLower(set)
	for _, m := range mbSets {
		if s == m {
			return true, false
		}
	}
	return false, s == "utf-8" || s == "utf8"
}

// eaLocale is the rule for a locale given in parts.
func eaLocale(lang, set, mod string) bool {
	if mod == "@cjk_narrow" {
		return false
	}
	multi, utf := eastAsianSet(set)
	return multi || (utf && (strings.HasPrefix(lang, "ja") || strings.HasPrefix(lang, "ko") || strings.HasPrefix(lang, "zh")))
}

// eaText is the rule for any text (without line breaks): what has not the form of a
// locale with a character set counts as a bare character set.
func eaText(s string) bool {
	if s == "C" || s == "POSIX" || strings.HasPrefix(s, "C.") || strings.HasPrefix(s, "C-") {
		return false
	}
	in := func(i int, lo, hi byte) bool { return i < len(s) && s[i] >= lo && s[i] <= hi }
	i := 0
	for i < 3 && in(i, 'a', 'z') {
		i++
	}
	lang, set := "", s
	if i >= 2 {
		k := i
		if k < len(s) && s[k] == '_' && in(k+1, 'A', 'Z') && in(k+2, 'A', 'Z') {
			k += 3
		}
		if k+1 < len(s) && s[k] == '.' {
			lang, set = s[:i], s[k+1:]
		}
	}
	mod := ""
	if k := strings.IndexByte(set, '@'); k >= 0 {
		set, mod = set[:k], strings.ToLower(set[k:])
	}
	return eaLocale(lang, set, mod)
}

type locale struct {
	s  string
	ea bool
}

var localeVars = []string{"LC_ALL", "LC_CTYPE", "LANG"}

func setenv(vals [3]string) {
	for i, v := range localeVars {
		if vals[i] == "\x00" {
			os.Unsetenv(v)
		} else {
			os.Setenv(v, vals[i])
		}
	}
}

func envDesc(vals []string, names []string) string {
	var s []string
	for i, v := range names {
		if vals[i] == "\x00" {
			s = append(s, v+" unset")
		} else {
			s = append(s, fmt.Sprintf("%s=%q", v, vals[i]))
		}
	}
	return strings.Join(s, ", ")
}

type probeOut struct {
	EA, Def, New, Strict bool
	Amb                  []int
	AmbStr               int
	Col                  int
	Fun                  bool
}

var ambiguous = []rune{'│', '½', '○', 'α', 'Я', '①', 0xa7, 0x2026}

func probeMain() {
	o := probeOut{EA: runewidth.EastAsianWidth, Def: runewidth.DefaultCondition.EastAsianWidth,
		New: runewidth.NewCondition().EastAsianWidth, Strict: runewidth.StrictEmojiNeutral, Fun: runewidth.IsEastAsian()}
	s := ""
	for _, r := range ambiguous {
		o.Amb = append(o.Amb, runewidth.DefaultCondition.RuneWidth(r))
		s += string(r)
	}
	o.AmbStr = runewidth.StringWidth(s)
	spec := table.NewTableSpec()
	spec.AddColumn(&table.Column{Name: "c", Getter: cellGetter{0}})
	t := table.NewTable(spec)
	t.FormatItem([]string{s})
	o.Col = int(t.Width("c"))
	json.NewEncoder(os.Stdout).Encode(&o)
}

func c19(r *Run) {
	langs := []string{}
	for a := 'a'; a <= 'z'; a++ {
		for b := 'a'; b <= 'z'; b++ {
			l := string(a) + string(b)
			langs = append(langs, l)
			for d := 'a'; d <= 'z'; d++ {
				if r.Thorough() || l == "ja" || l == "ko" || l == "zh" || l == "en" || l == "ci" {
					langs = append(langs, l+string(d))
				}
			}
		}
	}
	var sets []string
	for _, s := range append([]string{"utf-8", "utf8"}, mbSets...) {
		sets = append(sets, s, strings.ToUpper(s), strings.ToUpper(s[:1])+s[1:])
	}
	sets = append(sets, "eucJP", "eucKR", "eucCN", "Cp932", "gB2312")
	sets = append(sets, "ISO-8859-1", "iso88591", "koi8-r", "ascii", "utf", "utf-16", "utf-88", "utf_8", "eucjpx", "xeucjp", "big", "big55", "gb", "8",
		"gb18030", "euctw", "euc-jp", "euc-kr", "euc_jp", "shift_jis", "sjis-win", "ujis", "johab", "cp1361", "cp943", "ms932", "big5-hkscs", "big5hkscs", "iso-2022-jp", "iso2022jp", "hz", "utf-32", "utf-7", "utf8mb4", "ucs-2", "cp65001", "cp1252", "cp437", "tis-620", "jisx0213", "gb12345", "gbk2")
	mods := []string{"", "@cjk_narrow", "@cjk_narrowx", "@xcjk_narrow", "@cjk_narro", "@narrow", "@euro", "@cjk", "@latin", "@a@b", "@"}
	ters := []string{"", "_JP", "_US", "_CN"}

	check := func(ls locale) {
		r.State()
		r.Do(func() string { return fmt.Sprintf("LC_ALL=%q", ls.s) }, func(c *C) {
			setenv([3]string{ls.s, "\x00", "\x00"})
			defer setenv([3]string{"\x00", "\x00", "C.UTF-8"})
			got := runewidth.IsEastAsian()
			c.Op(1)
			c.Nontrivial(ls.ea || strings.Contains(ls.s, "@"))
			if ls.ea {
				c.OutcomeN(1)
			} else {
				c.OutcomeN(0)
			}
			if got != ls.ea {
				c.Fail("IsEastAsian() = %v, want %v", got, ls.ea)
			}
		})
	}
	r.Phase("locales")
	for _, l := range langs {
		for _, t := range ters {
			for _, s := range sets {
				for _, m := range mods {
					if r.Want() {
						check(locale{l + t + "." + s + m, eaLocale(l, s, m)})
					}
				}
			}
			for _, m := range mods { // no character set
				if multi, _ := eastAsianSet(l + t); !multi && r.Want() { // gbk and jis are character sets
					check(locale{l + t + m, false})
				}
			}
		}
	}
	for a := 'A'; a <= 'Z'; a++ {
		for b := 'A'; b <= 'Z'; b++ {
			for _, l := range []string{"ja", "ko", "zh", "en", "vi", "mn", "kor"} {
				for _, s := range []string{"utf-8", "UTF-8", "utf8", "big5", "eucjp", "iso88591", "gb18030"} {
					for _, m := range []string{"", "@cjk_narrow", "@x"} {
						if r.Want() {
							check(locale{l + "_" + string(a) + string(b) + "." + s + m, eaLocale(l, s, m)})
						}
					}
				}
			}
		}
	}
	for a := 'a'; a <= 'z'; a++ {
		for b := 'a'; b <= 'z'; b++ {
			for d := 'a'; d <= 'z'; d++ {
				l := string(a) + string(b) + string(d)
				for _, t := range []string{"", "_CN"} {
					for _, s := range []string{"UTF-8", "utf8", "sjis", "iso88591"} {
						if r.Want() {
							check(locale{l + t + "." + s, eaLocale(l, s, "")})
						}
					}
					if multi, _ := eastAsianSet(l + t); !multi && r.Want() {
						check(locale{l + t, false})
					}
				}
			}
		}
	}
	for _, s := range sets {
		for _, m := range mods {
			if r.Want() {
				check(locale{s + m, eaLocale("", s, m)})
			}
			for _, p := range []string{"C.", "C-", "POSIX."} {
				if r.Want() {
					check(locale{p + s + m, false})
				}
			}
		}
	}
	for _, s := range []string{"C", "POSIX", "C.", "C-", "C@euro", "POSIX@euro", "C@cjk_narrow", "C.UTF-8@euro"} {
		if r.Want() {
			check(locale{s, false})
		}
	}

	r.Phase("edited locales")
	// every text one edit away from a locale, judged by the rule for any text
	for _, base := range []string{"ja_JP.UTF-8", "ko.utf8", "zho_TW.utf-8", "zh_CN.gbk@x", "en_US.eucjp", "en_US.UTF-8", "big5", "C.UTF-8", "CP932", "ja_JP.UTF-8@cjk_narrow", "jpn.sjis", "POSIX", "ja", "vi_VN.gb2312"} {
		const chars = "abijkouz8AFJPUZ0159._-@ :;,/+=#'\"\\\t~"
		for at := 0; at <= len(base); at++ {
			edit := func(s string) {
				if strings.Count(s, "@") < 2 && r.Want() {
					check(locale{s, eaText(s)})
				}
			}
			for _, x := range chars {
				edit(base[:at] + string(x) + base[at:])
				if at < len(base) {
					edit(base[:at] + string(x) + base[at+1:])
				}
			}
			if at < len(base) {
				edit(base[:at] + base[at+1:])
				edit(base[:at] + strings.ToUpper(base[at:at+1]) + base[at+1:])
				edit(base[:at] + strings.ToLower(base[at:at+1]) + base[at+1:])
				edit(base[at:])
				edit(base[:at])
				edit(base + base[at:])
				edit(base[at:] + base[:at])
				edit(base[:at] + strings.ToUpper(base[at:]))
			}
		}
	}

	r.Phase("long locales")
	for _, base := range []string{"ja_JP.UTF-8", "ko.utf8", "en_US.eucjp", "en_US.UTF-8", "big5", "C.UTF-8", "C", "ja", "zh_CN.gbk@cjk_narrow", "ko_KR.UTF-8@euro"} {
		for _, n := range roundLengths(140, 66000) {
			x := strings.Repeat("x", n)
			for _, s := range []string{base + x, base + "@" + x, x + base, base + strings.Repeat(" ", n), base + "@cjk_narrow" + x, "ja." + x + base, base + ":" + x} {
				if strings.Count(s, "@") < 2 && r.Want() {
					check(locale{s, eaText(s)})
				}
			}
		}
	}

	r.Phase("precedence")
	vals := []locale{{"\x00", false}, {"", false}, {"ja_JP.UTF-8", true}, {"en_US.UTF-8", false}, {"C", false}, {"POSIX", false}, {"zh_CN.gbk", true}, {"ko_KR.utf8@cjk_narrow", false}, {"C.UTF-8", false}, {"ja_JP.UTF-8@" + strings.Repeat("x", 300), true}, {strings.Repeat("x", 300), false}, {" ", false}, {"\t", false}, {"en", false}, {"big5", true}}
	wordsN(len(vals), 3, func(w []int) {
		if !r.Want() {
			return
		}
		r.State()
		v := [3]string{vals[w[0]].s, vals[w[1]].s, vals[w[2]].s}
		want, any := false, false
		for _, k := range w {
			any = any || vals[k].ea
		}
		for _, k := range w {
			if vals[k].s != "\x00" && vals[k].s != "" {
				want = vals[k].ea
				break
			}
		}
		for _, rw := range []string{"\x00", "1", "0"} {
			r.Do(func() string { return envDesc(v[:], localeVars) + fmt.Sprintf(", RUNEWIDTH_EASTASIAN %q", rw) }, func(c *C) {
				if rw != "\x00" {
					os.Setenv("RUNEWIDTH_EASTASIAN", rw)
					defer os.Unsetenv("RUNEWIDTH_EASTASIAN")
				}
				setenv(v)
				defer setenv([3]string{"\x00", "\x00", "C.UTF-8"})
				c.Nontrivial(any)
				c.Op(1)
				if g := runewidth.IsEastAsian(); g != want {
					c.Fail("IsEastAsian() = %v, want %v", g, want)
				}
			})
		}
	})

	r.Phase("start-up")
	rws := []string{"\x00", "", "1", "0", "true", "01", "1 ", " 1", "11", "no", "yes", "on", "t", "TRUE", "2", "-1", "1.0", "１"}
	for b := 1; b < 256; b++ {
		if s := string([]byte{byte(b)}); s != "0" && s != "1" && s != "2" && s != "t" {
			rws = append(rws, s)
		}
	}
	rws = append(rws, "00", "10", "12", "+1", "1\n", "\t1", "1\t", "111", "0x1", "1e0", "True", "Y", "\xff1", "one", "false", "off", "1,", "1;1", "1=1", "١", "²")
	lvals := []locale{{"\x00", false}, {"en_US.UTF-8", false}, {"ja_JP.UTF-8", true}}
	if r.Thorough() {
		lvals = append(lvals, locale{"", false}, locale{"C", false}, locale{"zh_TW.big5", true})
	}
	self, err := os.Executable()
	must(err)
	start := func(rw string, w []int, vr, vv string) {
		r.State()
		v := []string{lvals[w[0]].s, lvals[w[1]].s, lvals[w[2]].s}
		want, any := false, rw == "1"
		for _, k := range w {
			any = any || lvals[k].ea
		}
		loc := false
		for _, k := range w {
			if lvals[k].s != "\x00" && lvals[k].s != "" {
				loc = lvals[k].ea
				break
			}
		}
		want = loc
		if rw != "\x00" && rw != "" {
			want = rw == "1"
		}
		other := ""
		if vr != "" {
			other = fmt.Sprintf(", %s=%q", vr, vv)
		}
		names := append([]string{"RUNEWIDTH_EASTASIAN"}, localeVars...)
		all := append([]string{rw}, v...)
		r.Do(func() string { return "process started with " + envDesc(all, names) + other }, func(c *C) {
			c.Nontrivial(any)
			c.Op(1)
			cmd := exec.Command(self, "probe")
			for _, kv := range os.Environ() {
				k := strings.SplitN(kv, "=", 2)[0]
				if k != vr && k != "LC_ALL" && k != "LC_CTYPE" && k != "LANG" && k != "RUNEWIDTH_EASTASIAN" {
					cmd.Env = append(cmd.Env, kv)
				}
			}
			if vr != "" {
				cmd.Env = append(cmd.Env, vr+"="+vv)
			}
			for i, n := range names {
				if all[i] != "\x00" {
					cmd.Env = append(cmd.Env, n+"="+all[i])
				}
			}
			out, err := cmd.Output()
			var o probeOut
			if err != nil || json.Unmarshal(out, &o) != nil {
				c.Fail("the process failed: %v %q", err, out)
				return
			}
			cfg := ref.Plain
			if want {
				cfg = ref.EA
			}
			sum := 0
			for i, a := range ambiguous {
				w := ref.RuneWidth(cfg, a)
				sum += w
				if o.Amb[i] != w {
					c.Fail("ambiguous U+%04X has width %d, want %d", a, o.Amb[i], w)
					return
				}
			}
			switch {
			case o.EA != want:
				c.Fail("EastAsianWidth = %v, want %v", o.EA, want)
			case o.Def != want:
				c.Fail("DefaultCondition.EastAsianWidth = %v, want %v", o.Def, want)
			case o.New != want:
				c.Fail("NewCondition().EastAsianWidth = %v, want %v", o.New, want)
			case o.AmbStr != sum || o.Col != sum:
				c.Fail("ambiguous text is %d cells (table: %d), want %d", o.AmbStr, o.Col, sum)
			case o.Fun != loc:
				c.Fail("IsEastAsian() = %v, want %v", o.Fun, loc)
			}
			c.OutcomeN(2 + sum)
		})
	}
	for ri, rw := range rws {
		wordsN(len(lvals), 3, func(w []int) {
			if ri >= 18 && (w[0] != 0 || w[1] != 0 || w[2] == 0) || !r.Want() {
				return
			}
			start(rw, w, "", "")
		})
	}
	r.Phase("start-up, other variables")
	for _, vr := range otherVars {
		for _, vv := range []string{"", "1", "0", "ja_JP.UTF-8", "C", "dumb", "en_US.UTF-8", "932"} {
			for _, w := range [][]int{{0, 0, 0}, {0, 0, 1}, {0, 0, 2}} {
				for _, rw := range []string{"\x00", "1", "0"} {
					if r.Want() {
						start(rw, w, vr, vv)
					}
				}
			}
		}
	}
}

// variables that play no part
var otherVars = []string{
	"LANGUAGE", "LC_MESSAGES", "LC_COLLATE", "LC_TIME", "LC_NUMERIC", "LC_MONETARY", "LC_IDENTIFICATION", "LC_PAPER", "LC_NAME", "LC", "LOCALE", "CHARSET", "OUTPUT_CHARSET",
	"TERM", "COLORTERM", "TERM_PROGRAM", "NO_COLOR", "CI", "COLUMNS", "LINES", "WT_SESSION", "VTE_VERSION", "KONSOLE_VERSION", "MSYSTEM", "TMUX", "STY", "SSH_TTY", "WSL_DISTRO_NAME", "EMACS", "INSIDE_EMACS", "PAGER",
	"EASTASIAN", "EASTASIANWIDTH", "EAST_ASIAN_WIDTH", "RUNEWIDTH", "RUNEWIDTH_EASTASIAN_WIDTH", "RUNEWIDTH_STRICT", "RUNEWIDTH_STRICTEMOJINEUTRAL", "RUNEWIDTH_EMOJI", "RUNEWIDTH_LUT", "RUNEWIDTH_AMBIGUOUS", "runewidth_eastasian", "lc_all", "lang", "GO_TABLE_EASTASIAN", "TABLE_WIDTH", "UNICODE", "AMBIGUOUS_WIDTH", "TZ", "USER", "GODEBUG",
}
