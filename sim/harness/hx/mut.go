//go:build go1.22

package hx

import (
	"fmt"
	"path"
	"strings"

	"github.com/acronis/go-raml/v2/zzsim/simrt"
)

// blocks of a text: a line and the deeper lines that follow it.
func blockEnd(ls []string, i int) int {
	in := indent(ls[i])
	j := i + 1
	for j < len(ls) && (strings.TrimSpace(ls[j]) == "" || indent(ls[j]) > in) {
		j++
	}
	return j
}

func indent(l string) int {
	n := 0
	for n < len(l) && l[n] == ' ' {
		n++
	}
	return n
}

var knownKeys = []string{"type", "properties", "items", "facets", "uses", "enum", "example", "examples", "default",
	"discriminator", "discriminatorValue", "(x)", "(Ann1)", "schema", "fileTypes", "additionalProperties", "annotationTypes",
	"types", "required", "pattern", "minimum", "maximum", "minLength", "maxLength", "format", "multipleOf", "minItems", "maxItems",
	"uniqueItems", "minProperties", "maxProperties", "displayName", "description", "usage", "strict", "value", "<<", "id", "/^a/", "//", "/", "/?", "//?", "()", "(", "(a", "!", ".", "/[/", "T1", "T1?", "?", "allowedTargets", "anyOf", "title", "xml"}

func oddValues(r *simrt.Rng, files []FileC, self string) string {
	other := files[r.Intn(len(files))].P
	switch r.Intn(34) {
	case 0:
		return "null"
	case 1:
		return "{}"
	case 2:
		return "[]"
	case 3:
		return "[null]"
	case 4:
		return `""`
	case 5:
		return "!include " + path.Base(self)
	case 6, 7:
		return "!include " + rel(self, other)
	case 8:
		return "!!binary aGVsbG8="
	case 9:
		return "&a [*a]"
	case 10:
		return "1e400"
	case 11:
		return ".nan"
	case 12:
		return "99999999999999999999999999"
	case 13:
		return "-1"
	case 14:
		return "[[1], [1]]"
	case 15:
		return "[{a: 1}, {a: 1}]"
	case 16:
		return "{a: {b: {c: {d: [1, 2, {e: f}]}}}}"
	case 17:
		return "[a, b, c]"
	case 18:
		return "{type: {type: {type: string}}}"
	case 19:
		return "[string, integer]"
	case 20:
		return "T1 | T2 | nil"
	case 21:
		return "(T1 | T2[])[]"
	case 22:
		return "union"
	case 23:
		return "'{\"type\": \"object\", \"properties\": null}'"
	case 24:
		return "'{'"
	case 25:
		return "'null'"
	case 26:
		return "{1: 2, true: false, null: x, [1]: 2}"
	case 27:
		return "2015-02-30"
	case 28:
		return "!include " + other
	case 29:
		return "!include /nonexistent"
	case 30:
		return "!!str 12"
	case 31:
		return "!foo bar"
	case 32:
		return "~"
	}
	return "yes"
}

// typeNames finds the names that look like types in a text.
func typeNames(files []FileC) []string {
	seen := map[string]bool{}
	var out []string
	for _, f := range files {
		for _, l := range strings.Split(f.D, "\n") {
			if indent(l) == 2 && strings.Contains(l, ":") {
				n := strings.TrimSpace(l[:strings.IndexByte(l, ':')])
				if n != "" && !seen[n] && !strings.ContainsAny(n, "/\"'({[- ") {
					seen[n] = true
					out = append(out, n)
				}
			}
		}
	}
	return out
}

const dmg = "{}[]:,&*!|>'\"%@`?- \t\r\n#"

// Mutate damages a project in one place.
func Mutate(r *simrt.Rng, files []FileC) ([]FileC, string) {
	fs := append([]FileC(nil), files...)
	fi := r.Intn(len(fs))
	f := &fs[fi]
	d := f.D
	what := ""
	ls := strings.Split(d, "\n")
	// lines with a key
	var kl []int
	for i, l := range ls {
		if strings.Contains(l, ":") && !strings.HasPrefix(strings.TrimSpace(l), "#") {
			kl = append(kl, i)
		}
	}
	x := r.Intn(30)
	if len(kl) == 0 && x >= 8 && x < 26 {
		x = r.Intn(8)
	}
	switch {
	case x < 2:
		n := 0
		if len(d) > 0 {
			n = r.Intn(len(d))
		}
		f.D = d[:n]
		what = fmt.Sprintf("truncated at %d", n)
	case x < 3:
		if len(d) > 2 {
			a := r.Intn(len(d))
			b := a + 1 + r.Intn(len(d)-a)
			f.D = d[:a] + d[b:]
			what = fmt.Sprintf("lost %d-%d", a, b)
		}
	case x < 5:
		b := []byte(d)
		for i := 1 + r.Intn(3); i > 0 && len(b) > 0; i-- {
			p := r.Intn(len(b))
			switch r.Intn(4) {
			case 0:
				b[p] = byte(r.Intn(256))
			case 1:
				b[p] ^= 1 << r.Intn(8)
			case 2:
				b[p] = dmg[r.Intn(len(dmg))]
			case 3:
				b = append(b[:p:p], append([]byte{dmg[r.Intn(len(dmg))]}, b[p:]...)...)
			}
		}
		f.D = string(b)
		what = "bytes damaged"
	case x < 6:
		// a lost sector
		b := []byte(d)
		n := 1 + r.Intn(64)
		if len(b) > 0 {
			p := r.Intn(len(b))
			for i := p; i < p+n && i < len(b); i++ {
				b[i] = 0
			}
		}
		f.D = string(b)
		what = "zeroed"
	case x < 7:
		f.D = fs[r.Intn(len(fs))].D
		what = "content of another file"
	case x < 8:
		hs := []string{"#%RAML 1.0 Library", "#%RAML 1.0 DataType", "#%RAML 1.0 NamedExample", "#%RAML 1.0", "", "#%RAML 1.0 Overlay", "#%RAML 1.0 Library   "}
		ls[0] = hs[r.Intn(len(hs))]
		f.D = strings.Join(ls, "\n")
		what = "head " + ls[0]
	case x < 15:
		i := kl[r.Intn(len(kl))]
		j := blockEnd(ls, i)
		c := strings.IndexByte(ls[i], ':')
		v := oddValues(r, fs, f.P)
		ls[i] = ls[i][:c+1] + " " + v
		if !r.P(0.15) {
			ls = append(ls[:i+1:i+1], ls[j:]...)
		}
		f.D = strings.Join(ls, "\n")
		what = "value " + v
	case x < 18:
		i := kl[r.Intn(len(kl))]
		c := strings.IndexByte(ls[i], ':')
		k := knownKeys[r.Intn(len(knownKeys))]
		ls[i] = ls[i][:indent(ls[i])] + k + ls[i][c:]
		f.D = strings.Join(ls, "\n")
		what = "key " + k
	case x < 20:
		// a block moves
		i := kl[r.Intn(len(kl))]
		j := blockEnd(ls, i)
		blk := append([]string(nil), ls[i:j]...)
		rest := append(append([]string(nil), ls[:i]...), ls[j:]...)
		t := r.Intn(len(rest) + 1)
		in := 0
		if t > 0 && t <= len(rest) {
			in = indent(rest[t-1])
			if r.P(0.5) {
				in += 2
			}
		}
		o := indent(blk[0])
		for k := range blk {
			if len(blk[k]) >= o {
				blk[k] = strings.Repeat(" ", in) + blk[k][o:]
			}
		}
		f.D = strings.Join(append(append(append([]string(nil), rest[:t]...), blk...), rest[t:]...), "\n")
		what = "block moved"
	case x < 24:
		// types refer to types
		ns := typeNames(fs)
		if len(ns) > 0 {
			n := ns[r.Intn(len(ns))]
			switch r.Intn(7) {
			case 0:
				n += "[]"
			case 1:
				n += " | " + ns[r.Intn(len(ns))]
			case 2:
				n += "?"
			case 3:
				n = "[" + n + ", " + ns[r.Intn(len(ns))] + "]"
			case 4:
				n = "{ type: " + n + ", properties: { p1: " + ns[r.Intn(len(ns))] + " } }"
			}
			var tl []int
			for _, i := range kl {
				if t := strings.TrimSpace(ls[i]); strings.HasPrefix(t, "type:") || strings.HasPrefix(t, "items:") || indent(ls[i]) == 2 || indent(ls[i]) == 6 {
					tl = append(tl, i)
				}
			}
			if len(tl) > 0 {
				i := tl[r.Intn(len(tl))]
				c := strings.IndexByte(ls[i], ':')
				j := blockEnd(ls, i)
				ls[i] = ls[i][:c+1] + " " + n
				ls = append(ls[:i+1:i+1], ls[j:]...)
				f.D = strings.Join(ls, "\n")
			}
			what = "refers to " + n
		}
	case x < 26:
		i := kl[r.Intn(len(kl))]
		j := blockEnd(ls, i)
		if r.P(0.5) {
			ls = append(ls[:j:j], append(append([]string(nil), ls[i:j]...), ls[j:]...)...)
			what = "block repeated"
		} else {
			ls = append(ls[:i:i], ls[j:]...)
			what = "block lost"
		}
		f.D = strings.Join(ls, "\n")
	case x < 27:
		i := r.Intn(len(ls))
		ls[i] = strings.Repeat(" ", r.Intn(8)) + strings.TrimLeft(ls[i], " ")
		f.D = strings.Join(ls, "\n")
		what = "indentation"
	case x < 28:
		odd := []string{"", "\n", "#%RAML 1.0 Library\n", "#%RAML 1.0 Library\n---\n---\n", "#%RAML 1.0 DataType\n[]\n", "#%RAML 1.0 DataType\nstring\n",
			"#%RAML 1.0 Library\nnull\n", "#%RAML 1.0 NamedExample\n[1]\n", "#%RAML 1.0 Library\n- a\n", "#%RAML 1.0 DataType\ntype: \n", "\xff\xfe#", "null\n", "{}\n", "#%RAML 1.0 NamedExample\na:\n", "#%RAML 1.0 Library"}
		f.D = odd[r.Intn(len(odd))]
		what = fmt.Sprintf("content %q", f.D)
	case x < 29:
		if fi != 0 || len(fs) > 1 {
			fs = append(fs[:fi:fi], fs[fi+1:]...)
			what = "file lost"
		}
	default:
		f.D = strings.ReplaceAll(d, "\n", "\r\n")
		what = "CRLF"
	}
	return fs, what
}

// dropCandidates are smaller versions of a case.
func dropCandidates(c *Case, emit func(*Case) bool) bool {
	dropFiles := func(get func(*Case) *[]FileC, keep string) bool {
		for i := len(*get(c)) - 1; i >= 0; i-- {
			if i >= len(*get(c)) || (*get(c))[i].P == keep {
				continue
			}
			d := c.clone()
			fs := get(d)
			*fs = append((*fs)[:i:i], (*fs)[i+1:]...)
			if emit(d) {
				return true
			}
		}
		return false
	}
	for i := len(c.Ops) - 1; i >= 0; i-- {
		d := c.clone()
		d.Ops = append(d.Ops[:i:i], d.Ops[i+1:]...)
		if emit(d) {
			return true
		}
	}
	for i := len(c.More) - 1; i >= 0; i-- {
		d := c.clone()
		d.More = append(d.More[:i:i], d.More[i+1:]...)
		if emit(d) {
			return true
		}
	}
	if len(c.Vals) > 1 {
		d := c.clone()
		d.Vals = d.Vals[:len(d.Vals)/2]
		if emit(d) {
			return true
		}
		d = c.clone()
		d.Vals = d.Vals[len(d.Vals)/2:]
		if emit(d) {
			return true
		}
	}
	if dropFiles(func(c *Case) *[]FileC { return &c.Files }, c.Entry) {
		return true
	}
	for fi := range c.Files {
		ls := strings.Split(c.Files[fi].D, "\n")
		var cand [][2]int
		for i := 1; i < len(ls); i++ {
			if strings.TrimSpace(ls[i]) != "" {
				cand = append(cand, [2]int{i, blockEnd(ls, i)})
			}
		}
		// big blocks first
		for again := true; again; {
			again = false
			for k := 1; k < len(cand); k++ {
				if cand[k][1]-cand[k][0] > cand[k-1][1]-cand[k-1][0] {
					cand[k], cand[k-1] = cand[k-1], cand[k]
					again = true
				}
			}
		}
		for _, b := range cand {
			d := c.clone()
			d.Files[fi].D = strings.Join(append(append([]string(nil), ls[:b[0]]...), ls[b[1]:]...), "\n")
			if emit(d) {
				return true
			}
		}
	}
	return false
}
