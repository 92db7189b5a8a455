package main

import (
	"fmt"
	"html"
	"net/url"
	"path"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"

	"google.golang.org/protobuf/proto"

	"github.com/sourcenetwork/zanzi/pkg/api"
	"github.com/sourcenetwork/zanzi/pkg/domain"
)

var (
	plainRes = []string{"user", "group", "doc", "folder", "org"}
	plainRel = []string{"member", "owner", "viewer", "parent", "editor", "banned"}
	plainIds = []string{"1", "2", "3", "4", "5", "6"}

	// names whose concatenations coincide, and names full of separators
	hostileRes = []string{"a", "b", "ab", "abc", "a/b", "b/c", "a:b", "a/", "/", "*", "a#b", "用户", "A", "1", "1:a", "a\"b", "back\\slash", "a\nb", " ", "root", "a%sb", "1/a", "a, b"}
	hostileRel = []string{"a", "b", "ab", "bc", "a/b", "b/c", "a:b", "*", "/", "_this", "_thisx", "this", "é", "r-s", "r->s", "(a)", "1", "A", " r", "...", "a\x01b", "a\tb"}
	hostileIds = []string{"a", "b", "c", "ab", "bc", "abc", "a/b", "b/c", "a/b/c", "a:b", "b:c", "1", "12", "2", "/", "//", "*", "a*", "#", "a#b", "A", "Ａ", "é", "e\u0301", " ", "a b", "\"", "\\", "\n", "%d", "\x7f", "\x01", "null", "0", "1:a", "2:ab", "a, b"}
	hostilePol = []string{"p", "p/", "p/q", "pq", "q", "1", "1/p", "2", "2/p", "3", "3/p", "4", "p:1", "1:p", "12:p", "é", "P", " ", "/", "//", "*", "p/q/r", "3:p/q", "2/1:p", "3/1:p", "p\x01", "p\xc3\xbf"}
)

type polOpts struct {
	hostile  bool
	maxRes   int
	maxRel   int
	depth    int
	restr    byte // 'u' only universal restrictions, 'm' mixed
	diffPct  int  // chance of '-' among operators
	ttuPct   int
	noneTree bool // only text forms
}

func (t *T) relName(o polOpts) string {
	if o.hostile && t.Chance(60) {
		return pick(t, hostileRel)
	}
	return pick(t, plainRel)
}

func (t *T) resName(o polOpts) string {
	if o.hostile && t.Chance(60) {
		return pick(t, hostileRes)
	}
	return pick(t, plainRes)
}

func (t *T) entId(hostile bool) string {
	if hostile && t.Chance(70) {
		return pick(t, hostileIds)
	}
	return pick(t, plainIds[:4])
}

func genExpr(t *T, o polOpts, own []string, all []string, depth int) *Expr {
	if depth > 0 && t.Chance(65) {
		op := byte('+')
		switch x := t.Intn(100); {
		case x < o.diffPct:
			op = '-'
		case x < o.diffPct+30:
			op = '&'
		}
		return eOp(genExpr(t, o, own, all, depth-1), op, genExpr(t, o, own, all, depth-1-t.Intn(2)))
	}
	switch x := t.Intn(100); {
	case x < o.ttuPct:
		return eTTU(pick(t, own), pick(t, all))
	case x < o.ttuPct+30:
		return eCU(pick(t, own))
	}
	return eThis()
}

func genPol(t *T, id string, o polOpts) *Pol {
	p := &Pol{ID: id}
	if t.Chance(40) {
		p.Name = "name " + id
		p.Desc = "about\n" + id
	}
	if t.Chance(30) {
		p.Attrs = map[string]string{"k": "v", "": "empty", "x/y": id}
	}
	seen := map[string]bool{}
	nres := 1 + t.Intn(o.maxRes)
	for i := 0; i < nres; i++ {
		n := t.resName(o)
		if seen[n] {
			continue
		}
		seen[n] = true
		p.Res = append(p.Res, &ResDef{Name: n})
	}
	var all []string
	for i, r := range p.Res {
		rs := map[string]bool{}
		n := t.Intn(o.maxRel + 1)
		if i == 0 && n == 0 {
			n = 1
		}
		for j := 0; j < n; j++ {
			m := t.relName(o)
			if rs[m] {
				continue
			}
			rs[m] = true
			r.Rels = append(r.Rels, &RelDef{Name: m})
			all = append(all, m)
		}
	}
	if o.hostile && t.Chance(35) { // names that extend each other
		r := pick(t, p.Res)
		sep := pick(t, separators)
		if len(r.Rels) > 0 && t.Chance(50) {
			if m := "k" + sep + pick(t, r.Rels).Name; p.rel(r.Name, m) == nil {
				r.Rels = append(r.Rels, &RelDef{Name: m})
				all = append(all, m)
			}
		} else if n := r.Name + sep + "k"; !seen[n] {
			nr := &ResDef{Name: n}
			for _, d := range r.Rels {
				nr.Rels = append(nr.Rels, &RelDef{Name: d.Name})
			}
			p.Res = append(p.Res, nr)
		}
	}
	if o.hostile && t.Chance(25) { // names that careless code confuses
		r := pick(t, p.Res)
		if len(r.Rels) > 0 && t.Chance(50) {
			if m := twin(t, pick(t, r.Rels).Name); p.rel(r.Name, m) == nil {
				r.Rels = append(r.Rels, &RelDef{Name: m})
				all = append(all, m)
			}
		} else if n := twin(t, r.Name); p.res(n) == nil {
			nr := &ResDef{Name: n}
			for _, d := range r.Rels {
				nr.Rels = append(nr.Rels, &RelDef{Name: d.Name})
			}
			p.Res = append(p.Res, nr)
		}
	}
	if t.Chance(18) { // two pairs of names which read the same when joined
		r := pick(t, p.Res)
		sep := pick(t, []string{"", "", "_"})
		if o.hostile {
			sep = pick(t, append([]string{""}, separators...))
		}
		if len(r.Rels) > 0 {
			d := pick(t, r.Rels)
			m, n := "k"+sep+d.Name, r.Name+sep+"k"
			if p.rel(r.Name, m) == nil && !seen[n] && p.res(n) == nil {
				r.Rels = append(r.Rels, &RelDef{Name: m})
				all = append(all, m)
				p.Res = append(p.Res, &ResDef{Name: n, Rels: []*RelDef{{Name: d.Name}}})
			}
		}
	}
	for _, r := range p.Res {
		var own []string
		for _, d := range r.Rels {
			own = append(own, d.Name)
		}
		for _, d := range r.Rels {
			d.E = genExpr(t, o, own, all, t.Intn(o.depth+1))
			d.Form = pick(t, []byte{'x', 'p', 'f'})
			if o.noneTree && d.Form == 'x' {
				d.Form = 'p'
			}
			if !d.E.textable() {
				d.Form = 'x'
			}
			genRestr(t, o, p, d)
		}
	}
	return p
}

func genRestr(t *T, o polOpts, p *Pol, d *RelDef) {
	d.Restr, d.Allow = '*', nil
	if o.restr == 'u' {
		return
	}
	switch x := t.Intn(100); {
	case x < 35:
		return
	case x < 42:
		d.Restr = 0
		return
	}
	d.Restr = 's'
	for n := t.Intn(4); n > 0; n-- {
		r := pick(t, p.Res)
		if len(r.Rels) > 0 && t.Chance(45) {
			d.Allow = append(d.Allow, Restr{r.Name, pick(t, r.Rels).Name})
		} else {
			d.Allow = append(d.Allow, Restr{Res: r.Name})
		}
	}
}

func (p *Pol) clone() *Pol {
	q, _, _ := compile(p.proto())
	if q == nil {
		panic("clone of an invalid policy")
	}
	return q
}

// genTuple draws a relationship over the policy's names; any of it may be undefined with junk.
func genTuple(t *T, p *Pol, ids []string, junkPct int) Tuple {
	junk := t.Chance(junkPct)
	var u Tuple
	var rels []*ResDef
	for _, r := range p.Res {
		if len(r.Rels) > 0 {
			rels = append(rels, r)
		}
	}
	r := pick(t, rels)
	u.ORes, u.OId, u.Rel = r.Name, pick(t, ids), pick(t, r.Rels).Name
	s := pick(t, p.Res)
	u.SRes = s.Name
	switch x := t.Intn(100); {
	case x < 45:
		u.SK, u.SId = 'e', pick(t, ids)
	case x < 88:
		u.SK, u.SId = 's', pick(t, ids)
		s = pick(t, rels)
		u.SRes, u.SRel = s.Name, pick(t, s.Rels).Name
	default:
		u.SK = 'w'
	}
	if junk {
		switch t.Intn(9) {
		case 0:
			u.ORes = "nosuch"
		case 1:
			u.Rel = "nosuch"
		case 2:
			u.SRes = "nosuch"
		case 3:
			if u.SK == 's' {
				u.SRel = "nosuch"
			}
		case 4:
			u.OId = ""
		case 5:
			if u.SK != 'w' {
				u.SId = ""
			}
		case 6:
			u.Rel = ""
		case 7:
			u.SRes = ""
		case 8:
			u.Rel = pick(t, rels[t.Intn(len(rels))].Rels).Name
		}
	}
	return u
}

// genAllowed draws an allowed relationship if it finds one.
func genAllowed(t *T, p *Pol, ids []string) (Tuple, bool) {
	for i := 0; i < 30; i++ {
		u := genTuple(t, p, ids, 0)
		if p.allowed(u) {
			return u, true
		}
	}
	return Tuple{}, false
}

// nearMiss changes a relationship so that it is close to, but not, the original one.
func nearMiss(t *T, u Tuple, ids []string) Tuple {
	v := u
	switch t.Intn(15) {
	case 13, 14:
		switch t.Intn(5) {
		case 0:
			v.ORes = twin(t, u.ORes)
		case 1:
			v.Rel = twin(t, u.Rel)
		case 2:
			v.SRes = twin(t, u.SRes)
		case 3:
			v.OId = twin(t, u.OId)
		case 4:
			v.SId = twin(t, u.SId)
		}
	case 10:
		return spelled(t, u)
	case 11:
		v.ORes, v.OId = respell(t, u.ORes, u.OId)
	case 12:
		v.OId, v.Rel = respell(t, u.OId, u.Rel)
	case 0:
		v.OId = pick(t, ids)
	case 1:
		v.SId = pick(t, ids)
	case 2: // kind
		switch u.SK {
		case 'w':
			v.SK, v.SId = 'e', "*"
		case 'e':
			v.SK, v.SId = 'w', ""
		case 's':
			v.SK, v.SRel = 'e', ""
		}
	case 3: // move the boundary between resource and id
		v.ORes, v.OId = shiftBoundary(t, u.ORes, u.OId)
	case 4:
		v.OId, v.Rel = shiftBoundary(t, u.OId, u.Rel)
	case 5:
		v.SRes, v.SId = shiftBoundary(t, u.SRes, u.SId)
	case 6:
		if u.SK == 's' {
			v.SId, v.SRel = shiftBoundary(t, u.SId, u.SRel)
		}
	case 7:
		v.Rel = pick(t, plainRel)
	case 8: // swap object and subject
		if u.SK == 's' {
			v.ORes, v.OId, v.Rel, v.SRes, v.SId, v.SRel = u.SRes, u.SId, u.SRel, u.ORes, u.OId, u.Rel
		}
	case 9:
		if u.SK == 'e' {
			v.SK, v.SRel = 's', u.Rel
		}
	}
	if v.SK == 'w' {
		v.SId = ""
	}
	if v.SK != 's' {
		v.SRel = ""
	}
	return v
}

// twin returns a different text which careless code takes for s.
func twin(t *T, s string) string {
	var v string
	for i := 0; i < 8; i++ {
		switch t.Intn(16) {
		case 0:
			v = strings.ToUpper(s)
		case 1:
			v = strings.ToLower(s)
		case 2:
			v = s + pick(t, []string{" ", "\t", "\n", "\r\n", "\x00", "\u200b", "\u00a0"})
		case 3:
			v = pick(t, []string{" ", "\ufeff", "0", "+", "\x00", "./", "\u200b"}) + s
		case 4:
			v = strings.NewReplacer("\u00e9", "e\u0301", "e\u0301", "\u00e9", "\uff21", "A").Replace(s)
		case 5:
			v = url.PathEscape(s)
		case 6:
			v = url.QueryEscape(s)
		case 7:
			if u, err := url.QueryUnescape(s); err == nil && u != "" {
				v = u
			}
		case 8:
			v = path.Clean(s)
		case 9:
			v = s + pick(t, []string{"/", "/.", ".", "\\", "#", "*", "%"})
		case 10:
			v = strings.Trim(strconv.Quote(s), "\"")
		case 11:
			v = strconv.Quote(s)
		case 12:
			v = html.EscapeString(s)
		case 13:
			v = strings.Join(strings.Fields(s), " ")
		case 14:
			if r := []rune(s); len(r) > 1 {
				v = string(r[:len(r)-1])
			}
		case 15:
			v = s + s
		}
		if v != s && v != "" && utf8.ValidString(v) {
			return v
		}
	}
	return s + " "
}

// twinIds are pairs of ids with a long common beginning or end, or the same short checksum whatever
// surrounds them (CRC-32), or alone (FNV-1a, FNV-1, DJB2 in 32 bits, the sum of the bytes).
func twinIds(t *T) []string {
	n := pick(t, []int{15, 16, 31, 32, 35, 36, 63, 64, 100, 127, 128, 254, 255, 256, 300, 511, 512, 1000, 1023, 1024, 4096})
	long := strings.Repeat("i", n)
	return pick(t, [][]string{
		{long + "x", long + "y"}, {"x" + long, "y" + long}, {long, long + "i"}, {long, long[1:]},
		{"plumless", "buckeroo"}, {"plumless", "buckeroo"},
		{"costarring", "liquid"}, {"declinate", "macallums"}, {"creamwove", "quists"}, {"hetairas", "mentioner"},
		{"Aa", "BB"}, {"ad", "bc"}, {"ab", "ba"},
	})
}

// separators that textual renderings of names commonly use
var separators = []string{", ", "#", "/", ":", "", "@", " ", ".", "|", "->", ",", "-", "_", "::", "\x00", "\n", ";", "=", "\x1f"}

// spelled returns a relationship whose subject is a different node that reads the same in some
// textual rendering.
func spelled(t *T, u Tuple) Tuple {
	v := u
	switch u.SK {
	case 'w':
		v.SK, v.SId = 'e', pick(t, []string{"*", "*", "*", u.SRes, "all"})
	case 's':
		v.SK, v.SId, v.SRel = 'e', u.SId+pick(t, separators)+u.SRel, ""
	case 'e':
		if id := u.SId; id == "*" {
			v.SK, v.SId = 'w', ""
		} else if sep := pick(t, separators); sep != "" && strings.Contains(id, sep) {
			a, b, _ := strings.Cut(id, sep)
			v.SK, v.SId, v.SRel = 's', a, b
		} else {
			v.SId = id + pick(t, separators) + u.Rel
		}
	}
	return v
}

// respell moves the boundary between two names that are written with a separator between them.
func respell(t *T, a, b string) (string, string) {
	for _, sep := range shuffled(t, separators) {
		if sep == "" {
			continue
		}
		if x, y, ok := strings.Cut(a, sep); ok && x != "" {
			return x, y + sep + b
		}
		if x, y, ok := strings.Cut(b, sep); ok && y != "" {
			return a + sep + x, y
		}
	}
	return a, b
}

func shiftBoundary(t *T, a, b string) (string, string) {
	s := []rune(a + b)
	if t.Chance(30) {
		s = []rune(a + "/" + b)
	}
	if len(s) < 2 {
		return a, b
	}
	i := 1 + t.Intn(len(s)-1)
	return string(s[:i]), string(s[i:])
}

func genSel(t *T, p *Pol, ids []string, tuples []Tuple, junkPct int) Sel {
	var s Sel
	base := genTuple(t, p, ids, 0)
	if len(tuples) > 0 && t.Chance(75) {
		base = pick(t, tuples)
	}
	switch t.Intn(3) {
	case 0:
		s.OK = '*'
	case 1:
		s.OK, s.ORes, s.OId = 'o', base.ORes, base.OId
	case 2:
		s.OK, s.ORes = 'r', base.ORes
	}
	if t.Chance(50) {
		s.RK = '*'
	} else {
		s.RK, s.Rel = 'n', base.Rel
	}
	switch t.Intn(3) {
	case 0:
		s.SK = '*'
	case 1:
		s.SK, s.SRes = 'r', base.SRes
	case 2:
		s.SK = 'x'
		s.S = Tuple{SK: base.SK, SRes: base.SRes, SId: base.SId, SRel: base.SRel}
		if t.Chance(20) {
			m := nearMiss(t, base, ids)
			s.S = Tuple{SK: m.SK, SRes: m.SRes, SId: m.SId, SRel: m.SRel}
		}
	}
	if t.Chance(junkPct) {
		switch t.Intn(5) {
		case 0:
			if s.OK != '*' {
				s.ORes = "nosuch"
			}
		case 1:
			if s.RK == 'n' {
				s.Rel = "nosuch"
			}
		case 2:
			if s.SK == 'r' {
				s.SRes = "nosuch"
			} else if s.SK == 'x' {
				s.S.SRes = "nosuch"
			}
		case 3:
			if s.OK == 'o' {
				s.OId = "nosuchid"
			}
		case 4:
			if s.RK == 'n' {
				s.Rel = ""
			}
		}
	}
	return s
}

// ---------------------------------------------------------------- YAML

// yamlString writes a string as a YAML scalar in one of several ways.
func yamlString(t *T, s string) string {
	plain := s != "" && s != "null" && s != "~"
	for i, r := range s {
		if !(r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || i > 0 && (r == '_' || r == '-')) {
			plain = false
		}
	}
	switch strings.ToLower(s) {
	case "y", "n", "yes", "no", "on", "off", "true", "false", "null", "nan", "inf":
		plain = false
	}
	if plain && t.Chance(60) {
		return s
	}
	simple := true
	for _, r := range s {
		if r < ' ' || r == '\'' || r == 0x7f || r > 0x7e {
			simple = false
		}
	}
	if simple && t.Chance(50) {
		return "'" + s + "'"
	}
	var b strings.Builder
	b.WriteByte('"')
	for _, r := range s {
		switch {
		case r == '"' || r == '\\':
			b.WriteByte('\\')
			b.WriteRune(r)
		case r == '\n':
			b.WriteString("\\n")
		case r < ' ' || r >= 0x7f && r <= 0xffff:
			fmt.Fprintf(&b, "\\u%04x", r)
		case r > 0xffff:
			fmt.Fprintf(&b, "\\U%08x", r)
		default:
			b.WriteRune(r)
		}
	}
	b.WriteByte('"')
	return b.String()
}

// yaml renders the policy as a YAML document with random key order and quoting, and returns the
// policy a correct reading stores. ok is false if the policy cannot be expressed.
func (p *Pol) yaml(t *T) (doc string, want *domain.Policy, ok bool) {
	q := &Pol{ID: p.ID, Name: p.Name, Desc: p.Desc, Attrs: p.Attrs}
	var top []string
	top = append(top, "id: "+yamlString(t, p.ID))
	if p.Name != "" || t.Chance(30) {
		top = append(top, "name: "+yamlString(t, p.Name))
	}
	if p.Desc != "" || t.Chance(30) {
		top = append(top, "doc: "+yamlString(t, p.Desc))
	}
	if len(p.Attrs) > 0 {
		var ls []string
		for _, k := range sortedKeys(p.Attrs) {
			ls = append(ls, "  "+yamlString(t, k)+": "+yamlString(t, p.Attrs[k]))
		}
		top = append(top, "attributes:\n"+strings.Join(shuffled(t, ls), "\n"))
	}
	var rs []string
	for _, r := range p.Res {
		nr := &ResDef{Name: r.Name, Desc: r.Desc}
		q.Res = append(q.Res, nr)
		var parts []string
		if r.Desc != "" {
			parts = append(parts, "    doc: "+yamlString(t, r.Desc))
		}
		var ds []string
		for _, d := range r.Rels {
			if !d.E.textable() {
				return "", nil, false
			}
			text := d.E.pretty()
			if d.Form == 'f' {
				text = d.E.text()
			} else if d.Form == 'r' && d.Raw != "" {
				text = d.Raw
			}
			nd := &RelDef{Name: d.Name, Desc: d.Desc, E: d.E, Form: 'r', Raw: text, Restr: 's'}
			nr.Rels = append(nr.Rels, nd)
			fs := []string{"        expr: " + yamlString(t, text)}
			if d.Desc != "" {
				fs = append(fs, "        doc: "+yamlString(t, d.Desc))
			}
			var types []string
			switch d.Restr {
			case '*':
				nd.Restr = '*'
				types = append(types, "*")
				if t.Chance(30) {
					types = shuffled(t, append(types, "user", "x:y"))
				}
			case 's':
				for _, a := range d.Allow {
					if strings.Contains(a.Res, ":") || a.Res == "*" && a.Rel == "" || a.Res == "" {
						return "", nil, false
					}
					if a.Rel == "" {
						types = append(types, a.Res)
					} else {
						types = append(types, a.Res+":"+a.Rel)
					}
				}
				nd.Allow = d.Allow
			}
			if len(types) > 0 {
				if t.Chance(50) {
					s := "        types:"
					for _, y := range types {
						s += "\n          - " + yamlString(t, y)
					}
					fs = append(fs, s)
				} else {
					var ys []string
					for _, y := range types {
						z := yamlString(t, y)
						if z == y {
							z = "\"" + y + "\""
						}
						ys = append(ys, z)
					}
					fs = append(fs, "        types: ["+strings.Join(ys, ", ")+"]")
				}
			} else if t.Chance(40) {
				fs = append(fs, "        types: []")
			}
			ds = append(ds, "      "+yamlString(t, d.Name)+":\n"+strings.Join(shuffled(t, fs), "\n"))
		}
		if len(ds) > 0 {
			parts = append(parts, "    relations:\n"+strings.Join(shuffled(t, ds), "\n"))
		} else if t.Chance(40) {
			parts = append(parts, "    relations: {}")
		}
		if len(parts) == 0 {
			rs = append(rs, "  "+yamlString(t, r.Name)+":")
		} else {
			rs = append(rs, "  "+yamlString(t, r.Name)+":\n"+strings.Join(shuffled(t, parts), "\n"))
		}
		sort.Slice(nr.Rels, func(i, j int) bool { return nr.Rels[i].Name < nr.Rels[j].Name })
	}
	if len(rs) > 0 {
		top = append(top, "resources:\n"+strings.Join(shuffled(t, rs), "\n"))
	}
	sort.Slice(q.Res, func(i, j int) bool { return q.Res[i].Name < q.Res[j].Name })
	doc = strings.Join(shuffled(t, top), "\n") + "\n"
	if t.Chance(20) {
		doc = "---\n# comment\n" + doc
	}
	want = q.proto()
	yamlPolicies.Store(doc, want)
	return doc, want, true
}

// def renders the policy as a definition, as YAML with the given probability.
func (p *Pol) def(t *T, yamlPct int) *api.PolicyDefinition {
	if t.Chance(yamlPct) {
		if doc, _, ok := p.yaml(t); ok {
			return &api.PolicyDefinition{Definition: &api.PolicyDefinition_PolicyYaml{PolicyYaml: doc}}
		}
	}
	return &api.PolicyDefinition{Definition: &api.PolicyDefinition_Policy{Policy: p.proto()}}
}

// ---------------------------------------------------------------- request streams

// Hist produces request streams over a small set of policies.
type Hist struct {
	t       *T
	w       *World
	polIds  []string
	ids     []string
	o       polOpts
	weights map[string]int
	yamlPct int
	junkPct int
	total   int
	keys    []string
	serial  int
	queue   []proto.Message
}

func newHist(t *T, w *World, hostile bool, weights map[string]int) *Hist {
	h := &Hist{t: t, w: w, weights: weights, yamlPct: 20, junkPct: 10}
	h.o = polOpts{hostile: hostile, maxRes: 3, maxRel: 3, depth: 2, restr: 'm', diffPct: 15, ttuPct: 25}
	if hostile {
		h.polIds = shuffled(t, hostilePol)[:2+t.Intn(3)]
		h.ids = shuffled(t, hostileIds)[:3+t.Intn(5)]
	} else {
		h.polIds = []string{"p1", "p2", "p3"}[:1+t.Intn(3)]
		h.ids = plainIds[:2+t.Intn(3)]
	}
	if t.Chance(40) {
		h.ids = append(append([]string{}, h.ids...), twinIds(t)...)
	}
	if hostile || t.Chance(15) {
		if t.Chance(40) {
			h.ids = append(append([]string{}, h.ids...), twin(t, pick(t, h.ids)))
		}
		if t.Chance(25) {
			h.polIds = append(append([]string{}, h.polIds...), twin(t, pick(t, h.polIds)))
		}
	}
	for k, v := range weights {
		h.total += v
		h.keys = append(h.keys, k)
	}
	sort.Strings(h.keys)
	return h
}

var allWeights = map[string]int{"create": 5, "update": 4, "delpol": 3, "getpol": 4, "list": 4, "set": 30, "del": 10, "get": 12, "find": 12, "delmany": 4, "check": 14, "explain": 4, "expand": 4, "dump": 3}

func (h *Hist) appData() []byte {
	h.serial++
	switch h.t.Intn(5) {
	case 0:
		return nil
	case 1:
		return []byte{0, 255, 254, byte(h.serial)}
	}
	return []byte(fmt.Sprintf("data %d", h.serial))
}

func (h *Hist) pid() string { return pick(h.t, h.polIds) }

// withRels returns the id of an existing policy (preferred) and its state.
func (h *Hist) live() (string, *PolState) {
	var live []string
	for _, id := range h.polIds {
		if h.w.pols[id] != nil && h.w.pols[id].p.hasRels() {
			live = append(live, id)
		}
	}
	if len(live) == 0 || h.t.Chance(4) {
		id := h.pid()
		return id, h.w.pols[id]
	}
	id := pick(h.t, live)
	return id, h.w.pols[id]
}

func (p *Pol) hasRels() bool {
	for _, r := range p.Res {
		if len(r.Rels) > 0 {
			return true
		}
	}
	return false
}

var fallbackPol = &Pol{ID: "x", Res: []*ResDef{{Name: "doc", Rels: []*RelDef{{Name: "owner", E: eThis(), Form: 'p', Restr: '*'}}}}}

// next draws a request. Some changes come with a question about what they change, put before them
// and again after them.
func (h *Hist) next() proto.Message {
	if len(h.queue) > 0 {
		req := h.queue[0]
		h.queue = h.queue[1:]
		return req
	}
	req := h.draw()
	if isRead(req) || !h.t.Chance(15) {
		return req
	}
	q := h.about(req)
	if q == nil {
		return req
	}
	h.queue = append(h.queue, req)
	for i := 0; i < 1+h.t.Intn(2); i++ {
		h.queue = append(h.queue, proto.Clone(q))
	}
	return q
}

// about is a question whose answer a change may change.
func (h *Hist) about(req proto.Message) proto.Message {
	id := targetPolicy(req)
	var u Tuple
	ok := false
	switch r := req.(type) {
	case *api.SetRelationshipRequest:
		u, ok = tupleOf(r.Relationship)
	case *api.DeleteRelationshipRequest:
		u, ok = tupleOf(r.Relationship)
	}
	if st := h.w.pols[id]; !ok && st != nil && len(st.tuples) > 0 {
		u, ok = pick(h.t, st.list()), true
	}
	var ops []string
	for _, k := range h.keys {
		if k == "getpol" || k == "list" || k == "dump" || ok && (k == "check" || k == "explain" || k == "expand" || k == "get" || k == "find") {
			ops = append(ops, k)
		}
	}
	if len(ops) == 0 {
		return nil
	}
	switch op := pick(h.t, ops); op {
	case "getpol":
		return &api.GetPolicyRequest{Id: id}
	case "list":
		return &api.ListPolicyIdsRequest{}
	case "dump":
		return &api.DumpRelationshipsRequest{PolicyId: id}
	case "check":
		return &api.CheckRequest{PolicyId: id, AccessRequest: accessOf(u)}
	case "explain":
		return &api.ExplainCheckRequest{PolicyId: id, AccessRequest: accessOf(u), Format: api.ExplainFormat(h.t.Intn(3))}
	case "expand":
		return &api.ExpandRequest{PolicyId: id, Root: u.src().proto(), Format: api.ExplainFormat_JSON}
	case "get":
		return &api.GetRelationshipRequest{PolicyId: id, Relationship: u.proto()}
	default:
		s := Sel{OK: '*', RK: '*', SK: '*'}
		if h.t.Chance(40) {
			s.OK, s.ORes, s.OId = 'o', u.ORes, u.OId
		}
		if h.t.Chance(40) {
			s.RK, s.Rel = 'n', u.Rel
		}
		return &api.FindRelationshipRecordsRequest{PolicyId: id, Selector: s.proto()}
	}
}

func (h *Hist) draw() proto.Message {
	t := h.t
	x := t.Intn(h.total)
	op := ""
	for _, k := range h.keys {
		if x < h.weights[k] {
			op = k
			break
		}
		x -= h.weights[k]
	}
	if len(h.w.pols) == 0 && t.Chance(90) || len(h.w.pols) < len(h.polIds) && t.Chance(12) {
		op = "create"
	}
	return h.make(op)
}

func (h *Hist) make(op string) proto.Message {
	t := h.t
	id, st := h.live()
	p := fallbackPol
	var have []Tuple
	if st != nil && st.p.hasRels() {
		p = st.p
	}
	if st != nil {
		have = st.list()
	}
	tuple := func(existingPct int) Tuple {
		if len(have) > 0 && t.Chance(existingPct) {
			u := pick(t, have)
			if t.Chance(20) {
				return nearMiss(t, u, h.ids)
			}
			return u
		}
		return genTuple(t, p, h.ids, h.junkPct)
	}
	access := func() *domain.AccessRequest {
		u := genTuple(t, p, h.ids, 5)
		s := genTuple(t, p, h.ids, 0)
		if len(have) > 0 && t.Chance(60) {
			u = pick(t, have)
		}
		if len(have) > 0 && t.Chance(60) {
			s = pick(t, have)
		}
		sid := s.SId
		if sid == "" {
			sid = pick(t, h.ids)
		}
		return &domain.AccessRequest{Object: ent(u.ORes, u.OId), Relation: u.Rel, Subject: ent(s.SRes, sid)}
	}
	switch op {
	case "create":
		pid := h.pid()
		for _, c := range h.polIds {
			if h.w.pols[c] == nil && t.Chance(70) {
				pid = c
			}
		}
		q := genPol(t, pid, h.o)
		// policies often share their shape, so that isolation has something to confuse
		if len(h.w.pols) > 0 && t.Chance(40) {
			var first *Pol
			for _, i := range h.polIds {
				if s := h.w.pols[i]; s != nil {
					first = s.p
				}
			}
			if first != nil {
				q = first.clone()
				q.ID = pid
			}
		}
		if t.Chance(h.junkPct) {
			breakPol(t, q)
			return &api.CreatePolicyRequest{PolicyDefinition: q.def(t, 0), AppData: h.appData()}
		}
		return &api.CreatePolicyRequest{PolicyDefinition: q.def(t, h.yamlPct), AppData: h.appData()}
	case "update":
		var q *Pol
		if st != nil && t.Chance(70) {
			q = st.p.clone()
			q.ID = id
			tweakPol(t, q, h.o)
		} else {
			q = genPol(t, id, h.o)
		}
		if t.Chance(h.junkPct) {
			breakPol(t, q)
			return &api.UpdatePolicyRequest{PolicyDefinition: q.def(t, 0), AppData: h.appData()}
		}
		return &api.UpdatePolicyRequest{PolicyDefinition: q.def(t, h.yamlPct), AppData: h.appData()}
	case "badpol":
		q := genPol(t, h.pid(), h.o)
		if r := pick(t, q.Res); len(r.Rels) > 0 {
			d := pick(t, r.Rels)
			d.Form, d.Raw = 'r', longBroken(t, r)
		} else {
			breakPol(t, q)
		}
		if t.Chance(30) {
			return &api.UpdatePolicyRequest{PolicyDefinition: q.def(t, 0), AppData: h.appData()}
		}
		return &api.CreatePolicyRequest{PolicyDefinition: q.def(t, 0), AppData: h.appData()}
	case "delpol":
		return &api.DeletePolicyRequest{Id: h.pid()}
	case "getpol":
		return &api.GetPolicyRequest{Id: h.pid()}
	case "list":
		return &api.ListPolicyIdsRequest{}
	case "set":
		var u Tuple
		if len(have) > 0 && t.Chance(20) {
			u = pick(t, have)
		} else if len(have) > 0 && t.Chance(15) {
			u = nearMiss(t, pick(t, have), h.ids)
		} else if v, ok := genAllowed(t, p, h.ids); ok && t.Chance(85) {
			u = v
		} else {
			u = genTuple(t, p, h.ids, 30)
		}
		return &api.SetRelationshipRequest{PolicyId: id, Relationship: u.proto(), AppData: h.appData()}
	case "del":
		return &api.DeleteRelationshipRequest{PolicyId: id, Relationship: tuple(75).proto()}
	case "get":
		return &api.GetRelationshipRequest{PolicyId: id, Relationship: tuple(75).proto()}
	case "find":
		return &api.FindRelationshipRecordsRequest{PolicyId: id, Selector: genSel(t, p, h.ids, have, h.junkPct).proto()}
	case "delmany":
		for i := 0; ; i++ {
			s := genSel(t, p, h.ids, have, h.junkPct)
			// selecting by names the policy does not define is not specified for deletions
			n := 0
			for _, u := range have {
				if s.matches(u) {
					n++
				}
			}
			if n == 0 || s.defined(p) == valid {
				return &api.DeleteRelationshipsRequest{PolicyId: id, Selector: s.proto()}
			}
		}
	case "check":
		return &api.CheckRequest{PolicyId: id, AccessRequest: access()}
	case "explain":
		return &api.ExplainCheckRequest{PolicyId: id, AccessRequest: access(), Format: api.ExplainFormat(t.Intn(3))}
	case "expand":
		a := access()
		n := Node{'s', a.Object.Resource, a.Object.Id, a.Relation}
		if t.Chance(8) {
			n = Node{'e', a.Subject.Resource, a.Subject.Id, ""}
		}
		return &api.ExpandRequest{PolicyId: id, Root: n.proto(), Format: pick(t, []api.ExplainFormat{api.ExplainFormat_JSON, api.ExplainFormat_JSON, api.ExplainFormat_DOT})}
	case "dump":
		return &api.DumpRelationshipsRequest{PolicyId: id}
	}
	panic("op " + op)
}

// tweakPol makes a small valid change to a policy.
func tweakPol(t *T, p *Pol, o polOpts) {
	for n := 1 + t.Intn(2); n > 0; n-- {
		r := pick(t, p.Res)
		switch t.Intn(6) {
		case 0, 1:
			if len(r.Rels) > 0 {
				var own, all []string
				for _, d := range r.Rels {
					own = append(own, d.Name)
				}
				for _, x := range p.Res {
					for _, d := range x.Rels {
						all = append(all, d.Name)
					}
				}
				d := pick(t, r.Rels)
				d.E, d.Form = genExpr(t, o, own, all, o.depth), 'x'
			}
		case 2:
			m := t.relName(o)
			if p.rel(r.Name, m) == nil {
				r.Rels = append(r.Rels, &RelDef{Name: m, E: eThis(), Form: 'x', Restr: '*'})
			}
		case 3:
			if len(r.Rels) > 0 {
				genRestr(t, o, p, pick(t, r.Rels))
			}
		case 4:
			p.Desc = "changed"
		case 5: // remove a relation nobody mentions
			if len(r.Rels) > 1 {
				i := t.Intn(len(r.Rels))
				c := &Pol{ID: p.ID, Name: p.Name, Desc: p.Desc, Attrs: p.Attrs}
				for _, x := range p.Res {
					nr := &ResDef{Name: x.Name, Desc: x.Desc}
					for j, d := range x.Rels {
						if x == r && j == i {
							continue
						}
						nr.Rels = append(nr.Rels, d)
					}
					c.Res = append(c.Res, nr)
				}
				if _, v, _ := compile(c.proto()); v == valid {
					p.Res = c.Res
				}
			}
		}
	}
}

// breakPol makes a policy invalid.
func breakPol(t *T, p *Pol) {
	r := pick(t, p.Res)
	var d *RelDef
	if len(r.Rels) > 0 {
		d = pick(t, r.Rels)
	} else {
		d = &RelDef{Name: "broken", E: eThis(), Form: 'x', Restr: '*'}
		r.Rels = append(r.Rels, d)
	}
	switch t.Intn(10) {
	case 0:
		d.Name = ""
	case 1:
		r.Name = ""
	case 2:
		p.Res = append(p.Res, &ResDef{Name: r.Name})
	case 3:
		r.Rels = append(r.Rels, &RelDef{Name: d.Name, E: eThis(), Form: 'x', Restr: '*'})
	case 4:
		d.E, d.Form = eOp(d.E, '+', eCU("nosuchrel")), 'x'
	case 5:
		d.E, d.Form = eOp(eTTU("nosuchrel", d.Name), '&', d.E), 'x'
	case 6:
		d.Restr, d.Allow = 's', append(d.Allow, Restr{Res: "nosuchres"})
	case 7:
		d.Restr, d.Allow = 's', append(d.Allow, Restr{Res: r.Name, Rel: "nosuchrel"})
	case 8:
		d.Form, d.Raw = 'r', pick(t, []string{"", "_this +", "(_this", "_this _this", "a b", "->x", "_this->x", "_this ! _this", "+ _this", ")_this("})
		if t.Chance(60) {
			d.Raw = longBroken(t, r)
		}
	case 9:
		d.Form, d.Raw = 'r', "_this + nosuchrel"
	}
}

// longBroken is a long expression over the relations of a resource with an error somewhere: what
// reads it stops early or late, with much of the text still to come. (By chance it may still be
// well-formed; the model decides.)
func longBroken(t *T, r *ResDef) string {
	var toks []string
	for i, n := 0, 5+t.Intn(40); i < n; i++ {
		if i > 0 {
			toks = append(toks, pick(t, []string{"+", "-", "&"}))
		}
		switch d := pick(t, r.Rels); t.Intn(4) {
		case 0:
			toks = append(toks, "_this")
		case 1:
			toks = append(toks, d.Name, "->", pick(t, r.Rels).Name)
		default:
			toks = append(toks, d.Name)
		}
	}
	i := t.Intn(len(toks))
	if t.Chance(50) {
		i = t.Intn(min(4, len(toks)))
	}
	switch t.Intn(5) {
	case 0: // a token missing
		toks = append(toks[:i:i], toks[i+1:]...)
	case 1: // a token twice
		toks = append(toks[:i+1:i+1], toks[i:]...)
	case 2:
		toks = append(toks[:i:i], append([]string{pick(t, []string{"(", ")", "->", "+", "_this"})}, toks[i:]...)...)
	case 3: // not a token
		toks[i] = pick(t, []string{"!", "|", "a,b", "->>", "\x00", "-->"})
	case 4: // an unknown name
		toks[i] = "nosuchrel"
	}
	return strings.Join(toks, " ")
}

func sortStrings(s []string) { sort.Strings(s) }

// accessOf asks for the access a relationship is about.
func accessOf(u Tuple) *domain.AccessRequest {
	id := u.SId
	if id == "" {
		id = "someone"
	}
	return &domain.AccessRequest{Object: ent(u.ORes, u.OId), Relation: u.Rel, Subject: ent(u.SRes, id)}
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
