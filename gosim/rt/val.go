package main

import (
	"encoding/hex"
	"fmt"
	"sort"
	"strconv"
	"strings"
)

// Val is a value of the reference model. Msgs are the error messages the value
// itself carries.
type Val struct {
	T    string
	S    string
	N    int
	L    []*Val
	M    map[string]*Val
	Msgs map[string]bool
}

func str(s string) *Val { return &Val{T: "string", S: s} }
func num(n int) *Val    { return &Val{T: "int", N: n} }
func boolean(b bool) *Val {
	v := &Val{T: "boolean"}
	if b {
		v.N = 1
	}
	return v
}
func list(t string, l ...*Val) *Val { return &Val{T: t, L: l} }

func kind(t string) byte {
	switch {
	case t == "string":
		return 's'
	case t == "int":
		return 'i'
	case t == "boolean":
		return 'b'
	case t == "call":
		return 'f'
	case strings.HasSuffix(t, "list"):
		return 'L'
	case strings.HasSuffix(t, "map"):
		return 'M'
	}
	return 'R'
}

func (v *Val) copy() *Val {
	c := *v
	c.Msgs = nil
	c.addMsgs(v)
	return &c
}

func (v *Val) addMsgs(from *Val) {
	for m := range from.Msgs {
		v.msg(m)
	}
}

func (v *Val) msg(m string) {
	if v.Msgs == nil {
		v.Msgs = map[string]bool{}
	}
	v.Msgs[m] = true
}

// deep gives all messages in the value and in what it contains.
func (v *Val) deep(out map[string]bool) {
	for m := range v.Msgs {
		out[m] = true
	}
	for _, x := range v.L {
		x.deep(out)
	}
	for _, x := range v.M {
		x.deep(out)
	}
}

func (v *Val) empty() bool {
	switch kind(v.T) {
	case 'f':
		return false
	case 's':
		return v.S == ""
	case 'i', 'b':
		return v.N == 0
	case 'L':
		return len(v.L) == 0
	}
	for _, x := range v.M {
		if kind(v.T) == 'M' || !x.empty() {
			return false
		}
	}
	return true
}

// text is the canonical form: the languages differ in whether a structure
// lists fields that have their empty value, so those are left out.
func (v *Val) text() string {
	var b strings.Builder
	v.write(&b)
	return b.String()
}

func (v *Val) write(b *strings.Builder) {
	switch k := kind(v.T); k {
	case 'f':
		fmt.Fprintf(b, "f%d ", v.N)
		v.L[0].write(b)
	case 's':
		b.WriteString("s" + hex.EncodeToString([]byte(v.S)))
	case 'i':
		fmt.Fprintf(b, "i%d", v.N)
	case 'b':
		fmt.Fprintf(b, "b%d", v.N)
	case 'L':
		fmt.Fprintf(b, "L %s %d", v.T, len(v.L))
		for _, x := range v.L {
			b.WriteByte(' ')
			x.write(b)
		}
	default:
		var keys []string
		for key, x := range v.M {
			if k == 'M' || !x.empty() {
				keys = append(keys, key)
			}
		}
		sort.Strings(keys)
		fmt.Fprintf(b, "%c %s %d", k, v.T, len(keys))
		for _, key := range keys {
			b.WriteString(" k" + hex.EncodeToString([]byte(key)) + " ")
			v.M[key].write(b)
		}
	}
}

// pretty is for people.
func (v *Val) pretty() string {
	switch kind(v.T) {
	case 'f':
		return fmt.Sprintf("(call %d %s)", v.N, v.L[0].pretty())
	case 's':
		return strconv.Quote(v.S)
	case 'i':
		return strconv.Itoa(v.N)
	case 'b':
		return strconv.FormatBool(v.N == 1)
	case 'L':
		var s []string
		for _, x := range v.L {
			s = append(s, x.pretty())
		}
		return "(" + v.T + " " + strings.Join(s, " ") + ")"
	}
	var keys []string
	for k := range v.M {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	out := "(" + v.T
	for _, k := range keys {
		out += " :" + k + " " + v.M[k].pretty()
	}
	return out + ")"
}

type toks struct {
	t  []string
	at int
}

func (t *toks) next() string {
	if t.at >= len(t.t) {
		return ""
	}
	t.at++
	return t.t[t.at-1]
}

func (t *toks) num() int {
	n, _ := strconv.Atoi(t.next())
	return n
}

func unhex(s string) string {
	b, _ := hex.DecodeString(s)
	return string(b)
}

func parseVal(t *toks) (*Val, error) {
	x := t.next()
	if x == "" {
		return nil, fmt.Errorf("value missing")
	}
	switch x[0] {
	case 's':
		return str(unhex(x[1:])), nil
	case 'i':
		n, err := strconv.Atoi(x[1:])
		return num(n), err
	case 'b':
		return boolean(x == "b1"), nil
	case 'L', 'M', 'R':
		v := &Val{T: t.next()}
		n := t.num()
		for i := 0; i < n; i++ {
			key := ""
			if x[0] != 'L' {
				key = unhex(t.next()[1:])
			}
			e, err := parseVal(t)
			if err != nil {
				return nil, err
			}
			if x[0] == 'L' {
				v.L = append(v.L, e)
			} else {
				if v.M == nil {
					v.M = map[string]*Val{}
				}
				v.M[key] = e
			}
		}
		return v, nil
	}
	return nil, fmt.Errorf("value %q not understood", x)
}

// canon rewrites a value as printed by a driver.
func canon(s string) string {
	v, err := parseVal(&toks{t: strings.Fields(s)})
	if err != nil {
		return s
	}
	return v.text()
}

func prettyText(s string) string {
	v, err := parseVal(&toks{t: strings.Fields(s)})
	if err != nil {
		return s
	}
	return v.pretty()
}
