package main

// Generic JSON: reading, writing in some other formatting, editing.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"sort"
	"strings"
)

func parseJSON(b []byte) (any, error) {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	var v any
	err := d.Decode(&v)
	return v, err
}

// scramble writes v with other white space, order of keys and escapes
func (w *World) scramble(v any) []byte {
	var b bytes.Buffer
	ws := func() {
		switch w.rng.Intn(8) {
		case 0:
			b.WriteString(" ")
		case 1:
			b.WriteString("\n\t")
		case 2:
			b.WriteString("\r\n  ")
		}
	}
	str := func(s string) {
		if w.chance(80) {
			e, _ := json.Marshal(s)
			b.Write(e)
			return
		}
		b.WriteByte('"')
		for _, r := range s {
			switch {
			case r > 0xffff:
				b.WriteRune(r)
			case r < 0x20 || r == '"' || r == '\\' || w.chance(15):
				fmt.Fprintf(&b, "\\u%04x", r)
			case r == '/' && w.chance(50):
				b.WriteString("\\/")
			default:
				b.WriteRune(r)
			}
		}
		b.WriteByte('"')
	}
	var put func(v any)
	put = func(v any) {
		ws()
		switch x := v.(type) {
		case map[string]any:
			ks := make([]string, 0, len(x))
			for k := range x {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			w.rng.Shuffle(len(ks), func(i, j int) { ks[i], ks[j] = ks[j], ks[i] })
			b.WriteByte('{')
			for i, k := range ks {
				if i > 0 {
					b.WriteByte(',')
				}
				ws()
				str(k)
				ws()
				b.WriteByte(':')
				put(x[k])
			}
			ws()
			b.WriteByte('}')
		case []any:
			b.WriteByte('[')
			for i, e := range x {
				if i > 0 {
					b.WriteByte(',')
				}
				put(e)
			}
			ws()
			b.WriteByte(']')
		case string:
			str(x)
		case json.Number:
			b.WriteString(x.String())
		default:
			e, _ := json.Marshal(x)
			b.Write(e)
		}
		ws()
	}
	put(v)
	return b.Bytes()
}

// spot is a place in a JSON value
type spot struct {
	path string
	val  any
	set  func(any)
	del  func() // nil in arrays and at the top
}

// spots lists all places of *top
func spots(top *any) []spot {
	r := []spot{}
	var walk func(path string, v any, set func(any), del func())
	walk = func(path string, v any, set func(any), del func()) {
		r = append(r, spot{path, v, set, del})
		switch x := v.(type) {
		case map[string]any:
			for _, k := range sortedKeys(x) {
				k := k
				walk(path+"/"+k, x[k], func(n any) { x[k] = n }, func() { delete(x, k) })
			}
		case []any:
			for i := range x {
				i := i
				walk(fmt.Sprintf("%s/%d", path, i), x[i], func(n any) { x[i] = n }, nil)
			}
		}
	}
	walk("", *top, func(n any) { *top = n }, nil)
	return r
}

// leaves writes a JSON value as a sorted list of strings, one for each part
func leaves(v any) []string {
	r := []string{}
	esc := strings.NewReplacer("~", "~0", "/", "~1")
	var walk func(path string, v any)
	walk = func(path string, v any) {
		switch x := v.(type) {
		case map[string]any:
			r = append(r, path+" {}")
			for k, e := range x {
				walk(path+"/"+esc.Replace(k), e)
			}
		case []any:
			r = append(r, fmt.Sprintf("%s [%d]", path, len(x)))
			for i, e := range x {
				walk(fmt.Sprintf("%s/%d", path, i), e)
			}
		case json.Number:
			r = append(r, path+" #"+x.String())
		case string:
			r = append(r, path+" $"+x)
		default:
			r = append(r, fmt.Sprintf("%s =%v", path, x))
		}
	}
	walk("", v)
	sort.Strings(r)
	return r
}
