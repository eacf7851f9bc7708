package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"sort"
)

// parseJSON keeps numbers as they are written.
func parseJSON(b []byte) (interface{}, error) {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	var v interface{}
	if err := d.Decode(&v); err != nil {
		return nil, err
	}
	if d.More() {
		return nil, fmt.Errorf("more than one document")
	}
	return v, nil
}

func mustJSON(v interface{}) interface{} {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	x, err := parseJSON(b)
	if err != nil {
		panic(err)
	}
	return x
}

func numText(n json.Number) string {
	if r, ok := new(big.Rat).SetString(string(n)); ok {
		return r.RatString()
	}
	return string(n)
}

// diffJSON describes the first difference of two parsed documents, "" when they are equal.
// Numbers are compared by value, exactly.
func diffJSON(path string, got, want interface{}) string {
	switch w := want.(type) {
	case map[string]interface{}:
		g, ok := got.(map[string]interface{})
		if !ok {
			return fmt.Sprintf("%s: got %s, want an object", path, short(got))
		}
		keys := map[string]bool{}
		for k := range w {
			keys[k] = true
		}
		for k := range g {
			keys[k] = true
		}
		sorted := []string{}
		for k := range keys {
			sorted = append(sorted, k)
		}
		sort.Strings(sorted)
		for _, k := range sorted {
			gv, gok := g[k]
			wv, wok := w[k]
			if gok != wok {
				if gok {
					return fmt.Sprintf("%s.%s: extra field %s", path, k, short(gv))
				}
				return fmt.Sprintf("%s.%s: missing, want %s", path, k, short(wv))
			}
			if d := diffJSON(path+"."+k, gv, wv); d != "" {
				return d
			}
		}
		return ""
	case []interface{}:
		g, ok := got.([]interface{})
		if !ok {
			return fmt.Sprintf("%s: got %s, want a list", path, short(got))
		}
		if len(g) != len(w) {
			return fmt.Sprintf("%s: %d elements, want %d", path, len(g), len(w))
		}
		for i := range w {
			if d := diffJSON(fmt.Sprintf("%s[%d]", path, i), g[i], w[i]); d != "" {
				return d
			}
		}
		return ""
	case json.Number:
		g, ok := got.(json.Number)
		if !ok || numText(g) != numText(w) {
			return fmt.Sprintf("%s: got %s, want %s", path, short(got), w)
		}
		return ""
	default:
		if got != want {
			return fmt.Sprintf("%s: got %s, want %s", path, short(got), short(want))
		}
		return ""
	}
}
