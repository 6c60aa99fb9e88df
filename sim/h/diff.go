package h

import (
	"fmt"
	"sort"
	"strings"
)

func diffEvents(m *Model, r *Run) string {
	got := map[string]int{}
	for _, e := range r.Evs {
		if strings.HasPrefix(e.K, "close:") || strings.HasPrefix(e.K, "lazy:") {
			continue
		}
		got[e.K]++
	}
	var ks []string
	for k := range got {
		ks = append(ks, k)
	}
	for k := range m.Events {
		if _, ok := got[k]; !ok {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		if got[k] != m.Events[k] {
			return fmt.Sprintf("event %s: %d times, expected %d", k, got[k], m.Events[k])
		}
	}
	return ""
}

// Compare checks delivered rows against a result with classes.
func Compare(e *Res, got []string) string {
	want := len(e.Rows)
	if e.Take >= 0 && e.Take < want {
		want = e.Take
	}
	if len(got) != want {
		return fmt.Sprintf("%d rows instead of %d:\n got  %s\n want %s", len(got), want, strings.Join(got, " "), resStr(e))
	}
	i := 0
	for i < want {
		j := i
		for j < len(e.Rows) && e.Cls[j] == e.Cls[i] {
			j++
		}
		// rows i..j of the expectation, in any order; got may be cut
		pool := map[string]int{}
		for k := i; k < j; k++ {
			pool[Canon(e.Rows[k])]++
		}
		for k := i; k < j && k < want; k++ {
			if pool[got[k]] == 0 {
				return fmt.Sprintf("row %d is wrong:\n got  %s\n want %s", k, strings.Join(got, " "), resStr(e))
			}
			pool[got[k]]--
		}
		i = j
	}
	return ""
}

func resStr(e *Res) string {
	var r []string
	for i, d := range e.Rows {
		r = append(r, fmt.Sprintf("%d%s", e.Cls[i], Canon(d)))
	}
	return strings.Join(r, " ") + fmt.Sprintf(" take %d", e.Take)
}
