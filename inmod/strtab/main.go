//go:build go1.22

// strtab drives the string table builder with generated multisets of strings
// in several orders.
package main

import (
	"fmt"
	"sort"

	"github.com/squizzling/osmindex/internal/t"

	. "verif/lib"
)

var d *Drv

func gen(r *Rng, big bool) []string {
	n := []int{0, 1, 2, 5, 30, 200, 1000}[r.IntN(7)]
	kinds := 1 + r.IntN(n+1)
	if big {
		n = []int{70000, 150000}[r.IntN(2)] + r.IntN(3000)
		kinds = n
	}
	var out []string
	for i := 0; i < n; i++ {
		k := r.IntN(kinds)
		switch r.IntN(12) {
		case 0:
			out = append(out, "")
		case 1:
			k = r.IntN(3)
		case 2: // repeated addition in a row
			for j := r.IntN(6); j > 0; j-- {
				out = append(out, fmt.Sprintf("r%d", k))
			}
		}
		out = append(out, []string{"s%d", "é%d", "\x00%d", "%%%d", "long-long-long-%d", "%d"}[k%6])
		out[len(out)-1] = fmt.Sprintf(out[len(out)-1], k)
	}
	return out
}

func main() {
	DrvMain(func(dd *Drv) {
		d = dd
		r := d.Rng
		for i := 0; i < d.N(3000, 60000) && d.NViol() == 0; i++ {
			adds := gen(r, i%1500 == 700)
			freq := map[string]int{}
			for _, s := range adds {
				freq[s]++
			}
			var uniq []string
			for s := range freq {
				if s != "" {
					uniq = append(uniq, s)
				}
			}
			sort.Slice(uniq, func(a, b int) bool {
				if freq[uniq[a]] != freq[uniq[b]] {
					return freq[uniq[a]] > freq[uniq[b]]
				}
				return uniq[a] < uniq[b]
			})
			want := append([]string{""}, uniq...)
			for perm := 0; perm < 3; perm++ {
				stb := t.NewStringTableBuilder()
				order := append([]string{}, adds...)
				if perm > 0 {
					r.Shuffle(len(order), func(a, b int) { order[a], order[b] = order[b], order[a] })
				}
				// some of them in pairs, as tag maps
				d.Note("adding %q", order)
				for j := 0; j < len(order); {
					if j+1 < len(order) && r.IntN(3) == 0 {
						stb.AddMap(map[string]string{order[j]: order[j+1]})
						j += 2
					} else {
						stb.AddString(order[j])
						j++
					}
				}
				stb.Finalize()
				tab := stb.ToStringTable().S
				bad := len(tab) != len(want)
				for j := 0; !bad && j < len(tab); j++ {
					bad = tab[j] != want[j]
				}
				if bad {
					d.Bad("table", "after adding %s the table is %s, want %s", Trunc(fmt.Sprintf("%q", order), 600), Trunc(fmt.Sprintf("%q", tab), 600), Trunc(fmt.Sprintf("%q", want), 600))
					return
				}
				for j, s := range want {
					if g := stb.GetIndex(s); g != uint32(j) {
						d.Bad("index", "number of %q is %d, want %d", s, g, j)
						return
					}
				}
				// tag maps made of added strings
				for m := 0; m < 3+len(want)/500; m++ {
					tags := map[string]string{}
					for j := r.IntN(8); j > 0; j-- {
						tags[want[r.IntN(len(want))]] = want[r.IntN(len(want))]
					}
					d.Note("converting %q", tags)
					ks, vs := stb.ToKeyVals(tags)
					lin := stb.ToKeyValLinear(tags)
					if x := checkTags(tab, tags, ks, vs, lin); x != "" {
						d.Bad("tags", "tags %q convert to %v %v %v: %s", tags, ks, vs, lin, x)
						return
					}
					d.Count("tag_maps", 1)
				}
				d.Eval(Hash(fmt.Sprintf("%q", order)))
			}
			if i > 10 && i < 14 {
				d.Sample(map[string]any{"added": len(adds), "distinct": len(uniq), "first": want[:min(len(want), 5)]})
			}
			d.Max("largest_table", int64(len(want)))
		}
		// very frequent strings, and the empty string more often than any counter's limit would like
		stb := t.NewStringTableBuilder()
		for j := 0; j < 300000; j++ {
			stb.AddString("")
			if j%3 == 0 {
				stb.AddString("b")
			}
			if j%3 < 2 {
				stb.AddString("c")
			}
		}
		stb.AddString("a")
		stb.Finalize()
		if s := fmt.Sprintf("%q", stb.ToStringTable().S); s != `["" "c" "b" "a"]` {
			d.Bad("table", "many additions give %s", s)
		}
		d.Eval("many")
	})
}

func checkTags(tab []string, tags map[string]string, ks, vs []uint32, lin []int32) string {
	if len(ks) != len(tags) || len(vs) != len(tags) || len(lin) != 2*len(tags) {
		return "wrong length"
	}
	last := ""
	for i := range ks {
		k, v := tab[ks[i]], tab[vs[i]]
		if i > 0 && k <= last {
			return "keys are not sorted"
		}
		last = k
		if w, ok := tags[k]; !ok || w != v {
			return fmt.Sprintf("pair %d is %q=%q", i, k, v)
		}
		if lin[2*i] != int32(ks[i]) || lin[2*i+1] != int32(vs[i]) {
			return fmt.Sprintf("flat form differs at pair %d", i)
		}
	}
	return ""
}
