package internal_test

import (
	"slices"
	"sort"
	"testing"

	"github.com/tinne26/ggfnt/internal"
)

func c06slice(g *vG) (back []int, s []int) {
	back = make([]int, g.R(0, 14))
	for i := range back {
		back[i] = 1 + g.N(9)
	}
	lo := g.N(len(back) + 1)
	hi := lo + g.N(len(back)-lo+1)
	return back, back[lo:hi]
}

func TestVerifC06(t *testing.T) {
	verifRun(t, 60000,
		vCase{"grow", 1, func(g *vG) {
			_, s := c06slice(g)
			keep := slices.Clone(s)
			n := g.N(8)
			one := g.Bool()
			if one {
				n = 1
			}
			g.Logf("grow %v (cap %d) by %d, one %v", s, cap(s), n, one)
			ext := slices.Clone(s[:cap(s)])
			var r []int
			if one {
				r = internal.GrowSliceByOne(s)
			} else {
				r = internal.GrowSliceByN(s, n)
			}
			g.Check(len(r) == len(keep)+n && slices.Equal(r[:len(keep)], keep), "got %v", r)
			if len(keep)+n <= cap(s) {
				g.Check(slices.Equal(r, ext[:len(r)]) && (len(r) == 0 || &r[0] == &s[:1][0]), "storage not reused or cleared: %v, had %v", r, ext)
			}
		}},
		vCase{"size", 1, func(g *vG) {
			_, s := c06slice(g)
			n := g.N(18)
			g.Logf("size of %v (cap %d) to %d", s, cap(s), n)
			r := internal.SetSliceSize(s, n)
			g.Check(len(r) == n, "got %d", len(r))
			if n > 0 && n <= cap(s) {
				g.Check(&r[0] == &s[:1][0], "storage not reused")
			}
		}},
		vCase{"delete", 1, func(g *vG) {
			back, s := c06slice(g)
			keep := slices.Clone(s)
			all := slices.Clone(back)
			i := g.N(len(s) + 3)
			g.Logf("delete %d of %v", i, s)
			r := internal.DeleteElementAt(s, i)
			want := keep
			if i < len(keep) {
				want = append(slices.Clone(keep[:i]), keep[i+1:]...)
				g.Check(s[len(s)-1] == keep[i], "the removed element is not kept behind the end: %v", s)
			}
			g.Check(slices.Equal(r, want), "got %v want %v", r, want)
			lo := len(back) - cap(s)
			for k := range back {
				if k < lo || k >= lo+len(s) {
					g.Check(back[k] == all[k], "wrote outside the slice")
				}
			}
		}},
		vCase{"search", 1, func(g *vG) {
			s := make([]int, g.N(20))
			for i := range s {
				s[i] = g.N(25)
			}
			sort.Ints(s)
			x := g.R(-1, 26)
			g.Logf("search %d in %v", x, s)
			i, ok := internal.BadBinarySearch(s, x)
			wi, wok := slices.BinarySearch(s, x)
			g.Check(i == wi && ok == wok, "got %d %v want %d %v", i, ok, wi, wok)
		}},
		vCase{"insert", 2, func(g *vG) {
			var s []int
			set := map[int]bool{}
			for k := g.N(14); k > 0; k-- {
				set[g.N(20)] = true
			}
			s = make([]int, 0, g.N(20))
			for v := range set {
				s = append(s, v)
			}
			sort.Ints(s)
			for k := g.R(1, 6); k > 0; k-- {
				x := g.R(-1, 21)
				g.Logf("insert %d into %v (cap %d)", x, s, cap(s))
				set[x] = true
				s = internal.BasicOrderedNonRepeatInsert(s, x)
				var want []int
				for v := range set {
					want = append(want, v)
				}
				sort.Ints(want)
				g.Check(slices.Equal(s, want), "got %v want %v", s, want)
			}
		}},
		vCase{"bool", 1, func(g *vG) {
			v := uint8(g.U64())
			if g.Bool() {
				v = uint8(g.N(4))
			}
			g.Logf("bool byte %d", v)
			g.Check((internal.BoolErrCheck(v) == nil) == (v < 2), "BoolErrCheck")
			g.Check(internal.BoolToUint8(true) == 1 && internal.BoolToUint8(false) == 0, "BoolToUint8")
		}},
	)
}
