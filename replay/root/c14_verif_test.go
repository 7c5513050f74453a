package ggfnt_test

//overlay fontgen.go

import (
	"testing"

	"github.com/tinne26/ggfnt"
)

// The predefined words of the format.
var vPredef = [256]string{
	"undefined", "undefined", "undefined", "undefined", "undefined", "undefined", "undefined", "undefined",
	"undefined", "undefined", "fall", "autumn", "spring", "summer", "winter", "pixel",
	"ggfnt", "freezing", "frosty", "cold", "warm", "hot", "one", "two",
	"three", "four", "five", "six", "seven", "eight", "nine", "ten",
	"first", "second", "third", "fourth", "fifth", "sixth", "continuous", "connect",
	"glue", "glued", "disconnect", "join", "split", "separate", "nothing", "everything",
	"none", "all", "incomplete", "partial", "complete", "half", "halved", "apply",
	"disregard", "shallow", "deep", "omit", "include", "exclude", "full-width", "full-height",
	"squeezed", "ascending", "descending", "slant", "italic", "italicised", "slanted", "small",
	"big", "centered", "aligned", "center", "left", "right", "free", "hand",
	"geometric", "bouncy", "floaty", "serif", "sans", "sans-serif", "swash", "decorated",
	"icons", "words", "initials", "sterile", "clean", "basic", "small-caps", "unicase",
	"titling-caps", "petite-caps", "uppercase", "lowercase", "minimum", "low", "medium", "median",
	"average", "high", "maximum", "top", "bottom", "up", "down", "dye",
	"palette", "grayscale", "monochrome", "mono", "colored", "uncolored", "light", "gray",
	"dark", "opaque", "solid", "pattern", "semi", "open", "closed", "rotated",
	"straight", "perpendicular", "orthogonal", "sharp", "curved", "flat", "smooth", "rough",
	"thin", "wide", "thick", "compact", "spaced", "loose", "slim", "hollow",
	"inverted", "reversed", "inverse", "reverse", "weak", "strong", "hard", "soft",
	"simple", "minimal", "minimalistic", "complex", "advanced", "modern", "futuristic", "traditional",
	"vintage", "classic", "elegant", "formal", "serious", "professional", "informal", "casual",
	"playful", "funny", "quirky", "weird", "flashy", "edgy", "trendy", "whimsical",
	"romantic", "sensual", "cozy", "flowy", "flowery", "ornate", "normal", "regular",
	"tabular", "proportional", "lining", "oldstyle", "no-slash", "slash", "nil", "null",
	"undefined", "standby", "neutral", "manual", "automatic", "static", "dynamic", "animated",
	"default", "alt-A", "alt-B", "alt-C", "alt-D", "enabled", "disabled", "active",
	"inactive", "on", "off", "variant-A", "variant-B", "variant-C", "variant-D", "variant-E",
	"variant-F", "variant-G", "variant-H", "1", "2", "3", "4", "5",
	"6", "7", "8", "9", "10", "11", "12", "13",
	"14", "15", "16", "17", "18", "19", "20", "25",
	"30", "35", "40", "45", "50", "55", "60", "65",
	"70", "75", "80", "85", "90", "95", "99", "100",
}

func (f *vFont) word(i uint8) string {
	if int(i) < len(f.words) {
		return f.words[i]
	}
	return vPredef[i]
}

func TestVerifC14(t *testing.T) {
	verifRun(t, 20000, vCase{"predefined", 1, func(g *vG) {
		i := uint8(g.N(256))
		g.Check(ggfnt.GetPredefinedWord(i) == vPredef[i], "predefined word %d is %q, expected %q", i, ggfnt.GetPredefinedWord(i), vPredef[i])
	}}, vCase{"settings", 10, func(g *vG) {
		f := vGenFont(g, "settings")
		f.Log(g)
		x := f.Font().Settings()
		g.Check(int(x.NumWords()) == len(f.words), "NumWords %d, stored %d", x.NumWords(), len(f.words))
		g.Check(int(x.Count()) == len(f.sets), "Count %d, stored %d", x.Count(), len(f.sets))
		for k := 0; k < 12; k++ {
			i := uint8(g.Pick(g.N(256), len(f.words), len(f.words)-1, 0, 255))
			g.Check(x.GetWord(i) == f.word(i), "GetWord(%d) is %q, expected %q", i, x.GetWord(i), f.word(i))
		}
		for key := 0; key < 256; key += g.R(1, 1+len(f.sets)/8) {
			n := int(x.GetNumOptions(ggfnt.SettingKey(key)))
			want := 0
			if key < len(f.sets) {
				want = len(f.sets[key].data)
			}
			g.Check(n == want, "GetNumOptions(%d) is %d, expected %d", key, n, want)
			for k := 0; k < 3; k++ {
				o := g.Pick(0, want-1, want, g.N(256), g.N(want+1))
				if o < 0 || o > 255 {
					continue
				}
				var s string
				p := g.Panics(func() { s = x.GetOptionName(ggfnt.SettingKey(key), uint8(o)) })
				g.Check(p == (o >= want), "GetOptionName(%d, %d) with %d options: panics %v", key, o, want, p)
				if !p {
					w := f.word(f.sets[key].data[o])
					g.Check(s == w, "GetOptionName(%d, %d) is %q, expected %q (word %d)", key, o, s, w, f.sets[key].data[o])
				}
			}
			if key > len(f.sets)+2 {
				break
			}
		}
		n := 0
		x.Each(func(key ggfnt.SettingKey, name string) {
			g.Check(int(key) == n && n < len(f.sets) && name == f.sets[n].name, "Each call %d gives (%d, %q)", n, key, name)
			n++
		})
		g.Check(n == len(f.sets), "Each made %d calls for %d settings", n, len(f.sets))
	}})
}
