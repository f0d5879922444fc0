package fontgen

import (
	"encoding/xml"
	"io"
	"os"
	"strconv"
	"strings"
)

// TTX is what the checks use from a font's XML dump.
type TTX struct {
	UPEM, Ascent, Descent int
	BBox                  [4]int
	TypoAsc, TypoDesc     int
	Order                 []string
	ID                    map[string]int
	HM                    []HM
	Cmap                  map[int]map[int]string // by platform<<16|encoding
	Glyphs                []TTXGlyph
	Names                 []TTXName
	Kern                  []KernPair
	HasVMtx               bool
}

// TTXName is a name record.
type TTXName struct {
	ID, PID, EID int
	Text         string
}

// TTXGlyph is an outline in the dump.
type TTXGlyph struct {
	BBox     [4]int
	Empty    bool
	Contours [][]Pt
	Comps    []TTXComp
}

// TTXComp is a component in the dump.
type TTXComp struct {
	Glyph        int
	X, Y, Flags  int
	HasTransform bool
}

type xnode struct {
	XMLName  xml.Name
	Attrs    []xml.Attr `xml:",any,attr"`
	Children []xnode    `xml:",any"`
	Text     string     `xml:",chardata"`
}

func (n *xnode) attr(k string) string {
	for _, a := range n.Attrs {
		if a.Name.Local == k {
			return a.Value
		}
	}
	return ""
}

func (n *xnode) num(k string) int {
	v, _ := strconv.ParseInt(n.attr(k), 0, 64)
	return int(v)
}

func (n *xnode) child(k string) *xnode {
	for i := range n.Children {
		if n.Children[i].XMLName.Local == k {
			return &n.Children[i]
		}
	}
	return &xnode{}
}

func (n *xnode) value(k string) int { return n.child(k).num("value") }

// ReadTTX parses an XML dump.
func ReadTTX(path string) (*TTX, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	var r xnode
	dec := xml.NewDecoder(strings.NewReader(string(b)))
	dec.Strict = false
	dec.CharsetReader = func(cs string, in io.Reader) (io.Reader, error) {
		b, err := io.ReadAll(in)
		var sb strings.Builder
		for _, c := range b {
			sb.WriteRune(rune(c))
		}
		return strings.NewReader(sb.String()), err
	}
	if err := dec.Decode(&r); err != nil {
		return nil, err
	}
	t := &TTX{ID: map[string]int{}, Cmap: map[int]map[int]string{}}
	for _, g := range r.child("GlyphOrder").Children {
		t.ID[g.attr("name")] = len(t.Order)
		t.Order = append(t.Order, g.attr("name"))
	}
	h := r.child("head")
	t.UPEM = h.value("unitsPerEm")
	t.BBox = [4]int{h.value("xMin"), h.value("yMin"), h.value("xMax"), h.value("yMax")}
	hh := r.child("hhea")
	t.Ascent, t.Descent = hh.value("ascent"), hh.value("descent")
	o := r.child("OS_2")
	t.TypoAsc, t.TypoDesc = o.value("sTypoAscender"), o.value("sTypoDescender")
	t.HasVMtx = r.child("vmtx").XMLName.Local != ""
	t.HM = make([]HM, len(t.Order))
	for _, m := range r.child("hmtx").Children {
		t.HM[t.ID[m.attr("name")]] = HM{m.num("width"), m.num("lsb")}
	}
	for _, c := range r.child("cmap").Children {
		if !strings.HasPrefix(c.XMLName.Local, "cmap_format") {
			continue
		}
		m := map[int]string{}
		for _, e := range c.Children {
			m[e.num("code")] = e.attr("name")
		}
		t.Cmap[c.num("platformID")<<16|c.num("platEncID")] = m
	}
	t.Glyphs = make([]TTXGlyph, len(t.Order))
	for _, g := range r.child("glyf").Children {
		x := TTXGlyph{BBox: [4]int{g.num("xMin"), g.num("yMin"), g.num("xMax"), g.num("yMax")}}
		for _, c := range g.Children {
			switch c.XMLName.Local {
			case "contour":
				var pts []Pt
				for _, p := range c.Children {
					pts = append(pts, Pt{p.num("x"), p.num("y"), p.num("on") != 0})
				}
				x.Contours = append(x.Contours, pts)
			case "component":
				x.Comps = append(x.Comps, TTXComp{t.ID[c.attr("glyphName")], c.num("x"), c.num("y"), c.num("flags"), c.attr("scale") != "" || c.attr("scalex") != "" || c.attr("scale01") != ""})
			}
		}
		x.Empty = len(x.Contours) == 0 && len(x.Comps) == 0
		t.Glyphs[t.ID[g.attr("name")]] = x
	}
	for _, n := range r.child("name").Children {
		t.Names = append(t.Names, TTXName{n.num("nameID"), n.num("platformID"), n.num("platEncID"), n.Text})
	}
	for _, s := range r.child("kern").Children {
		for _, p := range s.Children {
			t.Kern = append(t.Kern, KernPair{t.ID[p.attr("l")], t.ID[p.attr("r")], p.num("v")})
		}
	}
	return t, nil
}
