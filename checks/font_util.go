package checks

import (
	"fmt"
	"math/big"
	"os"
	"sync"

	"verif/internal/fontgen"
	"verif/internal/mc"

	"github.com/golang/freetype/truetype"
	"golang.org/x/image/math/fixed"
)

// repoDir is where the code under test lies.
func repoDir() string {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		return d
	}
	return "/repo"
}

var fontNames = []string{"luximr", "luxirr", "luxisr"}

type realFont struct {
	name  string
	bytes []byte
	ttx   *fontgen.TTX
	err   error
}

var (
	realOnce  sync.Once
	realFonts []*realFont
)

// loadRealFonts reads the bundled fonts and their XML dumps.
func loadRealFonts() ([]*realFont, error) {
	realOnce.Do(func() {
		realFonts = make([]*realFont, len(fontNames))
		var wg sync.WaitGroup
		for i, n := range fontNames {
			wg.Add(1)
			go func() {
				defer wg.Done()
				r := &realFont{name: n}
				r.bytes, r.err = os.ReadFile(repoDir() + "/testdata/" + n + ".ttf")
				if r.err == nil {
					r.ttx, r.err = fontgen.ReadTTX(repoDir() + "/testdata/" + n + ".ttx")
				}
				realFonts[i] = r
			}()
		}
		wg.Wait()
	})
	for _, r := range realFonts {
		if r.err != nil {
			return nil, r.err
		}
	}
	return realFonts, nil
}

// parseOK parses a font that must be accepted.
func parseOK(b []byte) (*truetype.Font, error) {
	f, err := truetype.Parse(b)
	if err != nil {
		return nil, fmt.Errorf("a well-formed font is rejected: %v", err)
	}
	if f == nil {
		return nil, fmt.Errorf("Parse returns neither a font nor an error")
	}
	return f, nil
}

// scaleRef is x*scale/upem, rounded to nearest, halves away from zero.
func scaleRef(scale, x, upem int) int {
	n := int64(scale) * int64(x)
	neg := n < 0
	if neg {
		n = -n
	}
	q := (2*n + int64(upem)) / (2 * int64(upem))
	if neg {
		q = -q
	}
	return int(q)
}

// fits32 reports whether scale*x is within 32 bits.
func fits32(scale, x int) bool {
	p := int64(scale) * int64(x)
	return p == int64(int32(p))
}

// mulDivRef is a*b/c rounded to nearest, halves away from zero.
func mulDivRef(a, b, c int64) int64 {
	n := new(big.Int).Mul(big.NewInt(a), big.NewInt(b))
	d := big.NewInt(c)
	if d.Sign() < 0 {
		n.Neg(n)
		d.Neg(d)
	}
	neg := n.Sign() < 0
	n.Abs(n)
	n.Lsh(n, 1)
	n.Add(n, d)
	n.Div(n, d.Lsh(d, 1))
	v := n.Int64()
	if neg {
		v = -v
	}
	return v
}

func i26(v int) fixed.Int26_6 { return fixed.Int26_6(v) }

// intervals yields every list of at most k disjoint intervals [a,b] (in order)
// over 0..n-1, of exactly kk intervals for kk = 0..k.
func intervals(n, k int, yield func([][2]int) bool) bool {
	var rec func(from int, cur [][2]int) bool
	rec = func(from int, cur [][2]int) bool {
		if !yield(append([][2]int(nil), cur...)) {
			return false
		}
		if len(cur) == k {
			return true
		}
		for a := from; a < n; a++ {
			for b := a; b < n; b++ {
				if !rec(b+1, append(cur, [2]int{a, b})) {
					return false
				}
			}
		}
		return true
	}
	return rec(0, nil)
}

// tuples yields all tuples of length n over 0..k-1.
func tuples(n, k int, yield func([]int) bool) bool {
	t := make([]int, n)
	for {
		if !yield(append([]int(nil), t...)) {
			return false
		}
		i := n - 1
		for ; i >= 0; i-- {
			t[i]++
			if t[i] < k {
				break
			}
			t[i] = 0
		}
		if i < 0 {
			return true
		}
	}
}

// permutations yields all permutations of 0..n-1.
func permutations(n int, yield func([]int) bool) bool {
	p := make([]int, 0, n)
	used := make([]bool, n)
	var rec func() bool
	rec = func() bool {
		if len(p) == n {
			return yield(append([]int(nil), p...))
		}
		for i := 0; i < n; i++ {
			if !used[i] {
				used[i] = true
				p = append(p, i)
				if !rec() {
					return false
				}
				p = p[:len(p)-1]
				used[i] = false
			}
		}
		return true
	}
	return rec()
}

// scratchFont is a per-worker font whose parts a case may replace.
func scratchFont(x *mc.X) *fontgen.Font {
	if x.Scratch == nil {
		x.Scratch = fontgen.New(nil)
	}
	return x.Scratch.(*fontgen.Font)
}
