package sfnt

import (
	"testing"

	"verifsim/prng"
)

func TestGen(t *testing.T) {
	r := prng.New(1)
	tot := 0
	n4 := 0
	for i := 0; i < 5000; i++ {
		s := NewSpec(r)
		if i%3 == 0 {
			s = NewSmall(r)
		}
		if i%500 == 7 {
			s = NewHuge(r)
		}
		b := s.Bytes()
		tot += len(b)
		m, p := Parse(b)
		if m == nil || len(p) > 0 {
			t.Fatalf("%+v: %v", s, p)
		}
		if m.Cmap != nil {
			for i := range m.Cmap.Subs {
				if _, ex := m.Cmap.Subs[i].RuneMap(); !ex && !m.Cmap.Subs[i].Unknown {
					n4++
				}
			}
		}
	}
	t.Log(tot, n4)
	for _, n := range RealFonts {
		m, p := Parse(Spec{Real: n}.Bytes())
		t.Log(n, m != nil, p)
	}
}
