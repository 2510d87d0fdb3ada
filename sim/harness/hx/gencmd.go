//go:build go1.22

package hx

import "fmt"

func genMain() {
	ok, n := 0, 0
	errs := map[string]int{}
	cx := NewCtx(fTier)
	p := props[fProp]
	if p == nil {
		p = props["C01"]
	}
	for ; n < fMax && n < 1000; n++ {
		c := caseOf(p, seedOf(fSeed, n), fTier)
		o, _ := cx.Load(c.Files, c.Cwd, c.Entry, &Spec{}, How{Unwrap: true, Validate: true})
		if o.V == "ok" {
			ok++
		} else {
			errs[cut(o.V+" "+o.Site+" "+o.Err, 230)]++
			if fVerbose {
				fmt.Println(n, o.V, cut(o.Err, 600))
			}
		}
	}
	fmt.Printf("%d of %d accepted, max steps %d\n", ok, n, cx.MaxSt)
}
