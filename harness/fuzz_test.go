package main

import (
	"os"
	"strconv"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// FuzzRaw gives the raw search of the property in VP_FUZZ_ID to Go's
// coverage-guided fuzzer.
func FuzzRaw(f *testing.F) {
	id := os.Getenv("VP_FUZZ_ID")
	p := props[id]
	if p == nil {
		f.Skip("VP_FUZZ_ID names no property")
	}
	setupRaw()
	t := rawTargets[id]
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	gen := rapid.Custom(func(rt *rapid.T) rawCase { return t.seed(&G{t: rt}) })
	for i := 0; i < 400; i++ {
		c := gen.Example(seed<<16 + i)
		if len(c.Data)+len(c.Src) < 3000 {
			f.Add([]byte(c.Data), []byte(c.Src))
		}
	}
	f.Fuzz(func(tt *testing.T, data, src []byte) {
		if len(data)+len(src) > 1<<16 {
			return
		}
		guard := time.AfterFunc(120*time.Second, func() { panic("no answer within 120 s") })
		defer guard.Stop()
		c := rawCase{BS(data), BS(src)}
		if err := callCheck(func() error { return t.check(&c, &Obs{}) }); err != nil {
			tt.Fatal(err)
		}
	})
}
