package pbt

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"math/rand"
	"os"
	"path/filepath"
	"runtime/debug"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Fuzz lets Go's coverage-guided fuzzer choose the bytes the generator of one check draws
// from. The check is named by VERIF_FUZZ ("ID/name"); VERIF_FUZZ_DIR is where every process
// writes the case it runs, the failing cases and the hashes of the non-trivial cases.
func Fuzz(f *testing.F) {
	dir := os.Getenv("VERIF_FUZZ_DIR")
	var e *entry
	for _, x := range entries {
		if x.id+"/"+x.name == os.Getenv("VERIF_FUZZ") {
			e = x
		}
	}
	if e == nil || dir == "" {
		f.Skip("no such check")
	}
	log.SetOutput(io.Discard)
	debug.SetGCPercent(200)
	setZone()
	mine := filepath.Join(dir, fmt.Sprintf("p%d", os.Getpid()))
	if err := os.MkdirAll(mine, 0o755); err != nil {
		f.Fatal(err)
	}
	nt, err := os.OpenFile(filepath.Join(mine, "nontrivial"), os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0o644)
	if err != nil {
		f.Fatal(err)
	}
	r := &runner{prop: e.id, scratch: mine, out: filepath.Join(mine, "result.json"), cpuCap: 60, wallCap: 10 * time.Minute, memCap: 2500 << 20,
		result: Result{Property: e.id, Subs: map[string]*SubResult{}}}
	go r.watch()
	rnd := rand.New(rand.NewSource(20261120))
	for i := 0; i < 40; i++ {
		b := make([]byte, 256<<(i%6))
		rnd.Read(b)
		if i%4 == 3 { // small draws
			for j := range b {
				if j%8 != 0 {
					b[j] = 0
				}
			}
		}
		f.Add(b)
	}
	seen := map[uint64]bool{}
	failures := 0
	// what the generator draws beyond the fuzzer's bytes
	tail := make([]byte, 1<<18)
	rnd.Read(tail)
	target := rapid.MakeFuzz(func(rt *rapid.T) {
		c := e.gen(rt)
		raw, err := json.Marshal(c)
		if err != nil {
			panic(err)
		}
		ctx, err := r.exec(e, c, raw)
		if ie, ok := err.(InfraError); ok {
			os.WriteFile(filepath.Join(mine, "infra"), []byte(ie.Error()), 0o644)
			os.Exit(3)
		}
		if ctx != nil && ctx.nontrivial {
			h := hash(raw)
			if !seen[h] {
				seen[h] = true
				nt.Write(binary.LittleEndian.AppendUint64(nil, h))
			}
		}
		if err != nil {
			failures++
			b, _ := json.Marshal(&Failure{Property: e.id, Check: e.name, Kind: "violation", Message: err.Error(), Case: raw})
			os.WriteFile(filepath.Join(mine, fmt.Sprintf("failure%d.json", failures)), b, 0o644)
			rt.Fatalf("violation")
		}
	})
	f.Fuzz(func(t *testing.T, b []byte) {
		b = b[:len(b)&^7]
		target(t, append(b[:len(b):len(b)], tail...))
	})
}
