package base

import (
	"bytes"
	"fmt"
	"os"
	"sync"
	"testing"

	"pgregory.net/rapid"

	"github.com/icon-project/btp/common/db"

	"verif/gocheck/pbt"
)

// TestD01_Databases: several goroutines use the buckets of one database, each with keys of its own.
func TestD01_Databases(t *testing.T) {
	type op struct {
		kind, bucket, key byte
	}
	pbt.Check(t, 40, "at least two goroutines on one bucket", func(t *rapid.T, c *pbt.Case) {
		backend := rapid.SampledFrom([]string{"mapdb", "mapdb", "goleveldb"}).Draw(t, "backend")
		layered := rapid.Bool().Draw(t, "layer")
		flushAt := rapid.IntRange(0, 40).Draw(t, "flush")
		n := rapid.IntRange(2, 5).Draw(t, "goroutines")
		plans := make([][]op, n)
		buckets := map[byte]int{}
		for i := range plans {
			used := map[byte]bool{}
			for j := rapid.IntRange(1, 30).Draw(t, "ops"); j > 0; j-- {
				o := op{byte(pbt.Pick(t, "kind", 5)), byte(pbt.Pick(t, "bucket", 3)), byte(pbt.Pick(t, "key", 4))}
				plans[i] = append(plans[i], o)
				used[o.bucket] = true
			}
			for b := range used {
				buckets[b]++
			}
		}
		dir, err := os.MkdirTemp("", "d01")
		if err != nil {
			t.Fatal(err)
		}
		defer os.RemoveAll(dir)
		raw, err := db.Open(dir, backend, "test")
		if err != nil {
			t.Fatal(err)
		}
		defer raw.Close()
		d := raw
		var layer db.LayerDB
		if layered {
			layer = db.NewLayerDB(raw)
			d = layer
		}
		errs := make([]string, n+1)
		var wg sync.WaitGroup
		finals := make([]map[string][]byte, n)
		for i := range plans {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				have := map[string][]byte{}
				finals[i] = have
				for j, o := range plans[i] {
					bk, err := d.GetBucket(db.BucketID([]byte{'A' + o.bucket}))
					if err != nil {
						errs[i] = err.Error()
						return
					}
					key := []byte(fmt.Sprintf("%d-%d", i, o.key))
					mk := string([]byte{'A' + o.bucket}) + string(key)
					switch o.kind {
					case 0, 1:
						v := []byte(fmt.Sprint("value", i, j))
						err = bk.Set(key, v)
						have[mk] = v
					case 2:
						err = bk.Delete(key)
						delete(have, mk)
					case 3:
						var v []byte
						v, err = bk.Get(key)
						if !bytes.Equal(v, have[mk]) {
							errs[i] = fmt.Sprintf("read %q for %q", v, have[mk])
							return
						}
					default:
						if _, ok := have[mk]; bk.Has(key) != ok {
							errs[i] = fmt.Sprintf("presence of %s is not %v", key, ok)
							return
						}
					}
					if err != nil {
						errs[i] = err.Error()
						return
					}
					if layer != nil && i == 0 && j == flushAt {
						if err := layer.Flush(true); err != nil {
							errs[i] = err.Error()
							return
						}
					}
				}
			}(i)
		}
		wg.Wait()
		if layer != nil {
			if err := layer.Flush(true); err != nil {
				t.Fatal(err)
			}
		}
		for i := range finals {
			if errs[i] != "" {
				t.Fatalf("goroutine %d: %s", i, errs[i])
			}
			for mk, v := range finals[i] {
				bk, err := raw.GetBucket(db.BucketID(mk[:1]))
				if err != nil {
					t.Fatal(err)
				}
				if g, err := bk.Get([]byte(mk[1:])); err != nil || !bytes.Equal(g, v) {
					t.Fatalf("%s is %q for %q, %v", mk, g, v, err)
				}
			}
		}
		c.Key("%s %v %v", backend, layered, plans)
		shared := false
		for _, k := range buckets {
			shared = shared || k > 1
		}
		c.NonTrivial(shared)
	})
}
