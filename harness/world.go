package main

// Names, keys and key pairs used by the suites.  The specifications speak of
// labels ("n1", "k1"); this file maps them to real names, whose private
// indices share prefixes of interesting lengths, and to real keys.

import (
	"bytes"
	"fmt"
	"math/rand"
	"runtime"
	"sort"
	"strings"
	"sync"

	"github.com/coniks-sys/coniks-go/crypto/sign"
	"github.com/coniks-sys/coniks-go/crypto/vrf"
)

type world struct {
	vrfKey  vrf.PrivateKey
	vrfPub  vrf.PublicKey
	signKey sign.PrivateKey
	signPub sign.PublicKey
	names   map[string]string // label -> name
	labels  map[string]string // name -> label
	index   map[string][]byte // label -> private index
	keys    map[string][]byte // label -> key
	keyLbl  map[string]string // key -> label
}

type detRand struct{ r *rand.Rand }

func (d detRand) Read(p []byte) (int, error) { return d.r.Read(p) }

type candidate struct {
	name  string
	index []byte
}

var pools = map[int64][]candidate{}
var poolLock sync.Mutex
var poolCommon = 600
var poolKeys = map[int64]vrf.PrivateKey{}

// pool computes candidate names with their indices, sorted by index.
func pool(n int64) (vrf.PrivateKey, []candidate) {
	poolLock.Lock()
	defer poolLock.Unlock()
	if p, ok := pools[n]; ok {
		return poolKeys[n], p
	}
	k, err := vrf.GenerateKey(detRand{rand.New(rand.NewSource(1000 + n))})
	if err != nil {
		fatal(err)
	}
	common := poolCommon
	deep := deepNames[n]
	total := common + len(deep)
	cs := make([]candidate, total)
	var wg sync.WaitGroup
	w := runtime.NumCPU()
	for j := 0; j < w; j++ {
		wg.Add(1)
		go func(j int) {
			defer wg.Done()
			for i := j; i < total; i += w {
				nm := fmt.Sprintf("user%04d@example.org", i)
				if i >= common {
					nm = fmt.Sprintf("deep%d", deep[i-common])
					cs[i] = candidate{nm, k.Compute([]byte(nm))}
					continue
				}
				switch i % 8 {
				case 1:
					nm = fmt.Sprintf("Ünïcode-%d-名前", i)
				case 2:
					nm = fmt.Sprintf("user name %d \"<quoted>\" & more", i)
				case 3:
					nm = strings.Repeat("long-", 40) + fmt.Sprint(i)
				case 4:
					nm = fmt.Sprintf("USER%04d@EXAMPLE.ORG", i)
				case 5:
					nm = fmt.Sprintf("user%04d@twitter", i)
				}
				cs[i] = candidate{nm, k.Compute([]byte(nm))}
			}
		}(j)
	}
	wg.Wait()
	sort.Slice(cs, func(a, b int) bool { return bytes.Compare(cs[a].index, cs[b].index) < 0 })
	pools[n] = cs
	poolKeys[n] = k
	return k, cs
}

func lcp(a, b []byte) int {
	i := 0
	for i < 8*len(a) && i < 8*len(b) && bitAt(a, i) == bitAt(b, i) {
		i++
	}
	return i
}

// newWorld picks names for the labels: the first ones share long prefixes.
func newWorld(seed int64, nameLabels, keyLabels []string) *world {
	rnd := rand.New(rand.NewSource(seed))
	vk, cs := pool(seed % 2)
	w := &world{vrfKey: vk, names: map[string]string{}, labels: map[string]string{},
		index: map[string][]byte{}, keys: map[string][]byte{}, keyLbl: map[string]string{}}
	w.vrfPub, _ = vk.Public()
	var err error
	w.signKey, err = sign.GenerateKey(detRand{rand.New(rand.NewSource(2000 + seed))})
	if err != nil {
		fatal(err)
	}
	w.signPub, _ = w.signKey.Public()

	// clusters of neighbours with long common prefixes
	type pair struct{ i, l int }
	var ps []pair
	for i := 0; i+1 < len(cs); i++ {
		ps = append(ps, pair{i, lcp(cs[i].index, cs[i+1].index)})
	}
	sort.SliceStable(ps, func(a, b int) bool { return ps[a].l > ps[b].l })
	used := map[int]bool{}
	var order []int
	take := func(i int) {
		if i >= 0 && i < len(cs) && !used[i] {
			used[i] = true
			order = append(order, i)
		}
	}
	k := rnd.Intn(40)
	for len(order) < len(nameLabels) && k < len(ps) {
		i := ps[k].i
		switch rnd.Intn(4) {
		case 0: // one cluster of three
			take(i)
			take(i + 1)
			take(i + 2)
		case 1:
			take(i + 1)
			take(i)
		case 2:
			take(i)
			take(i + 1)
			take(rnd.Intn(len(cs)))
		case 3:
			take(rnd.Intn(len(cs)))
			take(i)
			take(i + 1)
		}
		k += 1 + rnd.Intn(1+k/2)
	}
	for i := 0; len(order) < len(nameLabels); i++ {
		take(i)
	}
	if len(nameLabels) <= 4 { // keep the closest pair, but vary who is who
		rnd.Shuffle(len(order), func(a, b int) { order[a], order[b] = order[b], order[a] })
	}
	for i, l := range nameLabels {
		c := cs[order[i]]
		w.names[l] = c.name
		w.labels[c.name] = l
		w.index[l] = c.index
	}
	for i, l := range keyLabels {
		k := make([]byte, 12+4*i)
		rnd.Read(k)
		switch i % 5 {
		case 1:
			k = append([]byte{0, 0, 0, 0}, k...)
		case 2:
			k = append(append([]byte{}, w.keys[keyLabels[i-1]]...), 0) // extends another key
		case 3:
			k = k[:1+rnd.Intn(3)]
		case 4:
			k = append([]byte("key\x00 \xff\xfe\"\n"), k...)
		}
		for w.keyLbl[string(k)] != "" {
			k = append(k, byte(i))
		}
		w.keys[l] = k
		w.keyLbl[string(k)] = l
	}
	w.names[""] = ""
	w.keys[""] = nil
	return w
}

// lcps is the table of common prefix lengths of the names' indices.
func (w *world) lcps(names []string) rec {
	t := rec{}
	for _, a := range names {
		r := rec{}
		for _, b := range names {
			r[b] = lcp(w.index[a], w.index[b])
		}
		t[a] = r
	}
	return t
}

func (w *world) key(k []byte) string {
	if len(k) == 0 {
		return ""
	}
	if l, ok := w.keyLbl[string(k)]; ok {
		return l
	}
	return "?"
}

func (w *world) byIndex(idx []byte) string {
	for l, i := range w.index {
		if bytes.Equal(i, idx) {
			return l
		}
	}
	return "?"
}

// intern numbers distinct strings.
type intern map[string]int

func (m intern) id(s string) int {
	if n, ok := m[s]; ok {
		return n
	}
	m[s] = len(m)
	return m[s]
}

// bytesIn collects the byte strings and strings reachable in v's exported
// fields (through JSON-like walking, see walk).
func contains(hay [][]byte, needle []byte) bool {
	if len(needle) < 8 {
		return false
	}
	for _, h := range hay {
		if bytes.Contains(h, needle) {
			return true
		}
	}
	return false
}
