package vp

import (
	"crypto/aes"
	"crypto/sha512"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"runtime"
	"strconv"
	"strings"
	"sync"
)

// Model is a solver model: values of named variables and function tables.
type Model struct {
	Vars map[string]string            // hex
	UF   map[string]map[string]string // name -> argument hex -> value hex
	Cfg  map[string]int
}

var (
	mu     sync.Mutex
	names  map[string]int
	model  Model
	live   bool
	logOut bool
)

// RunNative replays the model in $VP_MODEL through harness h.
func RunNative(h func()) {
	if f := os.Getenv("VP_MODEL"); f != "" {
		b, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		if err := json.Unmarshal(b, &model); err != nil {
			panic(err)
		}
	}
	names = map[string]int{}
	live = true
	logOut = os.Getenv("VP_LOG") != ""
	h()
}

func counter(name string) (int, bool) {
	if !live {
		return 0, false
	}
	mu.Lock()
	defer mu.Unlock()
	k := names[name]
	names[name] = k + 1
	return k, true
}

func varHex(n string) *big.Int {
	v := new(big.Int)
	if s, ok := model.Vars[n]; ok {
		v.SetString(s, 16)
	}
	return v
}

func nextVar(name string) uint64 {
	k, ok := counter(name)
	if !ok {
		return 0
	}
	return varHex(name + "#" + strconv.Itoa(k)).Uint64()
}

func nextBytes(name string, n int) []byte {
	out := make([]byte, n)
	k, ok := counter(name)
	if !ok {
		return out
	}
	for i := range out {
		out[i] = byte(varHex(name + "#" + strconv.Itoa(k) + "." + strconv.Itoa(i)).Uint64())
	}
	return out
}

func cfgValue(name string, def int) int {
	if v, ok := model.Cfg[name]; ok {
		return v
	}
	return def
}

func ufValue(name string, n int, args [][]byte) []byte {
	full := name + "/"
	var all []byte
	for i, a := range args {
		if i > 0 {
			full += ","
		}
		full += strconv.Itoa(len(a))
		all = append(all, a...)
	}
	full += "/" + strconv.Itoa(n)
	if len(all) == 0 {
		all = []byte{0}
	}
	if t, ok := model.UF[full]; ok {
		if v, ok := t[hex.EncodeToString(all)]; ok {
			b, _ := hex.DecodeString(v)
			return b
		}
	}
	if full == "aes/16,16/16" {
		c, err := aes.NewCipher(args[0])
		if err == nil {
			out := make([]byte, 16)
			c.Encrypt(out, args[1])
			return out
		}
	}
	out := make([]byte, 0, n)
	for i := 0; len(out) < n; i++ {
		h := sha512.Sum512([]byte(full + "|" + strconv.Itoa(i) + "|" + string(all)))
		out = append(out, h[:]...)
	}
	return out[:n]
}

func yield() { runtime.Gosched() }

func logNative(a ...interface{}) {
	if logOut {
		var s []string
		for _, v := range a {
			if b, ok := v.([]byte); ok {
				s = append(s, hex.EncodeToString(b))
				continue
			}
			s = append(s, fmt.Sprintf("%v", v))
		}
		fmt.Println("VP-LOG", strings.Join(s, " "))
	}
}
