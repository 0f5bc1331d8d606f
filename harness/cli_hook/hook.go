package main

// Mapped into the package of the command line tool by the build overlay: the randomness of one run
// is taken from VERIF_CLI_CHOICES. Without the variable the tool is as it is.

import (
	mrand "math/rand"
	"os"
	"reflect"
	"strconv"
	"strings"
	_ "unsafe"

	"github.com/go-faker/faker/v4"
)

//go:linkname verifMapMode internal/runtime/maps.verifMapMode
var verifMapMode uint64

type verifFakerSource struct{ mrand.Source }

var verifFaker = &verifFakerSource{mrand.NewSource(1)}

type verifCrypto struct{}

func (verifCrypto) Read(p []byte) (int, error) {
	for i := range p {
		v, _ := mrand.VerifHook(nil, mrand.VerifBits, 8)
		p[i] = byte(v)
	}
	return len(p), nil
}

func init() {
	list, on := os.LookupEnv("VERIF_CLI_CHOICES")
	if !on {
		return
	}
	os.Unsetenv("VERIF_CLI_CHOICES")
	var choices []uint64
	for _, f := range strings.Fields(list) {
		v, err := strconv.ParseUint(f, 10, 64)
		if err != nil {
			panic(err)
		}
		choices = append(choices, v)
	}
	pos, draws := 0, 0
	quiet := uint64(0)
	domMax := func(kind int, n uint64) uint64 {
		if kind == mrand.VerifBounded {
			return n - 1
		}
		if n >= 64 {
			return ^uint64(0)
		}
		return 1<<n - 1
	}
	mix64 := func(x uint64) uint64 {
		x ^= x >> 30
		x *= 0xbf58476d1ce4e5b9
		x ^= x >> 27
		x *= 0x94d049bb133111eb
		x ^= x >> 31
		return x
	}
	faker.SetRandomSource(verifFaker)
	faker.SetCryptoSource(verifCrypto{})
	mrand.VerifHook = func(src mrand.Source, kind int, n uint64) (uint64, bool) {
		if draws++; draws > 3000000 {
			os.Exit(97)
		}
		isQuiet := src == nil || src == mrand.Source(verifFaker)
		if !isQuiet {
			t := reflect.TypeOf(src)
			if t.Kind() == reflect.Pointer {
				t = t.Elem()
			}
			isQuiet = strings.HasSuffix(t.PkgPath(), "internal/regen")
		}
		max := domMax(kind, n)
		if isQuiet {
			quiet++
			x := mix64(quiet * 0x9e3779b97f4a7c15)
			if max == ^uint64(0) {
				return x, true
			}
			return x % (max + 1), true
		}
		v := uint64(0)
		if pos < len(choices) {
			v = min(choices[pos], max)
		}
		pos++
		return v, true
	}
	verifMapMode = 1
}
