// Package simrand replaces math/rand in instrumented code: random numbers belong to the simulation.
package simrand

import (
	"math/rand"

	"verifsim/rt"
)

type (
	Rand     = rand.Rand
	Source   = rand.Source
	Source64 = rand.Source64
)

type src struct{}

func (src) Int63() int64   { return int64(rt.Rand() >> 1) }
func (src) Uint64() uint64 { return rt.Rand() }
func (src) Seed(int64)     {}

var g = rand.New(src{})

func New(s Source) *Rand                 { return rand.New(s) }
func NewSource(seed int64) Source        { return rand.NewSource(seed) }
func Seed(int64)                         {}
func Int63() int64                       { return g.Int63() }
func Uint32() uint32                     { return g.Uint32() }
func Uint64() uint64                     { return g.Uint64() }
func Int31() int32                       { return g.Int31() }
func Int() int                           { return g.Int() }
func Int63n(n int64) int64               { return g.Int63n(n) }
func Int31n(n int32) int32               { return g.Int31n(n) }
func Intn(n int) int                     { return g.Intn(n) }
func Float64() float64                   { return g.Float64() }
func Float32() float32                   { return g.Float32() }
func Perm(n int) []int                   { return g.Perm(n) }
func Shuffle(n int, swap func(i, j int)) { g.Shuffle(n, swap) }
func Read(p []byte) (n int, err error)   { return g.Read(p) }
func NormFloat64() float64               { return g.NormFloat64() }
func ExpFloat64() float64                { return g.ExpFloat64() }

// VerifSim gives every importing file a use of the package.
const VerifSim = 0
