// Package spec states what the verifier circuit must do. It is never compiled or executed: the
// analyzer interprets it abstractly together with the source of the repository, and the functions
// without a body below are its vocabulary.
package spec

import (
	"math/big"

	"github.com/consensys/gnark/frontend"
)

// N is a node of the value graph: an element of the native field, or an integer that is known not
// to wrap around it.
type N struct{ _ int }

// T records expectations.
type T struct{ _ int }

func C(x uint64) N
func CS(x string) N
func Add(x ...N) N
func Sub(a, b N) N
func Mul(x ...N) N
func Mod(a N) N  // representative modulo the Goldilocks prime
func GInv(a N) N // inverse modulo the Goldilocks prime
func Sel(b, x, y N) N
func Bit(x N, i int) N
func IsZero(x N) N
func UF(name string, i int, args ...N) N
func UFG(name string, i int, args ...N) N
func Of(v frontend.Variable) N
func Var(n N) frontend.Variable // a variable that belongs to the caller
func Own(n N) frontend.Variable // a value the circuit computed
func IsConst(n N) bool
func Same(a, b N) bool

func (t T) Names(prefix string)              // prefix of the symbols made from here on
func (t T) Sym(name string) N               // canonical Goldilocks element
func (t T) SymNat(name string) N            // any native element
func (t T) SymBits(name string, n int) N    // below 2^n
func (t T) Big(name string, n int) *big.Int // symbolic integer below 2^n (n=0: canonical)
func (t T) BigC(s string) *big.Int
func (t T) Int(name string, vals ...int) int
func (t T) Str(name string, vals ...string) string
func (t T) IntNovel(name string, lo, hi int, vals ...int) int
func (t T) Novel() []uint64
func (t T) Thorough() bool
func (t T) API(scenario string) frontend.API
func (t T) SetField(api frontend.API, modulus string)
func (t T) Finalize(api frontend.API)
func (t T) Env(key, val string)

// constraints the circuit must contain
func (t T) EQ(tag, what string, a, b N)
func (t T) Canon(tag, what string, a N)
func (t T) Bits(tag, what string, a N, n int)
func (t T) NZ(tag, what string, a ...N)

// non-zero conditions the circuit may impose
func (t T) OptNZ(a ...N)

// every application of the named function in a constraint occurs in the given terms
func (t T) UsesOnly(tag, what, fn string, terms ...N)

// facts
func (t T) Equal(tag, what string, got, want N)
func (t T) EqualInt(tag, what string, got, want uint64)
func (t T) DeepEqual(tag, what string, got, want interface{})
func (t T) True(tag, what string, b bool)
func (t T) Fail(tag, what string)
func (t T) Panics(tag, what string, f func())
func (t T) Outcome(f func()) string // ok, panic, exit, maybe
func (t T) LastMsg() string

func (t T) FaultAt(k int)
func (t T) Faults() int
func (t T) FaultName(k int) string
func (t T) ChooseFault(n int) int
func (t T) JSONLen(path string, n int)
func (t T) JSONStr(path, v string)
func (t T) JSONInt(path string, v uint64)
func (t T) JSONBool(path string, v bool)
func (t T) DocInt(path string) uint64
func (t T) DocStr(path string) string
func (t T) DocBool(path string) bool
func (t T) Participants(n int)
func (t T) Events() []string
func (t T) ClearEvents()
func (t T) Honest()          // from here on hints compute their outputs, and every constraint must hold
func (t T) HonestHints() int // number of hints computed
func (t T) IgnoreEffects()
func (t T) ClearEffects()
func (t T) NumEffects() int
func (t T) EffectLog() []string
func (t T) Registered(f func(*big.Int, []*big.Int, []*big.Int) error) bool
func (t T) ZEq(tag, what string, got, want *big.Int)
func (t T) StrEq(tag, what string, got, want string)
func (t T) GlInvBig(x *big.Int) *big.Int
func (t T) MapReverse(on bool)
func (t T) MapRotate(k int)
func (t T) MapShuffle(seed int) // every iteration over a map has an order of its own
func (t T) TraceStart()
func (t T) TraceCheck(tag, what, key string) // the trace equals the first one checked with this key
func (t T) MapRanges() int
func (t T) SamePtr(a, b interface{}) bool
func (t T) ChipIDs(x interface{}) []string
func (t T) WatchShared()
func (t T) Publish()
func (t T) LockReport(tag string) int

func (t T) Flag(name, value string) // command-line flag of the main package
func (t T) RunMain()
func (t T) Circuit(c interface{}) string // constants and variables of a circuit
func (t T) Witness(c interface{}) string // values of a circuit's variables
