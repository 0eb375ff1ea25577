// Package vp is the vocabulary of the contracts in /verif/contracts.
//
// The verifier (gvc) interprets these functions symbolically. The bodies below
// are the executable meaning, used when a contract is replayed on concrete
// inputs against the real code.
package vp

import (
	"context"
	"math"
	"slices"
	"sync"
)

type skipT struct{}
type failT struct{ name string }

// Tol is the relative tolerance for float comparisons of contracts proved over the reals.
var Tol = 0.0

var onSuccess []string

// Requires is a precondition.
func Requires(b bool) {
	if !b {
		panic(skipT{})
	}
}

// Ensures is a named postcondition.
func Ensures(name string, b bool) {
	if !b {
		panic(failT{name})
	}
}

// Assert is a named intermediate assertion.
func Assert(name string, b bool) { Ensures(name, b) }

// Lemma is a proof step: an obligation that later obligations may use.
func Lemma(name string, b bool) {}

// LoopInv offers a loop invariant template: f is instantiated over the loop-carried variables of matching types.
func LoopInv(name string, f any) {}

// Variant offers a termination measure template.
func Variant(name string, f any) {}

// DropLoopInv forgets the templates offered so far.
func DropLoopInv() {}

func Imp(a, b bool) bool { return !a || b }
func Iff(a, b bool) bool { return a == b }
func And(a, b bool) bool { return a && b }
func Or(a, b bool) bool  { return a || b }

func Forall(lo, hi int, f func(int) bool) bool {
	for i := lo; i < hi; i++ {
		if !f(i) {
			return false
		}
	}
	return true
}

func Exists(lo, hi int, f func(int) bool) bool {
	for i := lo; i < hi; i++ {
		if f(i) {
			return true
		}
	}
	return false
}

// Sum adds f(lo) ... f(hi-1) in order; Count counts the indices where f holds.
func Sum(lo, hi int, f func(int) float64) float64 {
	t := 0.0
	for i := lo; i < hi; i++ {
		t += f(i)
	}
	return t
}

func Count(lo, hi int, f func(int) bool) int {
	t := 0
	for i := lo; i < hi; i++ {
		if f(i) {
			t++
		}
	}
	return t
}

// ForallStr quantifies over all strings (concretely: over a pool).
func ForallStr(f func(string) bool) bool {
	for _, s := range strPool {
		if !f(s) {
			return false
		}
	}
	return true
}

func ForallFloat(f func(float64) bool) bool {
	for _, x := range floatPool {
		if !f(x) {
			return false
		}
	}
	return true
}

func ForallInt(f func(int) bool) bool {
	for x := -3; x < 40; x++ {
		if !f(x) {
			return false
		}
	}
	return true
}

func tol(a, b float64) float64 {
	if math.IsInf(a, 0) || math.IsInf(b, 0) {
		return 0
	}
	return Tol * (1 + math.Abs(a) + math.Abs(b))
}

// LeF, LtF, EqF compare floats: exactly in the proof, up to rounding when a real-arithmetic contract is replayed.
func LeF(a, b float64) bool { return a <= b+tol(a, b) }
func LtF(a, b float64) bool { return a < b+tol(a, b) }
func EqF(a, b float64) bool {
	if math.IsNaN(a) && math.IsNaN(b) {
		return true
	}
	return a == b || math.Abs(a-b) <= tol(a, b)
}
func SameF(a, b float64) bool {
	return math.Float64bits(a) == math.Float64bits(b) || a != a && b != b
}
func Finite(x float64) bool { return !math.IsNaN(x) && !math.IsInf(x, 0) }
func IsNaN(x float64) bool  { return x != x }

// Congruent: a = b + k*m for some integer k.
func Congruent(a, b, m float64) bool {
	d := (a - b) / m
	return math.Abs(d-math.Round(d)) <= 1e-6*(1+math.Abs(d))
}

func CloneSlice[T any](s []T) []T { return slices.Clone(s) }

// Fresh: the object was allocated during the call.
func Fresh[T any](p *T) bool { return p != nil }

// Any is an arbitrary value.
func Any[T any]() T {
	var z T
	if cur != nil {
		fill(cur, &z)
	}
	return z
}

// Modifies / ModifiesAll are frames, used when a contract stands for its target at a call site.
func Modifies[T any](p *T) {}
func ModifiesAll[T any]()  {}

// LocksReleased: every lock taken is released. OneCritical: each lock is taken at most once.
func LocksReleased() {}
func OneCritical()   {}

// Interfere declares that other goroutines may replace the value of an atomic location before each access to it.
func Interfere[T any](p *T, rely func(v any) bool) {}

// WriteCount, PrevValue, NewValue describe this call's atomic writes to a location under interference.
func WriteCount[T any](p *T) int { return 1 }
func PrevValue[T any](p *T) any  { return nil }
func NewValue[T any](p *T) any   { return nil }

// Cancelled: the context has been observed as done.
func Cancelled(ctx context.Context) bool { return ctx.Err() != nil }

func SyncMapLen(m *sync.Map) int {
	n := 0
	m.Range(func(_, _ any) bool { n++; return true })
	return n
}

// SyncMapAll: every entry of the map satisfies f.
func SyncMapAll(m *sync.Map, f func(k, v any) bool) bool {
	ok := true
	m.Range(func(k, v any) bool { ok = ok && f(k, v); return true })
	return ok
}

// Visited, VisitedKey, VisitedCount: the keys seen so far by the map iteration a loop invariant is about,
// in the order of their visit.
func Visited[K any](k K) bool      { return true }
func VisitedKey[K any](i int) (k K) { return }
func VisitedCount() int            { return 0 }

// PoolHolds declares what holds of everything put into the pool.
func PoolHolds(_ *sync.Pool, _ func(v any) bool) {}

// Reachable is a vacuity check: the point must be reachable.
func Reachable(name string) {}

// Frozen is f as it is now, for arguments in [0, n): later changes of the state do not change it.
func Frozen[T any](n int, f func(int) T) func(int) T {
	v := make([]T, max(n, 0))
	for i := range v {
		v[i] = f(i)
	}
	return func(i int) T { return v[i] }
}
