package resource

import (
	"math"

	"github.com/carlisia/bio-adapt/internal/vp"
)

//gvc:guard TokenManager.mu: tokens

// tokenPool is the representation invariant: a finite capacity and a level inside it.
func tokenPool(t *TokenManager) bool {
	return vp.Finite(t.maxTokens) && t.maxTokens >= 0 && t.tokens.Load() >= 0 && t.tokens.Load() <= t.maxTokens
}

// VPool is the invariant for contracts of other packages.
func VPool(t *TokenManager) bool { return t != nil && tokenPool(t) }

func vgenTokenManager(g *vp.Gen) *TokenManager {
	t := NewTokenManager(g.Unit() * 100)
	t.tokens.Store(t.maxTokens * g.Unit())
	return t
}

// A new pool starts full, whatever capacity is asked for.
//
//gvc:prop C04
//gvc:mode bits
//gvc:target internal/resource.NewTokenManager
func ctNewTokenManager(maxTokens float64) {
	vp.Requires(!math.IsInf(maxTokens, 1))
	t := NewTokenManager(maxTokens)
	vp.Ensures("a pool is created", t != nil && vp.Fresh(t))
	vp.Ensures("a new pool satisfies 0 <= level <= capacity", tokenPool(t))
	vp.Ensures("a new pool is full", t.tokens.Load() == t.maxTokens)
	vp.Ensures("a non-negative capacity is kept exactly", !(maxTokens >= 0) || t.maxTokens == maxTokens)
}

// Request never hands out more than asked for or available, and keeps the pool within bounds.
//
//gvc:prop C04
//gvc:mode bits
//gvc:locks
//gvc:target (*internal/resource.TokenManager).Request
func ctRequest(t *TokenManager, amount float64) {
	vp.Requires(t != nil && tokenPool(t))
	before := t.tokens.Load()
	max := t.maxTokens
	vp.Modifies(&t.tokens)
	got := t.Request(amount)
	vp.OneCritical()
	vp.Ensures("grants a non-negative amount", got >= 0)
	vp.Ensures("grants at most what was available", got <= before)
	vp.Ensures("grants at most what was asked", !(amount > 0) || got <= amount)
	vp.Ensures("grants nothing for a non-positive request", amount > 0 || got == 0)
	vp.Ensures("grants everything asked for when the pool has it", !(amount > 0 && amount <= before) || vp.SameF(got, amount))
	vp.Ensures("grants all that is left when the pool is short", !(amount > before) || got == before)
	vp.Ensures("a short pool is empty afterwards", !(amount > before) || t.tokens.Load() == 0)
	vp.Ensures("the level drops by exactly what was granted", t.tokens.Load() == before-got)
	vp.Ensures("the level drops by exactly what was asked for when the pool has it", !(amount > 0 && amount <= before) || vp.SameF(t.tokens.Load(), before-amount))
	vp.Ensures("the pool stays within bounds", tokenPool(t))
	vp.Ensures("capacity unchanged", t.maxTokens == max)
}

// Over the reals: granted plus remaining is what was there before (conservation).
//
//gvc:prop C04
func ctRequestConserves(t *TokenManager, amount float64) {
	vp.Requires(t != nil && tokenPool(t))
	before := t.tokens.Load()
	got := t.Request(amount)
	vp.Ensures("granted + remaining = previous level", vp.EqF(got+t.tokens.Load(), before))
}

//gvc:prop C04
//gvc:mode bits
//gvc:locks
//gvc:target (*internal/resource.TokenManager).Release
func ctRelease(t *TokenManager, amount float64) {
	vp.Requires(t != nil && tokenPool(t))
	before := t.tokens.Load()
	max := t.maxTokens
	t.Release(amount)
	vp.OneCritical()
	vp.Ensures("the pool stays within bounds", tokenPool(t))
	vp.Ensures("releasing never lowers the level", t.tokens.Load() >= before)
	vp.Ensures("a non-positive release changes nothing", amount > 0 || t.tokens.Load() == before)
	vp.Ensures("a release adds its amount up to the capacity", !(amount > 0) || t.tokens.Load() == before+amount || (t.tokens.Load() == max && before+amount >= max))
	vp.Ensures("capacity unchanged", t.maxTokens == max)
}

// Requesting and releasing what was granted restores the level.
//
//gvc:prop C04
func ctRequestRelease(t *TokenManager, amount float64) {
	vp.Requires(t != nil && tokenPool(t))
	before := t.tokens.Load()
	got := t.Request(amount)
	t.Release(got)
	vp.Ensures("request then release restores the level", vp.EqF(t.tokens.Load(), before))
}
