package agent

import (
	"github.com/carlisia/bio-adapt/emerge/core"
	"github.com/carlisia/bio-adapt/internal/vp"
)

// recyclable is the pool's invariant: what waits in the pool can be reset.
func recyclable(v any) bool {
	a, ok := v.(*Agent)
	return ok && made(a) && (a.optimizedNeighbors == nil || storageOK(a.optimizedNeighbors))
}

func alone(a *Agent) bool {
	return vp.SyncMapAll(&a.neighbors, func(_, _ any) bool { return false }) && (!a.useOptimizedNeighbors || a.optimizedNeighbors == nil || a.optimizedNeighbors.count == 0)
}

// blank: nothing perceived.
func blank(a *Agent) bool {
	c, ok := a.context.Load().(core.Context)
	return ok && c == (core.Context{})
}

// willing: influence and stubbornness are those of a recycled agent.
func willing(a *Agent) bool {
	b := a.behavior.Load()
	return 0.1 <= b.Influence && b.Influence <= 0.2 && 0 <= b.Stubbornness && b.Stubbornness <= 0.3
}

func gone() {
	vp.LoopInv("visited neighbors are gone", func(a *Agent) bool {
		return vp.SyncMapAll(&a.neighbors, func(k, _ any) bool { return !vp.Visited(k) })
	})
}

// A reset agent is as good as new under its new ID.
//
//gvc:prop C24
//gvc:mode bits
//gvc:use random.ctPhase random.ctDefaultFloat64
func ctReset(a *Agent, id string) {
	vp.Requires(recyclable(a))
	gone()
	a.Reset(id)
	vp.Ensures("a reset agent has the given ID", a.ID == id)
	vp.Ensures("a reset agent is in range", agentOK(a))
	vp.Ensures("a reset agent has a full energy budget", a.Energy() == 100)
	vp.Ensures("a reset agent has a positive period", a.Frequency() > 0)
	vp.Ensures("a reset agent has no neighbors", alone(a))
	vp.Ensures("a reset agent is as willing as a new one", willing(a))
	vp.Ensures("a reset agent has an empty context", blank(a))
	vp.Ensures("a reset agent can decide", a.decider != nil)
}

//gvc:prop C24
func ctClear(a *Agent) {
	vp.Requires(recyclable(a))
	gone()
	a.Clear()
	vp.Ensures("a cleared agent has no ID", a.ID == "")
	vp.Ensures("a cleared agent has no neighbors", alone(a))
	vp.Ensures("a cleared agent has an empty context", blank(a))
	vp.Ensures("a cleared agent can be reset", recyclable(a))
}

//gvc:prop C24
//gvc:use random.ctPhase random.ctDefaultFloat64
//gvc:mode bits
func ctPoolGet(id string) {
	vp.PoolHolds(&Pool.pool, recyclable)
	gone()
	gets, puts, _, inUse := Pool.Stats()
	a := Pool.Get(id)
	g, p, _, u := Pool.Stats()
	vp.Ensures("an agent from the pool is in range", agentOK(a))
	vp.Ensures("an agent from the pool has the given ID", a.ID == id)
	vp.Ensures("an agent from the pool has a full energy budget", a.Energy() == 100)
	vp.Ensures("an agent from the pool has no neighbors", alone(a))
	vp.Ensures("an agent from the pool is as willing as a new one", willing(a))
	vp.Ensures("an agent from the pool has an empty context", blank(a))
	vp.Ensures("an agent from the pool can decide", a.decider != nil)
	vp.Ensures("a get is counted", g == gets+1 && p == puts && u == inUse+1)
}

//gvc:prop C24
func ctPoolPut(a *Agent) {
	vp.Requires(a == nil || recyclable(a))
	vp.PoolHolds(&Pool.pool, recyclable)
	gone()
	gets, puts, news, inUse := Pool.Stats()
	Pool.Put(a)
	g, p, n, u := Pool.Stats()
	vp.Ensures("a put is counted", a == nil || p == puts+1 && u == inUse-1)
	vp.Ensures("putting nothing back changes nothing", a != nil || p == puts && u == inUse)
	vp.Ensures("a put is no get", g == gets && n == news)
	vp.Ensures("an agent put back keeps no neighbors", a == nil || alone(a) && a.ID == "")
}
