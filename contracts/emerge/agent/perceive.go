package agent

import (
	"math"

	"github.com/carlisia/bio-adapt/emerge/core"
	"github.com/carlisia/bio-adapt/emerge/decision"
	"github.com/carlisia/bio-adapt/emerge/strategy"
	"github.com/carlisia/bio-adapt/internal/vp"
)

// company: the agent's neighbors are agents in range.
func company(a *Agent) bool {
	ns := a.optimizedNeighbors
	return linked(a) && a.useOptimizedNeighbors && vp.Forall(0, int(ns.count), func(k int) bool { return agentOK(ns.neighbors[k]) })
}

func cosTo(a *Agent, my float64, k int) float64 {
	return math.Cos(a.optimizedNeighbors.neighbors[k].state.Load().Phase - my)
}

func sinTo(a *Agent, my float64, k int) float64 {
	return math.Sin(a.optimizedNeighbors.neighbors[k].state.Load().Phase - my)
}

// What an agent perceives of its neighbors, over the reals.
//
//gvc:prop C25
//gvc:use core.ctWrapPhaseCongruent agent.ctNeighborAll
//gvc:target (*emerge/agent.Agent).UpdateContext
func ctUpdateContext(a *Agent) {
	vp.Requires(agentOK(a) && company(a))
	before := a.state.Load()
	beh := a.behavior.Load()
	n := int(a.optimizedNeighbors.count)
	vp.LoopInv("norm of the partial sums is at most their number", func(i int, x, y float64) bool {
		return x*x+y*y <= float64(i)*float64(i)
	})
	vp.LoopInv("partial sum of cosines", func(i int, x float64) bool {
		return vp.EqF(x, vp.Sum(0, i, func(k int) float64 { return cosTo(a, before.Phase, k) }))
	})
	vp.LoopInv("partial sum of sines", func(i int, x float64) bool {
		return vp.EqF(x, vp.Sum(0, i, func(k int) float64 { return sinTo(a, before.Phase, k) }))
	})
	sc := vp.Sum(0, n, func(k int) float64 { return cosTo(a, before.Phase, k) })
	ss := vp.Sum(0, n, func(k int) float64 { return sinTo(a, before.Phase, k) })
	a.UpdateContext()
	after := a.state.Load()
	ctx, ok := a.context.Load().(core.Context)
	vp.Ensures("a context is stored", ok)
	vp.Ensures("the neighbors are counted", ctx.Neighbors == n)
	vp.Ensures("the density is the share of the possible neighbors", vp.LeF(0, ctx.Density) &&
		(n == 0 && ctx.Density == 0 || n > 0 && a.assumedMaxNeighbors <= 0 && a.swarmSize <= 1 && ctx.Density == 1 ||
			n > 0 && a.assumedMaxNeighbors > 0 && vp.EqF(ctx.Density*float64(a.assumedMaxNeighbors), float64(n)) ||
			n > 0 && a.assumedMaxNeighbors == 0 && a.swarmSize > 1 && vp.EqF(ctx.Density*float64(a.swarmSize-1), float64(n)) ||
			a.assumedMaxNeighbors < 0))
	vp.Ensures("the local coherence is in [0, 1]", vp.LeF(0, ctx.LocalCoherence) && vp.LeF(ctx.LocalCoherence, 1))
	vp.Ensures("the local coherence is the length of the mean vector of the neighbors", n == 0 || vp.EqF(ctx.LocalCoherence*ctx.LocalCoherence*float64(n)*float64(n), sc*sc+ss*ss))
	vp.Ensures("perceiving changes nothing but the local goal", after.Phase == before.Phase && after.Energy == before.Energy && after.Frequency == before.Frequency && a.behavior.Load() == beh)
	vp.Ensures("an agent without neighbors keeps its goal", n > 0 || after.LocalGoal == before.LocalGoal)
	vp.Ensures("the local goal stays in range", vp.LeF(0, after.LocalGoal) && vp.LtF(after.LocalGoal, twoPi))
	vp.Ensures("the local goal lies towards the mean phase of the neighbors, at least half way", n == 0 ||
		vp.Congruent(after.LocalGoal, before.Phase+(0.5+0.5*ctx.LocalCoherence)*math.Atan2(ss/float64(n), sc/float64(n)), twoPi))
}

//gvc:prop C25
//gvc:use agent.ctNeighborAll
//gvc:target (*emerge/agent.Agent).calculateLocalCoherence
func ctLocalCoherence(a *Agent) {
	vp.Requires(agentOK(a) && (company(a) || acquaintance(a)))
	before := a.state.Load()
	n, m := 0, vp.SyncMapLen(&a.neighbors)
	if a.useOptimizedNeighbors {
		n, m = int(a.optimizedNeighbors.count), 0
	}
	vp.LoopInv("neighbors collected so far", func(l []*Agent, v int) bool {
		return len(l) == v && vp.Forall(0, len(l), func(k int) bool { return agentOK(l[k]) })
	})
	vp.LoopInv("norm of the partial sums is at most their number", func(i int, x, y float64) bool {
		return x*x+y*y <= float64(i)*float64(i)
	})
	vp.LoopInv("partial sum of cosines", func(i int, x float64) bool {
		return !a.useOptimizedNeighbors || vp.EqF(x, vp.Sum(0, i, func(k int) float64 { return cosTo(a, before.Phase, k) }))
	})
	vp.LoopInv("partial sum of sines", func(i int, x float64) bool {
		return !a.useOptimizedNeighbors || vp.EqF(x, vp.Sum(0, i, func(k int) float64 { return sinTo(a, before.Phase, k) }))
	})
	r := a.calculateLocalCoherence()
	sc := vp.Sum(0, n, func(k int) float64 { return cosTo(a, before.Phase, k) })
	ss := vp.Sum(0, n, func(k int) float64 { return sinTo(a, before.Phase, k) })
	vp.Ensures("the local coherence is in [0, 1]", vp.LeF(0, r) && vp.LeF(r, 1))
	vp.Ensures("the local coherence is the length of the mean vector of the neighbors", n == 0 || vp.EqF(r*r*float64(n)*float64(n), sc*sc+ss*ss))
	vp.Ensures("no neighbors, no coherence", n+m > 0 || r == 0)
	vp.Ensures("measuring changes nothing", sameState(before, a.state.Load()))
}

// Whatever strategy and decision maker an agent has, it never accepts what it cannot afford.
//
//gvc:prop C25
//gvc:use agent.ctLocalCoherence random.ctDefaultFloat64Real
//gvc:target (*emerge/agent.Agent).ProposeAdjustment
func ctProposeAdjustment(a *Agent, goal core.State) {
	vp.Requires(agentOK(a) && (company(a) || acquaintance(a)) && a.strategy != nil && a.decider != nil)
	before := a.state.Load()
	beh := a.behavior.Load()
	act, ok := a.ProposeAdjustment(goal)
	vp.Ensures("an accepted adjustment is affordable", !ok || act.Cost <= before.Energy)
	vp.Ensures("a declined adjustment is to maintain, for free", ok || act.Type == "maintain" && act.Value == 0 && act.Cost == 0)
	vp.Ensures("a fully stubborn agent accepts nothing", !ok || beh.Stubbornness < 1)
	vp.Ensures("proposing changes nothing", sameState(before, a.state.Load()) && beh == a.behavior.Load())
}

// The standard agent only ever turns towards its local goal, along the shortest arc and not past it.
//
//gvc:prop C25
//gvc:use agent.ctLocalCoherence random.ctDefaultFloat64Real core.ctPhaseDifference
func ctProposeStandard(a *Agent, goal core.State) {
	vp.Requires(agentOK(a) && (company(a) || acquaintance(a)))
	_, std := a.decider.(*decision.SimpleDecisionMaker)
	nudge, ok := a.strategy.(*strategy.PhaseNudge)
	ctx, has := a.context.Load().(core.Context)
	vp.Requires(std && ok && nudge != nil && nudge.Rate >= 0 && nudge.Rate <= 1)
	vp.Requires(has && ctx.LocalCoherence >= 0 && ctx.LocalCoherence <= 1 && ctx.Stability >= 0 && ctx.Stability <= 1)
	before := a.state.Load()
	act, accepted := a.ProposeAdjustment(goal)
	vp.Ensures("the standard agent nudges or maintains", act.Type == "maintain" || act.Type == "phase_nudge")
	vp.Ensures("maintaining turns nothing", act.Type != "maintain" || act.Value == 0)
	d := core.PhaseDifference(before.LocalGoal, before.Phase)
	vp.Ensures("a nudge covers its rate of the way to the local goal", act.Type != "phase_nudge" || vp.EqF(act.Value, nudge.Rate*d))
	vp.Ensures("what is accepted is affordable and costs something", !accepted || act.Cost <= before.Energy && act.Cost >= 0)
}

// acquaintance: the agent keeps its neighbors in the plain map.
func acquaintance(a *Agent) bool {
	return !a.useOptimizedNeighbors && vp.SyncMapAll(&a.neighbors, func(_, v any) bool {
		b, ok := v.(*Agent)
		return ok && agentOK(b)
	})
}

// The same for agents that keep their neighbors in the plain map.
//
//gvc:prop C25
//gvc:use core.ctWrapPhaseCongruent
func ctUpdateContextMap(a *Agent) {
	vp.Requires(agentOK(a) && acquaintance(a))
	before := a.state.Load()
	beh := a.behavior.Load()
	n := vp.SyncMapLen(&a.neighbors)
	vp.LoopInv("neighbors collected so far", func(l []*Agent, v int) bool {
		return len(l) == v && vp.Forall(0, len(l), func(k int) bool { return agentOK(l[k]) })
	})
	vp.LoopInv("norm of the partial sums is at most their number", func(i int, x, y float64) bool {
		return x*x+y*y <= float64(i)*float64(i)
	})
	a.UpdateContext()
	after := a.state.Load()
	ctx, ok := a.context.Load().(core.Context)
	vp.Ensures("a context is stored", ok)
	vp.Ensures("the neighbors are counted", ctx.Neighbors == n)
	vp.Ensures("the local coherence is in [0, 1]", vp.LeF(0, ctx.LocalCoherence) && vp.LeF(ctx.LocalCoherence, 1))
	vp.Ensures("perceiving changes nothing but the local goal", after.Phase == before.Phase && after.Energy == before.Energy && after.Frequency == before.Frequency && a.behavior.Load() == beh)
	vp.Ensures("an agent without neighbors keeps its goal", n > 0 || after.LocalGoal == before.LocalGoal)
	vp.Ensures("the local goal stays in range", vp.LeF(0, after.LocalGoal) && vp.LtF(after.LocalGoal, twoPi))
	vp.Ensures("the density is the share of the possible neighbors", vp.LeF(0, ctx.Density) &&
		(n == 0 && ctx.Density == 0 || n > 0 && a.assumedMaxNeighbors <= 0 && a.swarmSize <= 1 && ctx.Density == 1 ||
			n > 0 && a.assumedMaxNeighbors > 0 && vp.EqF(ctx.Density*float64(a.assumedMaxNeighbors), float64(n)) ||
			n > 0 && a.assumedMaxNeighbors == 0 && a.swarmSize > 1 && vp.EqF(ctx.Density*float64(a.swarmSize-1), float64(n)) ||
			a.assumedMaxNeighbors < 0))
}
