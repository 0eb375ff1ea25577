package swarm

import (
	"context"
	"time"

	"github.com/carlisia/bio-adapt/emerge/agent"
	"github.com/carlisia/bio-adapt/emerge/completion"
	"github.com/carlisia/bio-adapt/emerge/core"
	"github.com/carlisia/bio-adapt/internal/vp"
)

// What the synchronization has seen and judged so far.
var (
	seen     float64 // the latest coherence of the swarm
	measured float64 // the coherence of the latest measurement
	judged   float64 // the coherence judged last
	reached  bool    // the verdict on it
	gathered float64 // the latest convergence to the target phase
	tries    int     // measurements so far
)

// guided: a synchronization made by NewGoalDirectedSync for a swarm of working agents.
func guided(g *GoalDirectedSync) bool {
	return g != nil && g.config != nil && g.convergenceMonitor != nil && g.completionEngine != nil &&
		populated(g.swarm) && g.swarm.size >= 1 && crewOK(g.swarm)
}

//gvc:prop C15
//gvc:target (*emerge/swarm.Swarm).MeasureCoherence
//gvc:use core.ctMeasureCoherence
func ctCoherenceNow(s *Swarm) {
	vp.Requires(populated(s) && crewOK(s))
	vp.Modifies(&seen)
	r := s.MeasureCoherence()
	seen = r
	vp.Ensures("coherence is in [0, 1]", vp.LeF(0, r) && vp.LeF(r, 1))
	vp.Ensures("what was seen", seen == r)
}

//gvc:prop C15
//gvc:target (*emerge/swarm.Swarm).MeasurePhaseConvergence
//gvc:use swarm.ctCollectAgentsBrief core.ctPhaseDifference
func ctGathered(s *Swarm, target float64) {
	vp.Requires(populated(s) && crewOK(s))
	vp.Modifies(&gathered)
	vp.LoopInv("distances so far", func(i int, total float64) bool { return true })
	r := s.MeasurePhaseConvergence(target)
	gathered = r
	vp.Ensures("what was gathered", gathered == r)
}

// A measurement has the swarm's coherence.
//
//gvc:prop C15
//gvc:target (*emerge/swarm.GoalDirectedSync).measureSystemPattern
//gvc:use swarm.ctAgents swarm.ctCoherenceNow
func ctMeasurePattern(g *GoalDirectedSync) {
	vp.Requires(guided(g))
	tries++
	vp.Modifies(&seen)
	vp.Modifies(&measured)
	vp.LoopInv("agents are counted", func(count int) bool { return count == vp.VisitedCount() })
	p := g.measureSystemPattern()
	vp.Ensures("there is a measurement", p != nil && vp.Fresh(p))
	vp.Ensures("the measured coherence is the swarm's", p.Coherence == seen)
	measured = p.Coherence
	vp.Ensures("what was measured", measured == p.Coherence)
}

func tolerance(g *GoalDirectedSync) float64 {
	n, c := g.swarm.size, g.config.Convergence
	t := c.ToleranceLarge
	if n < 10 {
		t = c.ToleranceSmall
	} else if n < 50 {
		t = c.ToleranceMedium
	}
	if g.targetPattern.Coherence >= GetCoherenceLimits(n).Practical*0.95 {
		t *= 2
	}
	return t
}

// The goal is achieved exactly when coherence, pattern and, for high targets, phases are near enough.
//
//gvc:prop C15
//gvc:target (*emerge/swarm.GoalDirectedSync).isPatternAchieved
//gvc:use swarm.ctAgents swarm.ctGathered
func ctIsAchieved(g *GoalDirectedSync, cur *core.TargetPattern) {
	vp.Requires(guided(g) && cur != nil && g.targetPattern != nil)
	vp.Modifies(&gathered)
	vp.Modifies(&reached)
	vp.Modifies(&judged)
	r := g.isPatternAchieved(cur)
	reached, judged = r, cur.Coherence
	vp.Ensures("the verdict", reached == r && judged == cur.Coherence)
	near := core.PatternDistance(cur, g.targetPattern) < g.config.Convergence.PatternDistanceThreshold
	high := g.targetPattern.Coherence >= g.config.Thresholds.HighCoherence
	vp.Ensures("an achieved goal has the target's coherence, up to the tolerance", !r || cur.Coherence >= g.targetPattern.Coherence-tolerance(g))
	vp.Ensures("an achieved goal is near the target pattern", !r || near)
	vp.Ensures("an achieved high goal has gathered the phases", !r || !high || gathered >= g.config.Convergence.PhaseConvergenceGoal)
	vp.Ensures("a goal so near is achieved", r || !near || cur.Coherence < g.targetPattern.Coherence-tolerance(g) || high && gathered < g.config.Convergence.PhaseConvergenceGoal)
}

//gvc:prop C15
//gvc:target (*emerge/completion.Engine).CompletePattern
//gvc:noreplay
func ctCompleteBrief(e *completion.Engine, cur *core.TargetPattern, gaps []core.PatternGap) {
	vp.Requires(e != nil && cur != nil)
	c := e.CompletePattern(cur, gaps)
	vp.Ensures("there is a result", c != nil && c.Base != nil)
}

//gvc:prop C15
//gvc:target emerge/core.IdentifyGaps
//gvc:noreplay
func ctGapsBrief(cur, tgt *core.TargetPattern) {
	vp.Requires(cur != nil && tgt != nil)
	core.IdentifyGaps(cur, tgt)
}

func rangesOK(s *Swarm) bool { return phases(s) && periods(s) }

func periods(s *Swarm) bool {
	if s.optimized {
		return vp.Forall(0, len(s.agentSlice), func(i int) bool { return s.agentSlice[i].Frequency() > 0 })
	}
	return vp.SyncMapAll(&s.agents, func(_, v any) bool {
		a, ok := v.(*agent.Agent)
		return ok && a.Frequency() > 0
	})
}

// Adjusting keeps every agent working and in range, and changes nothing but phases and periods.
//
//gvc:prop C15
//gvc:target (*emerge/swarm.GoalDirectedSync).applyPatternCompletion
//gvc:use swarm.ctAgents swarm.ctCoherenceNow swarm.ctPhaseVarianceBrief agent.ctTurn agent.ctRetune random.ctDefaultFloat64Real
//gvc:opaque (*emerge/convergence.Monitor).GetConvergenceRate
func ctApply(g *GoalDirectedSync, c *completion.CompletedPattern) {
	vp.Requires(guided(g) && c != nil && c.Base != nil && g.targetPattern != nil && rangesOK(g.swarm))
	vp.ModifiesAll[agent.AtomicState]()
	vp.Modifies(&seen)
	s := g.swarm
	vp.LoopInv("agents work", func() bool { return crewOK(s) })
	vp.LoopInv("phases are in range", func() bool { return phases(s) })
	vp.LoopInv("periods stay positive", func() bool { return periods(s) })
	g.applyPatternCompletion(c)
	vp.Ensures("every agent works", crewOK(s))
	vp.Ensures("every phase is in range", phases(s))
	vp.Ensures("every period stays positive", periods(s))
}

// Noise leaves every agent working and in range.
//
//gvc:prop C15
//gvc:target (*emerge/swarm.GoalDirectedSync).addStochasticResonance
//gvc:use swarm.ctAgents agent.ctTurn random.ctDefaultFloat64Real
func ctResonance(g *GoalDirectedSync) {
	vp.Requires(guided(g) && rangesOK(g.swarm))
	vp.ModifiesAll[agent.AtomicState]()
	s := g.swarm
	vp.LoopInv("agents work", func() bool { return crewOK(s) })
	vp.LoopInv("phases are in range", func() bool { return phases(s) })
	vp.LoopInv("periods stay positive", func() bool { return periods(s) })
	g.addStochasticResonance()
	vp.Ensures("every agent works", crewOK(s))
	vp.Ensures("every phase is in range", phases(s))
	vp.Ensures("every period stays positive", periods(s))
}

// Synchronization succeeds only when its latest measurement reached the goal, and otherwise
// ends only when cancelled or after the allowed number of tries.
//
//gvc:prop C15
//gvc:use swarm.ctMeasurePattern swarm.ctIsAchieved swarm.ctCoherenceNow swarm.ctGapsBrief swarm.ctCompleteBrief swarm.ctApply swarm.ctResonance swarm.ctAgents
//gvc:opaque (*emerge/convergence.Monitor).RecordSample (*emerge/convergence.Monitor).ShouldSwitchStrategy (*emerge/convergence.Monitor).IsStuck (*emerge/convergence.Monitor).SetTarget (*emerge/swarm.GoalDirectedSync).switchStrategy
func ctAchieve(g *GoalDirectedSync, ctx context.Context, target *core.TargetPattern) {
	vp.Requires(guided(g) && rangesOK(g.swarm) && target != nil)
	vp.Requires(g.config.Strategy.UpdateInterval > 0*time.Second && g.config.Strategy.MaxIterationsFactor >= 1)
	tries, reached = 0, false
	want, most := target.Coherence, GetCoherenceLimits(g.swarm.size).Theoretical
	vp.LoopInv("tries are counted", func(i int) bool { return tries == i })
	vp.LoopInv("still in order", func() bool { return guided(g) })
	vp.LoopInv("still in range", func() bool { return rangesOK(g.swarm) })
	vp.LoopInv("the target stays", func() bool { return g.targetPattern == target && target.Coherence == min(want, most) })
	err := g.AchieveSynchronization(ctx, target)
	vp.Ensures("success means that the latest measurement reached the goal", err != nil || reached && judged == measured)
	vp.Ensures("success means at least the target's coherence, up to the tolerance", err != nil || measured >= min(want, most)-tolerance(g))
	vp.Ensures("a reached goal ends it", !reached || err == nil)
	vp.Ensures("a target beyond the possible becomes the possible", target.Coherence == min(want, most))
	vp.Ensures("it gives up only when cancelled or after the allowed tries", err == nil || vp.Cancelled(ctx) || tries >= min(1000, int(g.config.Strategy.MaxIterationsFactor)))
	vp.Ensures("it never tries more than 1000 times", tries <= 1000)
	vp.Ensures("every agent works", crewOK(g.swarm))
	vp.Ensures("every agent is in range", rangesOK(g.swarm))
}
