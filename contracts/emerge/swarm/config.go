package swarm

import (
	"time"

	"github.com/carlisia/bio-adapt/emerge/goal"
	"github.com/carlisia/bio-adapt/emerge/trait"
	"github.com/carlisia/bio-adapt/internal/vp"
)

func frac(x float64) bool { return x >= 0 && x <= 1 }

func goodConvergence(c *Config) bool {
	return frac(c.Convergence.BaseAdjustmentScale) && frac(c.Convergence.PhaseConvergenceGoal)
}
func goodThresholds(c *Config) bool {
	t := &c.Thresholds
	return t.ModerateCoherence <= t.HighCoherence && t.HighCoherence <= t.VeryHighCoherence
}
func goodVariation(c *Config) bool {
	v := &c.Variation
	return v.BaseRange[0] >= 0 && v.BaseRange[0] <= v.BaseRange[1] && frac(v.PerturbationChance)
}
func goodTiming(c *Config) bool {
	return c.Strategy.UpdateInterval > 0 && c.Strategy.ExplorationTimeWindow > 0
}
func goodResonance(c *Config) bool {
	return frac(c.Resonance.AffectedAgents) && frac(c.Resonance.ActivationRate)
}
func goodConfig(c *Config) bool {
	return goodConvergence(c) && goodThresholds(c) && goodVariation(c) && goodTiming(c) && goodResonance(c)
}

// tolerances and factors a working configuration has beyond what validation asks for
func positiveTolerances(c *Config) bool {
	return c.Convergence.ToleranceSmall > 0 && c.Convergence.ToleranceMedium > 0 && c.Convergence.ToleranceLarge > 0 && c.Strategy.MaxIterationsFactor > 0
}

func vgenConfig(g *vp.Gen) *Config {
	c := vp.Fill[Config](g)
	if g.Bool() {
		c = *For(goal.Type(g.Intn(10) - 1))
		for range g.Intn(6) {
			c.TuneFor(trait.Target(g.Intn(6)))
		}
	}
	return &c
}

// Validation accepts exactly the usable configurations, for every value including NaN.
//
//gvc:prop C13
//gvc:mode bits
//gvc:target (*emerge/swarm.Config).Validate
func ctConfigValidate(c *Config) {
	vp.Requires(c != nil)
	before := *c
	err := c.Validate()
	vp.Ensures("a usable configuration is accepted", !goodConfig(c) || err == nil)
	vp.Ensures("an accepted configuration converges by fractions", err != nil || goodConvergence(c))
	vp.Ensures("accepted thresholds are ordered", err != nil || goodThresholds(c))
	vp.Ensures("accepted variation is an ordered range with a probability", err != nil || goodVariation(c))
	vp.Ensures("accepted intervals are positive", err != nil || goodTiming(c))
	vp.Ensures("accepted resonance settings are fractions", err != nil || goodResonance(c))
	vp.Ensures("validation changes nothing", vp.SameF(before.Convergence.BaseAdjustmentScale, c.Convergence.BaseAdjustmentScale) &&
		vp.SameF(before.Variation.BaseRange[0], c.Variation.BaseRange[0]) && before.Strategy.UpdateInterval == c.Strategy.UpdateInterval)
}

// Every goal, also an unknown one, has a usable configuration of its own.
//
//gvc:prop C13
//gvc:mode bits
func ctFor(g goal.Type) {
	c := For(g)
	vp.Ensures("there is a configuration for every goal", c != nil)
	vp.Ensures("it converges by fractions", goodConvergence(c))
	vp.Ensures("its thresholds are ordered", goodThresholds(c))
	vp.Ensures("its variation is an ordered range with a probability", goodVariation(c))
	vp.Ensures("its intervals are positive", c.Strategy.UpdateInterval >= time.Millisecond && c.Strategy.ExplorationTimeWindow > 0)
	vp.Ensures("its resonance settings are fractions", goodResonance(c))
	vp.Ensures("its tolerances and iteration factor are positive", positiveTolerances(c))
	vp.Ensures("larger swarms are held to tighter tolerances", c.Convergence.ToleranceLarge <= c.Convergence.ToleranceMedium && c.Convergence.ToleranceMedium <= c.Convergence.ToleranceSmall)
	d := For(g)
	vp.Ensures("every call yields a configuration of its own", d != c)
}

// Tuning a usable configuration for any trait keeps it usable.
//
//gvc:prop C13
//gvc:target (*emerge/swarm.Config).TuneFor
func ctTuneFor(c *Config, t trait.Target) {
	vp.Requires(c != nil && goodConfig(c) && positiveTolerances(c))
	vp.Requires(c.Strategy.UpdateInterval >= 2 && c.Strategy.UpdateInterval <= 1<<50)
	b := *c
	r := c.TuneFor(t)
	vp.Ensures("the configuration itself is returned", r == c)
	vp.Ensures("a tuned configuration still converges by fractions", goodConvergence(c))
	vp.Ensures("tuned thresholds stay ordered", goodThresholds(c))
	vp.Ensures("tuned variation stays an ordered range with a probability", goodVariation(c))
	vp.Ensures("tuned intervals stay positive", goodTiming(c))
	vp.Ensures("tuned resonance settings stay fractions", goodResonance(c))
	vp.Ensures("tuned tolerances stay positive", positiveTolerances(c))
	vp.Ensures("stability makes adjustments gentler and slower", t != trait.Stability ||
		c.Convergence.BaseAdjustmentScale <= b.Convergence.BaseAdjustmentScale && c.Strategy.UpdateInterval >= b.Strategy.UpdateInterval && c.Resonance.NoiseMagnitude <= max(0, b.Resonance.NoiseMagnitude))
	vp.Ensures("speed adjusts harder, updates more often and tolerates more", t != trait.Speed ||
		c.Convergence.BaseAdjustmentScale >= b.Convergence.BaseAdjustmentScale && c.Strategy.UpdateInterval <= b.Strategy.UpdateInterval && c.Convergence.ToleranceLarge >= b.Convergence.ToleranceLarge)
	vp.Ensures("efficiency updates less often and disturbs less", t != trait.Efficiency ||
		c.Strategy.UpdateInterval >= b.Strategy.UpdateInterval && c.Variation.PerturbationChance <= b.Variation.PerturbationChance && c.Resonance.AffectedAgents <= b.Resonance.AffectedAgents)
	vp.Ensures("throughput adjusts harder and updates more often", t != trait.Throughput ||
		c.Convergence.BaseAdjustmentScale >= b.Convergence.BaseAdjustmentScale && c.Strategy.UpdateInterval <= b.Strategy.UpdateInterval)
	vp.Ensures("resilience allows more variation and resonance", t != trait.Resilience ||
		c.Variation.BaseRange[1] >= b.Variation.BaseRange[1] && c.Resonance.AffectedAgents >= b.Resonance.AffectedAgents && c.Resonance.ActivationRate >= b.Resonance.ActivationRate)
	vp.Ensures("precision tightens tolerances", t != trait.Precision ||
		c.Convergence.ToleranceSmall <= b.Convergence.ToleranceSmall && c.Convergence.ToleranceLarge <= b.Convergence.ToleranceLarge && c.Convergence.PatternDistanceThreshold <= max(0, b.Convergence.PatternDistanceThreshold))
	vp.Ensures("an unknown trait changes nothing", t >= trait.Stability && t <= trait.Precision || *c == b)
	vp.Ensures("no trait changes the coherence thresholds", c.Thresholds == b.Thresholds)
}

// Adjusting a usable configuration to any number of agents keeps it usable.
//
//gvc:prop C13
//gvc:target (*emerge/swarm.Config).WithSize
func ctWithSize(c *Config, n int) {
	vp.Requires(c != nil && goodConfig(c) && positiveTolerances(c))
	vp.Requires(c.Strategy.UpdateInterval <= 1<<50)
	b := *c
	r := c.WithSize(n)
	vp.Ensures("the configuration itself is returned", r == c)
	vp.Ensures("a sized configuration still converges by fractions", goodConvergence(c))
	vp.Ensures("sized thresholds stay ordered", goodThresholds(c))
	vp.Ensures("sized variation stays an ordered range with a probability", goodVariation(c))
	vp.Ensures("sized intervals stay positive", goodTiming(c))
	vp.Ensures("sized resonance settings stay fractions", goodResonance(c))
	vp.Ensures("sized tolerances stay positive", positiveTolerances(c))
	vp.Ensures("small swarms update at least every 50 ms", n > 50 || c.Strategy.UpdateInterval <= 50*time.Millisecond)
	vp.Ensures("medium swarms keep the configuration", n <= 50 || n > 200 || *c == b)
	vp.Ensures("large swarms update at most every 150 ms and tolerate more", n <= 200 || c.Strategy.UpdateInterval >= 150*time.Millisecond && c.Convergence.ToleranceLarge >= b.Convergence.ToleranceLarge)
	vp.Ensures("huge swarms disturb at most a twentieth of their agents", n <= 1000 || c.Resonance.AffectedAgents <= 0.05)
	vp.Ensures("no size changes goal or thresholds", c.Thresholds == b.Thresholds && c.Convergence.PhaseConvergenceGoal == b.Convergence.PhaseConvergenceGoal)
}
