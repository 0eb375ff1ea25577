package config

import (
	"time"

	"github.com/carlisia/bio-adapt/internal/vp"
)

func prob(x float64) bool { return x >= 0 && x <= 1 }

func goodProbabilities(c *Swarm) bool {
	return prob(c.ConnectionProbability) && prob(c.CouplingStrength) && prob(c.Stubbornness) &&
		prob(c.BasinStrength) && prob(c.BaseConfidence) && prob(c.InfluenceDefault)
}

func goodNeighbors(c *Swarm, n int) bool {
	return c.MinNeighbors >= 0 && c.MinNeighbors <= c.MaxNeighbors && c.MaxNeighbors <= n-1 && (c.MaxNeighbors >= 1 || n == 1)
}

func goodPositives(c *Swarm) bool {
	return c.InitialEnergy > 0 && c.BasinWidth > 0 && c.AgentUpdateInterval > 0 && c.MonitoringInterval > 0
}

func goodConcurrency(c *Swarm) bool {
	return c.MaxConcurrentAgents >= 0 && c.BatchSize >= 0 && c.WorkerPoolSize >= 0 && c.ConnectionOptimThreshold >= 0
}

func goodSize(c *Swarm, n int) bool {
	return n >= 1 && (c.MaxSwarmSize <= 0 || n <= c.MaxSwarmSize)
}

func goodSwarm(c *Swarm, n int) bool {
	return goodSize(c, n) && goodProbabilities(c) && goodNeighbors(c, n) && goodPositives(c) && goodConcurrency(c)
}

func vgenSwarm(g *vp.Gen) *Swarm {
	c := vp.Fill[Swarm](g)
	return &c
}

// Validation accepts exactly the usable configurations, for every value including NaN.
//
//gvc:prop C12
//gvc:mode bits
//gvc:target (*internal/config.Swarm).Validate
func ctValidate(c *Swarm, n int) {
	vp.Requires(c != nil)
	vp.Requires(n > -1<<40 && n < 1<<40)
	before := *c
	err := c.Validate(n)
	vp.Ensures("a usable configuration is accepted", !goodSwarm(c, n) || err == nil)
	vp.Ensures("an accepted size is allowed", err != nil || goodSize(c, n))
	vp.Ensures("accepted probabilities are in [0, 1]", err != nil || goodProbabilities(c))
	vp.Ensures("accepted neighbor limits fit the swarm", err != nil || goodNeighbors(c, n))
	vp.Ensures("accepted energy, basin width and intervals are positive", err != nil || goodPositives(c))
	vp.Ensures("accepted concurrency limits are not negative", err != nil || goodConcurrency(c))
	vp.Ensures("validation changes nothing", vp.SameF(c.Stubbornness, before.Stubbornness) && vp.SameF(c.CouplingStrength, before.CouplingStrength) &&
		c.MaxNeighbors == before.MaxNeighbors && c.MinNeighbors == before.MinNeighbors && c.BatchSize == before.BatchSize)
}

// Normalisation repairs every configuration; only the swarm size itself can be refused.
//
//gvc:prop C12
//gvc:mode bits
//gvc:target (*internal/config.Swarm).NormalizeAndValidate
//gvc:use config.ctValidate
func ctNormalizeAndValidate(c *Swarm, n int) {
	vp.Requires(c != nil)
	vp.Requires(n > -1<<40 && n < 1<<40)
	before := *c
	err := c.NormalizeAndValidate(n)
	vp.Ensures("a normalised configuration is usable", err != nil || goodSwarm(c, n))
	vp.Ensures("only the size of the swarm is refused", (err == nil) == goodSize(&before, n))
	vp.Ensures("usable probabilities are kept",
		(!prob(before.ConnectionProbability) || c.ConnectionProbability == before.ConnectionProbability) &&
			(!prob(before.CouplingStrength) || c.CouplingStrength == before.CouplingStrength) &&
			(!prob(before.Stubbornness) || c.Stubbornness == before.Stubbornness) &&
			(!prob(before.BasinStrength) || c.BasinStrength == before.BasinStrength) &&
			(!prob(before.BaseConfidence) || c.BaseConfidence == before.BaseConfidence) &&
			(!prob(before.InfluenceDefault) || c.InfluenceDefault == before.InfluenceDefault))
	vp.Ensures("probabilities out of range are clamped to the nearest bound",
		(!(before.CouplingStrength > 1) || c.CouplingStrength == 1) && (!(before.CouplingStrength < 0) || c.CouplingStrength == 0) &&
			(!(before.Stubbornness > 1) || c.Stubbornness == 1) && (!(before.Stubbornness < 0) || c.Stubbornness == 0) &&
			(!(before.InfluenceDefault > 1) || c.InfluenceDefault == 1) && (!(before.InfluenceDefault < 0) || c.InfluenceDefault == 0) &&
			(!(before.BasinStrength > 1) || c.BasinStrength == 1) && (!(before.BasinStrength < 0) || c.BasinStrength == 0) &&
			(!(before.BaseConfidence > 1) || c.BaseConfidence == 1) && (!(before.BaseConfidence < 0) || c.BaseConfidence == 0) &&
			(!(before.ConnectionProbability > 1) || c.ConnectionProbability == 1) && (!(before.ConnectionProbability < 0) || c.ConnectionProbability == 0))
	vp.Ensures("usable neighbor limits are kept", n < 1 || !goodNeighbors(&before, n) || (c.MaxNeighbors == before.MaxNeighbors && c.MinNeighbors == before.MinNeighbors))
	vp.Ensures("usable energy, basin width and intervals are kept",
		(!(before.InitialEnergy > 0) || c.InitialEnergy == before.InitialEnergy) && (!(before.BasinWidth > 0) || c.BasinWidth == before.BasinWidth) &&
			(before.AgentUpdateInterval <= 0 || c.AgentUpdateInterval == before.AgentUpdateInterval) &&
			(before.MonitoringInterval <= 0 || c.MonitoringInterval == before.MonitoringInterval))
	vp.Ensures("chosen concurrency limits are kept",
		(before.MaxConcurrentAgents < 0 || c.MaxConcurrentAgents == before.MaxConcurrentAgents) &&
			(before.BatchSize <= 0 || c.BatchSize == before.BatchSize) && (before.WorkerPoolSize <= 0 || c.WorkerPoolSize == before.WorkerPoolSize) &&
			(before.ConnectionOptimThreshold < 0 || c.ConnectionOptimThreshold == before.ConnectionOptimThreshold))
	vp.Ensures("batch processing has at least one worker and agents in every batch", !before.UseBatchProcessing || (c.BatchSize > 0 && c.WorkerPoolSize > 0))
	vp.Ensures("batch sizes are left open without batch processing", before.UseBatchProcessing || ((before.BatchSize != 0 || c.BatchSize == 0) && (before.WorkerPoolSize != 0 || c.WorkerPoolSize == 0)))
	vp.Ensures("flags and limits are untouched", c.MaxSwarmSize == before.MaxSwarmSize && c.UseBatchProcessing == before.UseBatchProcessing &&
		c.AutoScale == before.AutoScale && c.EnableConnectionOptim == before.EnableConnectionOptim && c.AssumedMaxNeighbors == before.AssumedMaxNeighbors)
}

// Automatic scaling yields a usable configuration for every swarm up to a million agents.
//
//gvc:prop C12
//gvc:mode bits
//gvc:target internal/config.AutoScaleConfig
func ctAutoScaleConfig(n int) {
	vp.Requires(n >= 1 && n <= 1<<40)
	c := AutoScaleConfig(n)
	vp.Ensures("scaled probabilities are in [0, 1]", goodProbabilities(&c))
	vp.Ensures("scaled neighbor limits fit the swarm", goodNeighbors(&c, n))
	vp.Ensures("scaled energy, basin width and intervals are positive", goodPositives(&c))
	vp.Ensures("scaled concurrency limits are not negative", goodConcurrency(&c))
	vp.Ensures("the scaled size limit allows the swarm, up to a million agents", c.MaxSwarmSize <= 0 || n <= c.MaxSwarmSize || (n > 1000000 && c.MaxSwarmSize == 1000000))
	vp.Ensures("agents still influence each other", c.CouplingStrength > 0)
	vp.Ensures("density is measured against the actual swarm", c.AssumedMaxNeighbors == 0 && c.AutoScale)
}

// The batching preset can be normalised for every workload it is made for, and couples within range.
//
//gvc:prop C12
//gvc:mode bits
//gvc:target internal/config.ForBatching
//gvc:use config.ctAutoScaleConfig
func ctForBatching(n int, window time.Duration) {
	vp.Requires(n >= 1 && n <= 1<<40)
	c := ForBatching(n, window)
	vp.Ensures("batching probabilities are in [0, 1]", goodProbabilities(&c))
	vp.Ensures("batching neighbor limits fit the workload", goodNeighbors(&c, n))
	vp.Ensures("batching energy and basin width are positive", c.InitialEnergy > 0 && c.BasinWidth > 0)
	vp.Ensures("batching intervals and concurrency limits are not negative", c.AgentUpdateInterval >= 0 && c.MonitoringInterval >= 0 && goodConcurrency(&c))
	vp.Ensures("the batching size limit allows the workload, up to a million", c.MaxSwarmSize <= 0 || n <= c.MaxSwarmSize || n > 1000000)
}

// The presets are usable for the swarms they are documented for.
//
//gvc:prop C12
//gvc:mode bits
func ctPresets(n int) {
	d, s, m := DefaultConfig(), SmallSwarmConfig(), MediumSwarmConfig()
	vp.Ensures("the default preset is usable from 100 agents to a million", n < 100 || n > 1000000 || goodSwarm(&d, n))
	vp.Ensures("the medium preset is usable from 20 to 100 agents", n < 20 || n > 100 || goodSwarm(&m, n))
	vp.Ensures("the small preset is usable from 11 to 20 agents", n < 11 || n > 20 || goodSwarm(&s, n))
}
