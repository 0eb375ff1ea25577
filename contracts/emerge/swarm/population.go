package swarm

import (
	"fmt"
	"math"

	"github.com/carlisia/bio-adapt/emerge/agent"
	"github.com/carlisia/bio-adapt/emerge/core"
	"github.com/carlisia/bio-adapt/internal/config"
	"github.com/carlisia/bio-adapt/internal/vp"
)

//gvc:guard Swarm.agentsMutex: agentSlice agentIndex

// member is the agent with this ID, in whichever storage the swarm uses.
func member(s *Swarm, id string) (*agent.Agent, bool) {
	if s.optimized {
		i, ok := s.agentIndex[id]
		if !ok {
			return nil, false
		}
		return s.agentSlice[i], true
	}
	v, ok := s.agents.Load(id)
	if !ok {
		return nil, false
	}
	return v.(*agent.Agent), true
}

// populated is the representation invariant: size agents, each stored once, under its own ID.
func populated(s *Swarm) bool {
	if s == nil || s.size < 0 {
		return false
	}
	if s.optimized {
		return len(s.agentSlice) == s.size && s.agentIndex != nil && len(s.agentIndex) == s.size &&
			vp.Forall(0, s.size, func(i int) bool {
				a := s.agentSlice[i]
				j, ok := s.agentIndex[a.ID]
				return a != nil && ok && j == i
			}) &&
			vp.ForallStr(func(id string) bool {
				i, ok := s.agentIndex[id]
				return !ok || 0 <= i && i < s.size && s.agentSlice[i].ID == id
			})
	}
	return vp.SyncMapLen(&s.agents) == s.size && vp.SyncMapAll(&s.agents, func(k, v any) bool {
		id, ok := k.(string)
		a, isA := v.(*agent.Agent)
		return ok && isA && a != nil && a.ID == id
	})
}

func vgenSwarm(g *vp.Gen) *Swarm {
	n := 1 + g.Intn(6)
	if g.Bool() {
		n += OptimizedSwarmThreshold
	}
	s := &Swarm{size: n, optimized: n > OptimizedSwarmThreshold, config: AutoScaleConfig(n)}
	if s.optimized {
		s.agentIndex = map[string]int{}
	}
	if err := WithAgentBuilder(func(id string, _ int, _ config.Swarm) *agent.Agent { return agent.New(id) })(s); err != nil {
		panic(err)
	}
	return s
}

// Looking an agent up by ID finds exactly the member.
//
//gvc:prop C16
//gvc:locks
//gvc:target (*emerge/swarm.Swarm).Agent
func ctAgent(s *Swarm, id string) {
	vp.Requires(populated(s))
	a, ok := s.Agent(id)
	b, in := member(s, id)
	vp.Ensures("an ID is known exactly if a member has it", ok == in)
	vp.Ensures("the agent found is the member", a == b)
	vp.Ensures("the agent found has the ID", !ok || a != nil && a.ID == id)
	vp.LocksReleased()
}

// Agents lists every member under its ID, and nothing else.
//
//gvc:prop C16
//gvc:locks
//gvc:target (*emerge/swarm.Swarm).Agents
func ctAgents(s *Swarm) {
	vp.Requires(populated(s))
	vp.LoopInv("visited members are listed", func(m map[string]*agent.Agent) bool {
		return vp.ForallStr(func(id string) bool {
			_, ok := m[id]
			return ok == vp.Visited(any(id))
		})
	})
	vp.LoopInv("what is listed is a member", func(m map[string]*agent.Agent) bool {
		return vp.ForallStr(func(id string) bool {
			a, ok := m[id]
			b, in := member(s, id)
			return (!ok || in && a == b)
		})
	})

	vp.LoopInv("as many as visited", func(m map[string]*agent.Agent) bool { return len(m) == vp.VisitedCount() })
	vp.LoopInv("the first i are listed", func(m map[string]*agent.Agent, i int) bool {
		return len(m) == i && vp.ForallStr(func(id string) bool {
			a, ok := m[id]
			j, in := s.agentIndex[id]
			return ok == (in && j < i) && (!ok || a == s.agentSlice[j])
		})
	})
	m := s.Agents()
	vp.Ensures("every agent is listed once under its ID, and nothing else", vp.ForallStr(func(id string) bool {
		a, ok := m[id]
		b, in := member(s, id)
		return ok == in && a == b
	}))
	vp.Ensures("as many agents are listed as the swarm's size", len(m) == s.Size())
	vp.Ensures("the list is the caller's own", vp.Fresh(&m))
	vp.LocksReleased()
}

// isMember: a is stored in the swarm.
func isMember(s *Swarm, a *agent.Agent) bool {
	if a == nil {
		return false
	}
	b, ok := member(s, a.ID)
	return ok && a == b
}

// ensureComplete: the list holds every member, none twice, and nobody else.
func ensureComplete(s *Swarm, list []*agent.Agent) {
	vp.Ensures("as many as the swarm's size", len(list) == s.size)
	vp.Ensures("only members", vp.Forall(0, len(list), func(i int) bool { return isMember(s, list[i]) }))
	vp.Ensures("nobody twice", vp.Forall(0, len(list), func(i int) bool {
		return vp.Forall(0, i, func(j int) bool { return list[i].ID != list[j].ID })
	}))
	vp.Ensures("every member", vp.ForallStr(func(id string) bool {
		a, ok := member(s, id)
		return !ok || vp.Exists(0, len(list), func(i int) bool { return list[i] == a })
	}))
}

func inOrder() {
	vp.LoopInv("one entry for each visited key", func(list []*agent.Agent) bool { return len(list) == vp.VisitedCount() })
	vp.LoopInv("entries in the order of the visit", func(list []*agent.Agent) bool {
		return vp.Forall(0, vp.VisitedCount(), func(i int) bool { return any(list[i].ID) == vp.VisitedKey[any](i) })
	})
}

//gvc:prop C16
//gvc:locks
//gvc:target (*emerge/swarm.Swarm).collectAgents
func ctCollectAgents(s *Swarm) {
	vp.Requires(populated(s))
	inOrder()
	vp.LoopInv("entries are members", func(list []*agent.Agent) bool {
		return vp.Forall(0, vp.VisitedCount(), func(i int) bool { return isMember(s, list[i]) })
	})
	list := s.collectAgents()
	ensureComplete(s, list)
	vp.LocksReleased()
}

// ForEachAgent reaches every member once.
//
//gvc:prop C16
//gvc:locks
func ctForEachAgent(s *Swarm) {
	vp.Requires(populated(s))
	inOrder()
	vp.LoopInv("entries are members", func(list []*agent.Agent) bool {
		return vp.Forall(0, vp.VisitedCount(), func(i int) bool { return isMember(s, list[i]) })
	})
	vp.LoopInv("as many as turns", func(list []*agent.Agent, i int) bool { return len(list) == i })
	vp.LoopInv("the same entries", func(list, all []*agent.Agent, i int) bool {
		return vp.Forall(0, i, func(k int) bool { return list[k] == all[k] })
	})
	var list []*agent.Agent
	s.ForEachAgent(func(a *agent.Agent) bool {
		list = append(list, a)
		return true
	})
	ensureComplete(s, list)
	vp.LocksReleased()
}

// ForEachAgent stops when told to.
//
//gvc:prop C16
func ctForEachAgentStop(s *Swarm, k int) {
	vp.Requires(populated(s) && k >= 1)
	vp.LoopInv("as many as visited", func(n int) bool { return n == vp.VisitedCount() })
	vp.LoopInv("as many as turns", func(n, i int) bool { return n == i })
	vp.LoopInv("not told to stop yet", func(n int) bool { return n < k })
	n := 0
	s.ForEachAgent(func(a *agent.Agent) bool {
		n++
		return n < k
	})
	vp.Ensures("a visit stops when told to, and not before", n == min(k, s.size))
}

// crewOK: every member is a working agent.
func crewOK(s *Swarm) bool {
	if s.optimized {
		return vp.Forall(0, len(s.agentSlice), func(i int) bool { return agent.VMade(s.agentSlice[i]) })
	}
	return vp.SyncMapAll(&s.agents, func(_, v any) bool {
		a, ok := v.(*agent.Agent)
		return ok && agent.VMade(a)
	})
}

func phaseOK(a *agent.Agent) bool { return a.Phase() >= 0 && a.Phase() < 2*math.Pi }

// observed is the swarm whose coherence is being measured.
var observed *Swarm

// The swarm's coherence is measured over the phases of exactly its members.
//
//gvc:prop C16
//gvc:target emerge/core.MeasureCoherence
//gvc:use core.ctMeasureCoherence
//gvc:noreplay
func ctCoherenceCall(phases []float64) {
	if observed != nil {
		vp.Requires(len(phases) == observed.size)
		vp.Requires(vp.ForallStr(func(id string) bool {
			a, ok := member(observed, id)
			return !ok || vp.Exists(0, len(phases), func(i int) bool { return phases[i] == a.Phase() })
		}))
	}
	r := core.MeasureCoherence(phases)
	vp.Ensures("coherence is in [0, 1]", vp.LeF(0, r) && vp.LeF(r, 1))
}

//gvc:prop C16
//gvc:locks
//gvc:use swarm.ctCoherenceCall
func ctSwarmCoherence(s *Swarm) {
	vp.Requires(populated(s) && crewOK(s))
	inOrder64()
	vp.LoopInv("the phase of each entry", func(phases []float64, i int) bool {
		return vp.Forall(0, i, func(k int) bool { return phases[k] == s.agentSlice[k].Phase() })
	})
	vp.LoopInv("the phase of each visited member", func(phases []float64) bool {
		return vp.Forall(0, vp.VisitedCount(), func(i int) bool {
			v, ok := s.agents.Load(vp.VisitedKey[any](i))
			return ok && phases[i] == v.(*agent.Agent).Phase()
		})
	})
	observed = s
	r := s.MeasureCoherence()
	vp.Ensures("coherence is in [0, 1]", vp.LeF(0, r) && vp.LeF(r, 1))
	vp.LocksReleased()
}

func inOrder64() {
	vp.LoopInv("one entry for each visited key", func(list []float64) bool { return len(list) == vp.VisitedCount() })
}

func agentName(i int) string { return fmt.Sprintf("agent-%d", i) }

// Every agent of a new swarm is there, numbered from 0.
//
//gvc:prop C16
//gvc:use agent.ctBuild
//gvc:target (*emerge/swarm.Swarm).createDefaultAgents
func ctCreateDefaultAgents(s *Swarm) {
	vp.Requires(s != nil && s.size >= 0 && !s.optimized && vp.SyncMapLen(&s.agents) == 0)
	vp.Requires(vp.SyncMapAll(&s.agents, func(_, _ any) bool { return false }))
	vp.Modifies(&s.agents)
	vp.LoopInv("as many as turns", func(i int) bool { return vp.SyncMapLen(&s.agents) == i })
	vp.LoopInv("each under its own ID", func() bool {
		return vp.SyncMapAll(&s.agents, func(k, v any) bool {
			id, ok := k.(string)
			a, isA := v.(*agent.Agent)
			return ok && isA && a != nil && a.ID == id
		})
	})
	vp.LoopInv("working agents", func() bool { return crewOK(s) })
	vp.LoopInv("the first numbers are taken", func(i int) bool {
		return vp.Forall(0, i, func(j int) bool {
			_, ok := s.agents.Load(agentName(j))
			return ok
		})
	})
	vp.LoopInv("the others are not", func(i int) bool {
		return vp.SyncMapAll(&s.agents, func(k, v any) bool {
			return vp.Exists(0, i, func(j int) bool { return k == any(agentName(j)) })
		})
	})
	err := s.createDefaultAgents()
	vp.Ensures("agents are created without an error", err == nil)
	vp.Ensures("each agent is stored once, under its ID", populated(s))
	vp.Ensures("every agent works", crewOK(s))
	vp.Ensures("the agents are numbered from 0", vp.Forall(0, s.size, func(j int) bool {
		_, ok := s.agents.Load(agentName(j))
		return ok
	}))
}

//gvc:prop C16
//gvc:use agent.ctBuildOptimized
//gvc:target (*emerge/swarm.Swarm).createOptimizedAgents
func ctCreateOptimizedAgents(s *Swarm) {
	vp.Requires(s != nil && s.size >= 0 && s.size < 1<<40 && s.optimized && s.agentIndex != nil && len(s.agentIndex) == 0)
	vp.Requires(vp.ForallStr(func(id string) bool {
		_, ok := s.agentIndex[id]
		return !ok
	}))
	vp.Modifies(&s.agentSlice)
	vp.Modifies(&s.agentIndex)
	vp.LoopInv("within the size", func(i int) bool { return 0 <= i && i <= s.size })
	vp.LoopInv("a turn starts within its batch", func(i, j int) bool { return i <= j && j <= i+100 })
	vp.LoopInv("the slice has its size", func() bool { return len(s.agentSlice) == s.size })
	vp.LoopInv("as many as turns", func(i int) bool { return len(s.agentIndex) == min(i, s.size) })
	vp.LoopInv("each number has its agent", func(i int) bool {
		return vp.Forall(0, min(i, s.size), func(j int) bool {
			a := s.agentSlice[j]
			return a != nil && agent.VMade(a) && a.ID == agentName(j)
		})
	})
	vp.LoopInv("each number has its entry", func(i int) bool {
		return vp.Forall(0, min(i, s.size), func(j int) bool {
			k, ok := s.agentIndex[agentName(j)]
			return ok && k == j
		})
	})
	vp.LoopInv("each entry has its number", func(i int) bool {
		return vp.ForallStr(func(id string) bool {
			j, ok := s.agentIndex[id]
			return !ok || 0 <= j && j < min(i, s.size) && id == agentName(j)
		})
	})
	err := s.createOptimizedAgents()
	vp.Ensures("agents are created without an error", err == nil)
	vp.Ensures("each agent is stored once, under its ID", populated(s))
	vp.Ensures("every agent works", crewOK(s))
	vp.Ensures("the agents are numbered from 0", vp.Forall(0, s.size, func(j int) bool {
		_, ok := s.agentIndex[agentName(j)]
		return ok
	}))
}

func phases(s *Swarm) bool {
	if s.optimized {
		return vp.Forall(0, len(s.agentSlice), func(i int) bool { return phaseOK(s.agentSlice[i]) })
	}
	return vp.SyncMapAll(&s.agents, func(_, v any) bool {
		a, ok := v.(*agent.Agent)
		return ok && phaseOK(a)
	})
}

// At most the given share of the agents is disrupted, and a disruption leaves the population as it was.
//
//gvc:prop C16
//gvc:use random.ctPhaseReal agent.ctStrike
func ctDisruptAgents(s *Swarm, share float64) {
	vp.Requires(populated(s) && crewOK(s) && phases(s))
	part := share
	if part < 0 {
		part = 0
	} else if part > 1 {
		part = 1
	}
	limit := int(float64(s.size) * part)
	vp.LoopInv("agents work", func() bool { return crewOK(s) })
	vp.LoopInv("phases are in range", func() bool { return phases(s) })
	vp.LoopInv("disrupted agents are counted", func(disrupted int) bool { return agent.Struck == disrupted && 0 <= disrupted })
	vp.LoopInv("no more than wanted", func() bool { return agent.Struck <= max(limit, 0) })
	agent.Struck = 0
	s.DisruptAgents(share)
	vp.Ensures("each agent is stored once, under its ID", populated(s))
	vp.Ensures("every agent works", crewOK(s))
	vp.Ensures("every phase is in range", phases(s))
	vp.Ensures("no more agents than the share of the swarm are disrupted", agent.Struck <= max(limit, 0))
}

// Convergence to a phase is a score in [0, 1], whatever turn the phase is given in.
//
//gvc:prop C16
//gvc:use swarm.ctCollectAgentsBrief core.ctPhaseDifference
func ctPhaseConvergence(s *Swarm, target float64) {
	vp.Requires(populated(s) && crewOK(s))
	vp.LoopInv("distances so far", func(i int, total float64) bool { return vp.LeF(0, total) && vp.LeF(total, float64(i)*math.Pi) })
	r := s.MeasurePhaseConvergence(target)
	vp.Ensures("convergence to a phase is in [0, 1]", vp.LeF(0, r) && vp.LeF(r, 1))
}

// Agents all at the target have converged.
//
//gvc:prop C16
//gvc:use swarm.ctCollectAgentsBrief core.ctPhaseDifference
func ctPhaseConvergenceAt(s *Swarm, target float64) {
	vp.Requires(populated(s) && crewOK(s) && s.size > 0 && target >= 0 && target < 2*math.Pi)
	vp.Requires(!s.optimized || vp.Forall(0, s.size, func(i int) bool { return s.agentSlice[i].Phase() == target }))
	vp.Requires(s.optimized || vp.SyncMapAll(&s.agents, func(_, v any) bool { return v.(*agent.Agent).Phase() == target }))
	vp.LoopInv("distances so far", func(total float64) bool { return vp.EqF(total, 0) })
	r := s.MeasurePhaseConvergence(target)
	vp.Ensures("agents all at the target have converged", vp.EqF(r, 1))
}

//gvc:prop C16
//gvc:terminates
//gvc:timeout 5
//gvc:use swarm.ctCollectWorking
func ctPhaseVariance(s *Swarm) {
	vp.Requires(populated(s) && crewOK(s) && phases(s))
	vp.LoopInv("squares so far", func(i int, v float64) bool { return vp.LeF(0, v) && vp.LeF(v, float64(i)*math.Pi*math.Pi) })
	vp.LoopInv("within a turn and a half", func(d float64) bool { return -3*math.Pi <= d && d <= 3*math.Pi })
	vp.LoopInv("at most half a turn ahead", func(d float64) bool { return d <= math.Pi })
	vp.Variant("above the range", func(d float64) int { return int(d + 10) })
	vp.Variant("below the range", func(d float64) int { return int(10 - d) })
	r := s.MeasurePhaseVariance()
	vp.Ensures("the variance of the phases is in [0, π²]", vp.LeF(0, r) && vp.LeF(r, math.Pi*math.Pi))
}

// ctCollectAgents, without the part only ForEachAgent needs.
//
//gvc:prop C16
//gvc:target (*emerge/swarm.Swarm).collectAgents
func ctCollectAgentsBrief(s *Swarm) {
	vp.Requires(populated(s))
	inOrder()
	vp.LoopInv("entries are members", func(list []*agent.Agent) bool {
		return vp.Forall(0, vp.VisitedCount(), func(i int) bool { return isMember(s, list[i]) })
	})
	list := s.collectAgents()
	vp.Ensures("as many as the swarm's size", len(list) == s.size)
	vp.Ensures("only members", vp.Forall(0, len(list), func(i int) bool { return isMember(s, list[i]) }))
}

// A swarm whose agents are built by the caller holds as many, in either storage.
//
//gvc:prop C16
//gvc:use agent.ctBuildPlain
func ctAgentBuilder(s *Swarm) {
	vp.Requires(s != nil && s.size >= 0 && !s.optimized && vp.SyncMapLen(&s.agents) == 0)
	vp.Requires(vp.SyncMapAll(&s.agents, func(_, _ any) bool { return false }))
	vp.LoopInv("as many as turns", func(i int) bool { return vp.SyncMapLen(&s.agents) == i })
	vp.LoopInv("each under its own ID", func() bool {
		return vp.SyncMapAll(&s.agents, func(k, v any) bool {
			id, ok := k.(string)
			a, isA := v.(*agent.Agent)
			return ok && isA && a != nil && a.ID == id
		})
	})
	vp.LoopInv("working agents", func() bool { return crewOK(s) })
	vp.LoopInv("only the first numbers are taken", func(i int) bool {
		return vp.SyncMapAll(&s.agents, func(k, v any) bool {
			return vp.Exists(0, i, func(j int) bool { return k == any(agentName(j)) })
		})
	})
	err := WithAgentBuilder(func(id string, _ int, _ config.Swarm) *agent.Agent { return agent.New(id) })(s)
	vp.Ensures("agents are created without an error", err == nil)
	vp.Ensures("each agent is stored once, under its ID", populated(s))
	vp.Ensures("every agent works", crewOK(s))
}

//gvc:prop C16
//gvc:use agent.ctBuildPlain
func ctAgentBuilderLarge(s *Swarm) {
	vp.Requires(s != nil && s.size >= 0 && s.size < 1<<40 && s.optimized && s.agentIndex != nil && len(s.agentIndex) == 0 && len(s.agentSlice) == 0)
	vp.Requires(vp.ForallStr(func(id string) bool {
		_, ok := s.agentIndex[id]
		return !ok
	}))
	vp.LoopInv("as many listed as turns", func(i int) bool { return len(s.agentSlice) == i })
	vp.LoopInv("as many as turns", func(i int) bool { return len(s.agentIndex) == i })
	vp.LoopInv("each number has its agent", func(i int) bool {
		return vp.Forall(0, i, func(j int) bool {
			a := s.agentSlice[j]
			return a != nil && agent.VMade(a) && a.ID == agentName(j)
		})
	})
	vp.LoopInv("each number has its entry", func(i int) bool {
		return vp.Forall(0, i, func(j int) bool {
			k, ok := s.agentIndex[agentName(j)]
			return ok && k == j
		})
	})
	vp.LoopInv("each entry has its number", func(i int) bool {
		return vp.ForallStr(func(id string) bool {
			j, ok := s.agentIndex[id]
			return !ok || 0 <= j && j < i && id == agentName(j)
		})
	})
	err := WithAgentBuilder(func(id string, _ int, _ config.Swarm) *agent.Agent { return agent.New(id) })(s)
	vp.Ensures("agents are created without an error", err == nil)
	vp.Ensures("each agent is stored once, under its ID", populated(s))
	vp.Ensures("every agent works", crewOK(s))
}

//gvc:prop C16
//gvc:target (*emerge/swarm.Swarm).collectAgents
func ctCollectWorking(s *Swarm) {
	vp.Requires(populated(s) && crewOK(s) && phases(s))
	inOrder()
	vp.LoopInv("entries work", func(list []*agent.Agent) bool {
		return vp.Forall(0, vp.VisitedCount(), func(i int) bool { return agent.VMade(list[i]) && phaseOK(list[i]) })
	})
	list := s.collectAgents()
	vp.Ensures("as many as the swarm's size", len(list) == s.size)
	vp.Ensures("only working agents", vp.Forall(0, len(list), func(i int) bool { return agent.VMade(list[i]) && phaseOK(list[i]) }))
}

//gvc:prop C15
//gvc:target (*emerge/swarm.Swarm).MeasurePhaseVariance
//gvc:use swarm.ctCollectWorking
//gvc:noreplay
func ctPhaseVarianceBrief(s *Swarm) {
	vp.Requires(populated(s) && crewOK(s) && phases(s))
	s.MeasurePhaseVariance()
}
