From 7766437abfc07af029829a251d8e29d7aab9a285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:03 +0000
Subject: [PATCH 01/18] fix: reject NaN amounts and capacities in TokenManager

A NaN request, release or capacity passed the 'amount <= 0' guards and turned the
pool level into NaN for good.
---
 internal/resource/token.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/internal/resource/token.go b/internal/resource/token.go
index 5c735a0..7f108b5 100644
--- a/internal/resource/token.go
+++ b/internal/resource/token.go
@@ -17,8 +17,8 @@ type TokenManager struct {
 
 // NewTokenManager creates a new resource manager with the specified maximum tokens.
 func NewTokenManager(maxTokens float64) *TokenManager {
-	// Handle negative max tokens - treat as 0
-	if maxTokens < 0 {
+	// Handle negative or NaN max tokens - treat as 0
+	if math.IsNaN(maxTokens) || maxTokens < 0 {
 		maxTokens = 0
 	}
 	t := &TokenManager{
@@ -33,8 +33,8 @@ func (t *TokenManager) Request(amount float64) float64 {
 	t.mu.Lock()
 	defer t.mu.Unlock()
 
-	// Handle negative or zero requests
-	if amount <= 0 {
+	// Handle negative, zero or NaN requests
+	if math.IsNaN(amount) || amount <= 0 {
 		return 0
 	}
 
@@ -55,8 +55,8 @@ func (t *TokenManager) Release(amount float64) {
 	t.mu.Lock()
 	defer t.mu.Unlock()
 
-	// Ignore negative releases to maintain resource integrity
-	if amount <= 0 {
+	// Ignore negative or NaN releases to maintain resource integrity
+	if math.IsNaN(amount) || amount <= 0 {
 		return
 	}
 
-- 
2.43.0


From 6a7b8e87e8d5b9010b7ad5cee3f11168be24807a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:48 +0000
Subject: [PATCH 02/18] =?UTF-8?q?fix:=20PhaseDifference=20returned=20the?=
 =?UTF-8?q?=20wrong=20sign=20for=20(0,=203=CF=80/2)=20and=20(3=CF=80/2,=20?=
 =?UTF-8?q?0)?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 emerge/core/phase.go | 17 +----------------
 1 file changed, 1 insertion(+), 16 deletions(-)

diff --git a/emerge/core/phase.go b/emerge/core/phase.go
index 79f3699..162bd59 100644
--- a/emerge/core/phase.go
+++ b/emerge/core/phase.go
@@ -14,22 +14,7 @@ func PhaseDifference(phase1, phase2 float64) float64 {
 	diff := phase1 - phase2
 
 	// Use atan2 to get the correct phase difference considering the circle
-	result := math.Atan2(math.Sin(diff), math.Cos(diff))
-
-	// Handle specific edge cases for test compatibility
-	const eps = 1e-10
-
-	// Special case: 0 to 3π/2 should return -π/2 (clockwise)
-	if math.Abs(phase1) < eps && math.Abs(phase2-3*math.Pi/2) < eps {
-		return -math.Pi / 2
-	}
-
-	// Special case: 3π/2 to 0 should return π/2 (counterclockwise)
-	if math.Abs(phase1-3*math.Pi/2) < eps && math.Abs(phase2) < eps {
-		return math.Pi / 2
-	}
-
-	return result
+	return math.Atan2(math.Sin(diff), math.Cos(diff))
 }
 
 // MeasureCoherence calculates the Kuramoto order parameter for phase synchronization.
-- 
2.43.0


From fc80b2c3463c79a39a8bdd24f5a7aa6d13696f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:48 +0000
Subject: [PATCH 03/18] fix: State normalisation looped forever on phases of
 large magnitude

---
 emerge/core/state.go | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/emerge/core/state.go b/emerge/core/state.go
index 731e58b..e423208 100644
--- a/emerge/core/state.go
+++ b/emerge/core/state.go
@@ -81,12 +81,7 @@ func (s *State) NormalizeAndValidate() error {
 func (s *State) normalize() {
 	// Wrap phase to [0, 2π]
 	if !math.IsNaN(s.Phase) && !math.IsInf(s.Phase, 0) {
-		for s.Phase < 0 {
-			s.Phase += 2 * math.Pi
-		}
-		for s.Phase >= 2*math.Pi {
-			s.Phase -= 2 * math.Pi
-		}
+		s.Phase = WrapPhase(s.Phase)
 	}
 
 	// Clamp coherence to [0, 1]
-- 
2.43.0


From 231942baac6b1e451e45829f3527ec5262c4c5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:09 +0000
Subject: [PATCH 04/18] fix: concurrent agent state and behavior updates were
 lost

---
 emerge/agent/atomic_state.go | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/emerge/agent/atomic_state.go b/emerge/agent/atomic_state.go
index b32601c..f9b0aa4 100644
--- a/emerge/agent/atomic_state.go
+++ b/emerge/agent/atomic_state.go
@@ -47,12 +47,19 @@ func (a *AtomicState) Store(state StateData) {
 }
 
 // Update atomically updates the state.
-// For simplicity, this just loads, modifies, and stores.
-// In high contention scenarios, consider using a mutex instead.
+// fn may run more than once when other updates are concurrent.
 func (a *AtomicState) Update(fn func(*StateData)) {
-	old := a.Load()
-	fn(&old)
-	a.Store(old)
+	for {
+		old := a.value.Load()
+		next := StateData{}
+		if data, ok := old.(*StateData); ok {
+			next = *data
+		}
+		fn(&next)
+		if a.value.CompareAndSwap(old, &next) {
+			return
+		}
+	}
 }
 
 // AtomicBehavior uses atomic.Value for behavioral parameters.
@@ -83,8 +90,17 @@ func (a *AtomicBehavior) Store(behavior BehaviorData) {
 }
 
 // Update atomically updates the behavior.
+// fn may run more than once when other updates are concurrent.
 func (a *AtomicBehavior) Update(fn func(*BehaviorData)) {
-	old := a.Load()
-	fn(&old)
-	a.Store(old)
+	for {
+		old := a.value.Load()
+		next := BehaviorData{}
+		if data, ok := old.(*BehaviorData); ok {
+			next = *data
+		}
+		fn(&next)
+		if a.value.CompareAndSwap(old, &next) {
+			return
+		}
+	}
 }
-- 
2.43.0


From 8585453916034611a0a1d852e511547a1b261572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:30 +0000
Subject: [PATCH 05/18] fix: concurrent actions could spend the same energy
 twice

---
 emerge/agent/agent.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/emerge/agent/agent.go b/emerge/agent/agent.go
index 74b94ab..a24fcca 100644
--- a/emerge/agent/agent.go
+++ b/emerge/agent/agent.go
@@ -451,19 +451,26 @@ func (a *Agent) ApplyAction(action core.Action) (bool, float64, error) {
 	switch action.Type {
 	case "adjust_phase", strategyPhaseNudge, strategyFrequencyLock, "energy_save", "pulse":
 		a.state.Update(func(s *StateData) {
-			s.Phase = core.WrapPhase(s.Phase + action.Value)
-			s.Energy = math.Max(0, s.Energy-energyCost)
+			if success = energyCost <= s.Energy; success {
+				s.Phase = core.WrapPhase(s.Phase + action.Value)
+				s.Energy = math.Max(0, s.Energy-energyCost)
+			}
 		})
-		success = true
 	case "maintain":
 		a.state.Update(func(s *StateData) {
-			s.Energy = math.Max(0, s.Energy-energyCost)
+			if success = energyCost <= s.Energy; success {
+				s.Energy = math.Max(0, s.Energy-energyCost)
+			}
 		})
-		success = true
 	default:
 		return false, 0, fmt.Errorf("%w: %s", core.ErrUnknownActionType, action.Type)
 	}
 
+	// Another action may have spent the energy in the meantime
+	if !success {
+		return false, 0, fmt.Errorf("%w: required %.2f", core.ErrInsufficientEnergy, energyCost)
+	}
+
 	if success && a.resources != nil {
 		a.resources.Request(energyCost)
 	}
-- 
2.43.0


From 060f0b4d04ea884254bacc305cc952fc8eae6aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:52 +0000
Subject: [PATCH 06/18] fix: neighbor density was negative or infinite without
 swarm information

---
 emerge/agent/agent.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/emerge/agent/agent.go b/emerge/agent/agent.go
index a24fcca..f275842 100644
--- a/emerge/agent/agent.go
+++ b/emerge/agent/agent.go
@@ -369,6 +369,9 @@ func (a *Agent) UpdateContext() {
 	if maxNeighbors == 0 {
 		maxNeighbors = a.swarmSize - 1
 	}
+	if maxNeighbors <= 0 {
+		maxNeighbors = neighborCount // Swarm size unknown: the connected neighbors are all there are
+	}
 	density := float64(neighborCount) / float64(maxNeighbors)
 
 	// Store context
-- 
2.43.0


From c3ab2d1700ce18abd874dba65cde73b78a86eb91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:53 +0000
Subject: [PATCH 07/18] fix: swarm configuration validation accepted NaN

---
 internal/config/swarm.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/internal/config/swarm.go b/internal/config/swarm.go
index e347287..ffd859c 100644
--- a/internal/config/swarm.go
+++ b/internal/config/swarm.go
@@ -296,7 +296,7 @@ func (c *Swarm) validateProbabilities(errors *ValidationErrors) {
 	}
 
 	for field, value := range probabilities {
-		if value < 0 || value > 1 {
+		if !(value >= 0 && value <= 1) { // also rejects NaN
 			*errors = append(*errors, ValidationError{
 				Field: field, Value: value, Message: "must be between 0 and 1",
 			})
@@ -356,7 +356,7 @@ func (c *Swarm) validatePositiveParameters(errors *ValidationErrors) {
 	for field, value := range positiveParams {
 		switch v := value.(type) {
 		case float64:
-			if v <= 0 {
+			if !(v > 0) { // also rejects NaN
 				*errors = append(*errors, ValidationError{
 					Field: field, Value: v, Message: "must be positive",
 				})
@@ -457,10 +457,10 @@ func (c *Swarm) normalizeNeighborConstraints(swarmSize int) {
 
 // normalizePositiveDefaults sets default values for parameters that must be positive
 func (c *Swarm) normalizePositiveDefaults() {
-	if c.InitialEnergy <= 0 {
+	if !(c.InitialEnergy > 0) {
 		c.InitialEnergy = 100.0
 	}
-	if c.BasinWidth <= 0 {
+	if !(c.BasinWidth > 0) {
 		c.BasinWidth = math.Pi
 	}
 	if c.AgentUpdateInterval <= 0 {
@@ -497,9 +497,9 @@ func (c *Swarm) autoCalculateBatchParameters(swarmSize int) {
 	}
 }
 
-// clampProbability returns value clamped between 0 and 1.
+// clampProbability returns value clamped between 0 and 1, and 0 for NaN.
 func clampProbability(value float64) float64 {
-	if value < 0 {
+	if !(value >= 0) { // also NaN
 		return 0
 	}
 	if value > 1 {
-- 
2.43.0


From a900b61528748bc25de143e1f47b91d0e8df4efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:08 +0000
Subject: [PATCH 08/18] fix: minimum swarm size could not practically reach
 targets between 0.98 and 0.99

---
 emerge/swarm/limits.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emerge/swarm/limits.go b/emerge/swarm/limits.go
index da415c7..790d655 100644
--- a/emerge/swarm/limits.go
+++ b/emerge/swarm/limits.go
@@ -81,8 +81,8 @@ func GetCoherenceLimits(swarmSize int) CoherenceLimits {
 func GetMinimumSwarmSize(targetCoherence float64) int {
 	// Based on empirical observations and Kuramoto model theory
 	switch {
-	case targetCoherence >= 0.99:
-		return 100 // Need large swarm for very high coherence
+	case targetCoherence > 0.98:
+		return 100 // Beyond the practical limit of smaller swarms
 	case targetCoherence >= 0.97:
 		return 50
 	case targetCoherence >= 0.95:
-- 
2.43.0


From 6c11156365d90f5cc06e3db54f794743eb88218a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:08 +0000
Subject: [PATCH 09/18] fix: tuning or sizing a valid configuration could make
 it invalid

---
 emerge/swarm/config.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/emerge/swarm/config.go b/emerge/swarm/config.go
index e559add..e3e9211 100644
--- a/emerge/swarm/config.go
+++ b/emerge/swarm/config.go
@@ -416,7 +416,7 @@ func (c *Config) TuneFor(t trait.Target) *Config {
 
 	case trait.Throughput:
 		// Optimize for maximum processing
-		c.Convergence.BaseAdjustmentScale *= 1.2
+		c.Convergence.BaseAdjustmentScale = minValue(1.0, c.Convergence.BaseAdjustmentScale*1.2)
 		c.Strategy.UpdateInterval = time.Duration(float64(c.Strategy.UpdateInterval) * 0.7)
 		c.Strategy.RandomExploration *= 1.5
 
@@ -425,8 +425,8 @@ func (c *Config) TuneFor(t trait.Target) *Config {
 		c.Variation.BaseRange[0] *= 1.3
 		c.Variation.BaseRange[1] *= 1.4
 		c.Resonance.NoiseMagnitude *= 1.5
-		c.Resonance.AffectedAgents *= 1.5
-		c.Resonance.ActivationRate *= 1.8
+		c.Resonance.AffectedAgents = minValue(1.0, c.Resonance.AffectedAgents*1.5)
+		c.Resonance.ActivationRate = minValue(1.0, c.Resonance.ActivationRate*1.8)
 
 	case trait.Precision:
 		// Tighten tolerances for accuracy
@@ -458,7 +458,7 @@ func (c *Config) WithSize(agentCount int) *Config {
 		c.Convergence.ToleranceLarge = 0.015
 		c.Variation.BaseRange[0] *= 0.8
 		c.Variation.BaseRange[1] *= 0.9
-		c.Strategy.UpdateInterval = time.Duration(minValue(50, int(c.Strategy.UpdateInterval/time.Millisecond))) * time.Millisecond
+		c.Strategy.UpdateInterval = min(50*time.Millisecond, c.Strategy.UpdateInterval)
 
 	case agentCount <= 200:
 		// Medium swarms use default tolerances
-- 
2.43.0


From ba30df12d75f5f90913e1e23ae72db9d6b5e8f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:08 +0000
Subject: [PATCH 10/18] fix: goal configuration validation accepted NaN

---
 emerge/swarm/config.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/emerge/swarm/config.go b/emerge/swarm/config.go
index e3e9211..09ac597 100644
--- a/emerge/swarm/config.go
+++ b/emerge/swarm/config.go
@@ -489,7 +489,7 @@ func (c *Config) WithSize(agentCount int) *Config {
 	return c
 }
 
-// Validate ensures all configuration parameters are within valid ranges.
+// Validate ensures all configuration parameters are within valid ranges; NaN never is.
 func (c *Config) Validate() error {
 	if err := c.validateConvergence(); err != nil {
 		return err
@@ -507,21 +507,21 @@ func (c *Config) Validate() error {
 }
 
 func (c *Config) validateConvergence() error {
-	if c.Convergence.BaseAdjustmentScale < 0 || c.Convergence.BaseAdjustmentScale > 1 {
+	if !(c.Convergence.BaseAdjustmentScale >= 0 && c.Convergence.BaseAdjustmentScale <= 1) {
 		return fmt.Errorf("BaseAdjustmentScale must be between 0 and 1, got %f", c.Convergence.BaseAdjustmentScale)
 	}
-	if c.Convergence.PhaseConvergenceGoal < 0 || c.Convergence.PhaseConvergenceGoal > 1 {
+	if !(c.Convergence.PhaseConvergenceGoal >= 0 && c.Convergence.PhaseConvergenceGoal <= 1) {
 		return fmt.Errorf("PhaseConvergenceGoal must be between 0 and 1, got %f", c.Convergence.PhaseConvergenceGoal)
 	}
 	return nil
 }
 
 func (c *Config) validateThresholds() error {
-	if c.Thresholds.ModerateCoherence > c.Thresholds.HighCoherence {
+	if !(c.Thresholds.ModerateCoherence <= c.Thresholds.HighCoherence) {
 		return fmt.Errorf("ModerateCoherence (%f) must be <= HighCoherence (%f)",
 			c.Thresholds.ModerateCoherence, c.Thresholds.HighCoherence)
 	}
-	if c.Thresholds.HighCoherence > c.Thresholds.VeryHighCoherence {
+	if !(c.Thresholds.HighCoherence <= c.Thresholds.VeryHighCoherence) {
 		return fmt.Errorf("HighCoherence (%f) must be <= VeryHighCoherence (%f)",
 			c.Thresholds.HighCoherence, c.Thresholds.VeryHighCoherence)
 	}
@@ -532,11 +532,11 @@ func (c *Config) validateVariation() error {
 	if c.Variation.BaseRange[0] < 0 || c.Variation.BaseRange[1] < 0 {
 		return fmt.Errorf("variation ranges must be positive")
 	}
-	if c.Variation.BaseRange[0] > c.Variation.BaseRange[1] {
+	if !(c.Variation.BaseRange[0] <= c.Variation.BaseRange[1]) {
 		return fmt.Errorf("variation min (%f) must be <= max (%f)",
 			c.Variation.BaseRange[0], c.Variation.BaseRange[1])
 	}
-	if c.Variation.PerturbationChance < 0 || c.Variation.PerturbationChance > 1 {
+	if !(c.Variation.PerturbationChance >= 0 && c.Variation.PerturbationChance <= 1) {
 		return fmt.Errorf("PerturbationChance must be between 0 and 1, got %f", c.Variation.PerturbationChance)
 	}
 	return nil
@@ -553,10 +553,10 @@ func (c *Config) validateStrategy() error {
 }
 
 func (c *Config) validateResonance() error {
-	if c.Resonance.AffectedAgents < 0 || c.Resonance.AffectedAgents > 1 {
+	if !(c.Resonance.AffectedAgents >= 0 && c.Resonance.AffectedAgents <= 1) {
 		return fmt.Errorf("AffectedAgents must be between 0 and 1, got %f", c.Resonance.AffectedAgents)
 	}
-	if c.Resonance.ActivationRate < 0 || c.Resonance.ActivationRate > 1 {
+	if !(c.Resonance.ActivationRate >= 0 && c.Resonance.ActivationRate <= 1) {
 		return fmt.Errorf("ActivationRate must be between 0 and 1, got %f", c.Resonance.ActivationRate)
 	}
 	return nil
-- 
2.43.0


From a2d4c8185de54b6bf76bb7b0367b1ab0c5a1a023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:43 +0000
Subject: [PATCH 11/18] fix: monitors no longer re-acquire their read lock
 while holding it

---
 emerge/monitoring/convergence.go | 28 ++++++++++++++++++++++------
 internal/emerge/convergence.go   | 28 ++++++++++++++++++++++------
 2 files changed, 44 insertions(+), 12 deletions(-)

diff --git a/emerge/monitoring/convergence.go b/emerge/monitoring/convergence.go
index 814b669..022ad8d 100644
--- a/emerge/monitoring/convergence.go
+++ b/emerge/monitoring/convergence.go
@@ -87,7 +87,11 @@ func (m *ConvergenceMonitor) ConvergenceTime() time.Duration {
 func (m *ConvergenceMonitor) CurrentCoherence() float64 {
 	m.mu.RLock()
 	defer m.mu.RUnlock()
+	return m.currentCoherence()
+}
 
+// currentCoherence is CurrentCoherence without locking. The caller holds the lock.
+func (m *ConvergenceMonitor) currentCoherence() float64 {
 	if len(m.history) == 0 {
 		return 0
 	}
@@ -99,7 +103,11 @@ func (m *ConvergenceMonitor) CurrentCoherence() float64 {
 func (m *ConvergenceMonitor) ConvergenceRate() float64 {
 	m.mu.RLock()
 	defer m.mu.RUnlock()
+	return m.convergenceRate()
+}
 
+// convergenceRate is ConvergenceRate without locking. The caller holds the lock.
+func (m *ConvergenceMonitor) convergenceRate() float64 {
 	if len(m.history) < 2 {
 		return 0
 	}
@@ -135,7 +143,11 @@ func (m *ConvergenceMonitor) ConvergenceRate() float64 {
 func (m *ConvergenceMonitor) Stability() float64 {
 	m.mu.RLock()
 	defer m.mu.RUnlock()
+	return m.stability()
+}
 
+// stability is Stability without locking. The caller holds the lock.
+func (m *ConvergenceMonitor) stability() float64 {
 	if len(m.history) < 2 {
 		return 1.0
 	}
@@ -174,17 +186,21 @@ func (m *ConvergenceMonitor) Stability() float64 {
 func (m *ConvergenceMonitor) PredictConvergenceTime() time.Duration {
 	m.mu.RLock()
 	defer m.mu.RUnlock()
+	return m.predictConvergenceTime()
+}
 
+// predictConvergenceTime is PredictConvergenceTime without locking. The caller holds the lock.
+func (m *ConvergenceMonitor) predictConvergenceTime() time.Duration {
 	if m.convergedTime != nil {
 		return 0 // Already converged
 	}
 
-	rate := m.ConvergenceRate()
+	rate := m.convergenceRate()
 	if rate <= 0 {
 		return 0 // Not converging
 	}
 
-	current := m.CurrentCoherence()
+	current := m.currentCoherence()
 	remaining := m.convergenceAt - current
 
 	if remaining <= 0 {
@@ -219,7 +235,7 @@ func (m *ConvergenceMonitor) Statistics() map[string]any {
 	stats := make(map[string]any)
 
 	stats["samples"] = len(m.history)
-	stats["current_coherence"] = m.CurrentCoherence()
+	stats["current_coherence"] = m.currentCoherence()
 	stats["max"] = m.maxCoherence
 	stats["min"] = m.minCoherence
 	stats["converged"] = m.convergedTime != nil
@@ -248,10 +264,10 @@ func (m *ConvergenceMonitor) Statistics() map[string]any {
 		stats["std_dev"] = math.Sqrt(variance)
 	}
 
-	stats["convergence_rate"] = m.ConvergenceRate()
-	stats["stability"] = m.Stability()
+	stats["convergence_rate"] = m.convergenceRate()
+	stats["stability"] = m.stability()
 
-	prediction := m.PredictConvergenceTime()
+	prediction := m.predictConvergenceTime()
 	if prediction > 0 {
 		stats["predicted_convergence_time"] = prediction.Seconds()
 	}
diff --git a/internal/emerge/convergence.go b/internal/emerge/convergence.go
index 19d370a..1d2d152 100644
--- a/internal/emerge/convergence.go
+++ b/internal/emerge/convergence.go
@@ -87,7 +87,11 @@ func (m *ConvergenceMonitor) ConvergenceTime() time.Duration {
 func (m *ConvergenceMonitor) CurrentCoherence() float64 {
 	m.mu.RLock()
 	defer m.mu.RUnlock()
+	return m.currentCoherence()
+}
 
+// currentCoherence is CurrentCoherence without locking. The caller holds the lock.
+func (m *ConvergenceMonitor) currentCoherence() float64 {
 	if len(m.history) == 0 {
 		return 0
 	}
@@ -99,7 +103,11 @@ func (m *ConvergenceMonitor) CurrentCoherence() float64 {
 func (m *ConvergenceMonitor) ConvergenceRate() float64 {
 	m.mu.RLock()
 	defer m.mu.RUnlock()
+	return m.convergenceRate()
+}
 
+// convergenceRate is ConvergenceRate without locking. The caller holds the lock.
+func (m *ConvergenceMonitor) convergenceRate() float64 {
 	if len(m.history) < 2 {
 		return 0
 	}
@@ -135,7 +143,11 @@ func (m *ConvergenceMonitor) ConvergenceRate() float64 {
 func (m *ConvergenceMonitor) Stability() float64 {
 	m.mu.RLock()
 	defer m.mu.RUnlock()
+	return m.stability()
+}
 
+// stability is Stability without locking. The caller holds the lock.
+func (m *ConvergenceMonitor) stability() float64 {
 	if len(m.history) < 2 {
 		return 1.0
 	}
@@ -174,17 +186,21 @@ func (m *ConvergenceMonitor) Stability() float64 {
 func (m *ConvergenceMonitor) PredictConvergenceTime() time.Duration {
 	m.mu.RLock()
 	defer m.mu.RUnlock()
+	return m.predictConvergenceTime()
+}
 
+// predictConvergenceTime is PredictConvergenceTime without locking. The caller holds the lock.
+func (m *ConvergenceMonitor) predictConvergenceTime() time.Duration {
 	if m.convergedTime != nil {
 		return 0 // Already converged
 	}
 
-	rate := m.ConvergenceRate()
+	rate := m.convergenceRate()
 	if rate <= 0 {
 		return 0 // Not converging
 	}
 
-	current := m.CurrentCoherence()
+	current := m.currentCoherence()
 	remaining := m.convergenceAt - current
 
 	if remaining <= 0 {
@@ -219,7 +235,7 @@ func (m *ConvergenceMonitor) Statistics() map[string]any {
 	stats := make(map[string]any)
 
 	stats["samples"] = len(m.history)
-	stats["current_coherence"] = m.CurrentCoherence()
+	stats["current_coherence"] = m.currentCoherence()
 	stats["max"] = m.maxCoherence
 	stats["min"] = m.minCoherence
 	stats["converged"] = m.convergedTime != nil
@@ -248,10 +264,10 @@ func (m *ConvergenceMonitor) Statistics() map[string]any {
 		stats["std_dev"] = math.Sqrt(variance)
 	}
 
-	stats["convergence_rate"] = m.ConvergenceRate()
-	stats["stability"] = m.Stability()
+	stats["convergence_rate"] = m.convergenceRate()
+	stats["stability"] = m.stability()
 
-	prediction := m.PredictConvergenceTime()
+	prediction := m.predictConvergenceTime()
 	if prediction > 0 {
 		stats["predicted_convergence_time"] = prediction.Seconds()
 	}
-- 
2.43.0


From 9fc302d8349d862741edc5e7319a667d062690ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:45 +0000
Subject: [PATCH 12/18] fix: predicted convergence time is never negative, also
 for a near-zero or undefined rate

---
 emerge/monitoring/convergence.go | 12 +++++++++---
 internal/emerge/convergence.go   | 12 +++++++++---
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/emerge/monitoring/convergence.go b/emerge/monitoring/convergence.go
index 022ad8d..c1fb4da 100644
--- a/emerge/monitoring/convergence.go
+++ b/emerge/monitoring/convergence.go
@@ -196,14 +196,14 @@ func (m *ConvergenceMonitor) predictConvergenceTime() time.Duration {
 	}
 
 	rate := m.convergenceRate()
-	if rate <= 0 {
+	if !(rate > 0) {
 		return 0 // Not converging
 	}
 
 	current := m.currentCoherence()
 	remaining := m.convergenceAt - current
 
-	if remaining <= 0 {
+	if !(remaining > 0) {
 		return 0 // Already at target
 	}
 
@@ -214,7 +214,13 @@ func (m *ConvergenceMonitor) predictConvergenceTime() time.Duration {
 	// Assume each sample is about 100ms apart (configurable)
 	samplePeriod := 100 * time.Millisecond
 
-	return time.Duration(timeToConverge * float64(samplePeriod))
+	// A rate near zero predicts more than a Duration can hold
+	estimate := timeToConverge * float64(samplePeriod)
+	if !(estimate < math.MaxInt64) {
+		return math.MaxInt64
+	}
+
+	return time.Duration(estimate)
 }
 
 // History returns the full coherence history.
diff --git a/internal/emerge/convergence.go b/internal/emerge/convergence.go
index 1d2d152..84ee2e0 100644
--- a/internal/emerge/convergence.go
+++ b/internal/emerge/convergence.go
@@ -196,14 +196,14 @@ func (m *ConvergenceMonitor) predictConvergenceTime() time.Duration {
 	}
 
 	rate := m.convergenceRate()
-	if rate <= 0 {
+	if !(rate > 0) {
 		return 0 // Not converging
 	}
 
 	current := m.currentCoherence()
 	remaining := m.convergenceAt - current
 
-	if remaining <= 0 {
+	if !(remaining > 0) {
 		return 0 // Already at target
 	}
 
@@ -214,7 +214,13 @@ func (m *ConvergenceMonitor) predictConvergenceTime() time.Duration {
 	// Assume each sample is about 100ms apart (configurable)
 	samplePeriod := 100 * time.Millisecond
 
-	return time.Duration(timeToConverge * float64(samplePeriod))
+	// A rate near zero predicts more than a Duration can hold
+	estimate := timeToConverge * float64(samplePeriod)
+	if !(estimate < math.MaxInt64) {
+		return math.MaxInt64
+	}
+
+	return time.Duration(estimate)
 }
 
 // History returns the full coherence history.
-- 
2.43.0


From a200c736294e2092034c6de3d0798ce9f2ea06f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:17 +0000
Subject: [PATCH 13/18] fix: severity of a frequency gap stays within 0-1

---
 emerge/core/pattern.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emerge/core/pattern.go b/emerge/core/pattern.go
index 61c9038..1983562 100644
--- a/emerge/core/pattern.go
+++ b/emerge/core/pattern.go
@@ -70,7 +70,7 @@ func IdentifyGaps(current, target *TargetPattern) []PatternGap {
 				Type:     "frequency",
 				Current:  float64(current.Frequency),
 				Target:   float64(target.Frequency),
-				Severity: math.Abs(freqRatio - 1.0),
+				Severity: math.Min(math.Abs(freqRatio-1.0), 1.0),
 			})
 		}
 	}
-- 
2.43.0


From 6af4ba082a207714d931c7812d8dfee278fce076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:47 +0000
Subject: [PATCH 14/18] fix: gap detection no longer panics on a pattern with
 fewer frequencies than phases

---
 emerge/monitoring/patterns.go | 4 +++-
 internal/emerge/pattern.go    | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/emerge/monitoring/patterns.go b/emerge/monitoring/patterns.go
index d0b8c15..09ca564 100644
--- a/emerge/monitoring/patterns.go
+++ b/emerge/monitoring/patterns.go
@@ -53,7 +53,9 @@ func (p *TargetPattern) Detect() []PatternGap {
 			gap := PatternGap{
 				StartIdx: i - 1,
 				EndIdx:   i,
-				Duration: p.Frequencies[i-1],
+			}
+			if i-1 < len(p.Frequencies) {
+				gap.Duration = p.Frequencies[i-1]
 			}
 			gaps = append(gaps, gap)
 		}
diff --git a/internal/emerge/pattern.go b/internal/emerge/pattern.go
index 2ccc5ae..b122554 100644
--- a/internal/emerge/pattern.go
+++ b/internal/emerge/pattern.go
@@ -54,7 +54,9 @@ func (p *TargetPattern) Detect() []PatternGap {
 			gap := PatternGap{
 				StartIdx: i - 1,
 				EndIdx:   i,
-				Duration: p.Frequencies[i-1],
+			}
+			if i-1 < len(p.Frequencies) {
+				gap.Duration = p.Frequencies[i-1]
 			}
 			gaps = append(gaps, gap)
 		}
-- 
2.43.0


From 39c42648391cd437e2f51b3c774e8267d7aa06e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:59 +0000
Subject: [PATCH 15/18] fix: ForEachAgent and DisruptAgents reach the agents of
 swarms larger than 100

---
 emerge/swarm/swarm.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/emerge/swarm/swarm.go b/emerge/swarm/swarm.go
index 98b97ae..7135c22 100644
--- a/emerge/swarm/swarm.go
+++ b/emerge/swarm/swarm.go
@@ -568,15 +568,13 @@ func (s *Swarm) DisruptAgents(percentage float64) {
 	targetCount := int(float64(s.Size()) * percentage)
 	disrupted := 0
 
-	s.agents.Range(func(_, value any) bool {
+	s.ForEachAgent(func(a *agent.Agent) bool {
 		if disrupted >= targetCount {
 			return false
 		}
 
-		if a, ok := value.(*agent.Agent); ok {
-			a.SetPhase(random.Phase())
-			disrupted++
-		}
+		a.SetPhase(random.Phase())
+		disrupted++
 		return true
 	})
 
@@ -610,6 +608,15 @@ func (s *Swarm) DisruptAgents(percentage float64) {
 // ForEachAgent applies a function to each agent in the swarm.
 // This provides controlled access to agents without exposing the internal map.
 func (s *Swarm) ForEachAgent(fn func(*agent.Agent) bool) {
+	if s.optimized {
+		for _, a := range s.collectAgents() {
+			if !fn(a) {
+				return
+			}
+		}
+		return
+	}
+
 	s.agents.Range(func(_, value any) bool {
 		if agent, ok := value.(*agent.Agent); ok {
 			return fn(agent)
-- 
2.43.0


From 5af2eaf1367c001b99af14ce5e180665850d7ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:59 +0000
Subject: [PATCH 16/18] fix: WithAgentBuilder also populates swarms larger than
 100

---
 emerge/swarm/swarm.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/emerge/swarm/swarm.go b/emerge/swarm/swarm.go
index 7135c22..2c38427 100644
--- a/emerge/swarm/swarm.go
+++ b/emerge/swarm/swarm.go
@@ -290,6 +290,11 @@ func WithAgentBuilder(builder func(id string, swarmSize int, cfg config.Swarm) *
 	return func(s *Swarm) error {
 		for i := range s.size {
 			a := builder(fmt.Sprintf("agent-%d", i), s.size, s.config)
+			if s.optimized {
+				s.agentIndex[a.ID] = len(s.agentSlice)
+				s.agentSlice = append(s.agentSlice, a)
+				continue
+			}
 			s.agents.Store(a.ID, a)
 		}
 		return nil
-- 
2.43.0


From d9aab4467d45e3f14bf4ff922c2bbddc6a7ed927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:51 +0000
Subject: [PATCH 17/18] fix: phase convergence stays in [0, 1] whatever turn
 the target phase is given in

---
 emerge/swarm/phase_convergence.go | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/emerge/swarm/phase_convergence.go b/emerge/swarm/phase_convergence.go
index 45c540c..f2fb181 100644
--- a/emerge/swarm/phase_convergence.go
+++ b/emerge/swarm/phase_convergence.go
@@ -2,6 +2,8 @@ package swarm
 
 import (
 	"math"
+
+	"github.com/carlisia/bio-adapt/emerge/core"
 )
 
 // MeasurePhaseConvergence calculates how well agents have converged to a target phase.
@@ -15,14 +17,8 @@ func (s *Swarm) MeasurePhaseConvergence(targetPhase float64) float64 {
 	// Calculate mean phase distance from target
 	totalDistance := 0.0
 	for _, agent := range agents {
-		phase := agent.Phase()
-		// Calculate circular distance
-		diff := math.Abs(phase - targetPhase)
-		// Handle wraparound
-		if diff > math.Pi {
-			diff = 2*math.Pi - diff
-		}
-		totalDistance += diff
+		// Circular distance, whatever turn the target phase is given in
+		totalDistance += math.Abs(core.PhaseDifference(agent.Phase(), targetPhase))
 	}
 
 	avgDistance := totalDistance / float64(len(agents))
-- 
2.43.0


From cbfa06e4d7e09ee44d7dec685b88c41b84fa73cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:15 +0000
Subject: [PATCH 18/18] fix: the agent pool hands out working agents, without
 the neighbors of their previous use

Pool.Get panicked on a new agent (a nil state in AtomicState.Store), and an
agent that came back kept the neighbors in its optimized storage.
---
 emerge/agent/pool.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/emerge/agent/pool.go b/emerge/agent/pool.go
index 0aef185..daa1fdf 100644
--- a/emerge/agent/pool.go
+++ b/emerge/agent/pool.go
@@ -14,10 +14,8 @@ import (
 var Pool = &PoolManager{
 	pool: sync.Pool{
 		New: func() interface{} {
-			// Create a new agent with minimal initialization
-			a := &Agent{}
-			// neighbors is already a sync.Map field, not a pointer
-			return a
+			// Create a working agent; it gets its ID when it leaves the pool
+			return New("")
 		},
 	},
 	stats: &PoolStats{},
@@ -101,6 +99,9 @@ func (a *Agent) Reset(id string) {
 		a.neighbors.Delete(key)
 		return true
 	})
+	if a.optimizedNeighbors != nil {
+		a.optimizedNeighbors.Clear()
+	}
 
 	// Reset context
 	a.context.Store(core.Context{})
@@ -120,6 +121,9 @@ func (a *Agent) Clear() {
 		a.neighbors.Delete(key)
 		return true
 	})
+	if a.optimizedNeighbors != nil {
+		a.optimizedNeighbors.Clear()
+	}
 
 	// Don't nil out structures, just clear them
 	a.context.Store(core.Context{})
-- 
2.43.0

