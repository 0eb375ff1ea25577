package monitoring

import (
	"time"

	"github.com/carlisia/bio-adapt/emerge/core"
	"github.com/carlisia/bio-adapt/internal/vp"
)

//gvc:guard ConvergenceMonitor.mu: history timestamps startTime convergedTime maxCoherence minCoherence

// recorded is the representation invariant: one time per measurement, converged exactly when the last
// measurement reaches the threshold, and extremes that bound every measurement.
func recorded(m *ConvergenceMonitor) bool {
	n := len(m.history)
	return n == len(m.timestamps) && !vp.IsNaN(m.convergenceAt) && !vp.IsNaN(m.maxCoherence) && !vp.IsNaN(m.minCoherence) &&
		vp.Forall(0, n, func(i int) bool { return m.history[i] <= m.maxCoherence && m.history[i] >= m.minCoherence }) &&
		(m.convergedTime != nil) == (n > 0 && m.history[n-1] >= m.convergenceAt)
}

func vgenConvergenceMonitor(g *vp.Gen) *ConvergenceMonitor {
	m := NewConvergence(core.State{}, g.Unit())
	base, step, odd := g.Unit(), float64(g.Intn(9)-4)/64, g.Intn(3)
	for i := range g.Intn(30) {
		switch {
		case odd > 0 || g.Intn(3) > 0:
			m.Record(base + step*float64(i))
		case g.Bool():
			m.Record(g.Unit())
		default:
			m.Record(m.CurrentCoherence())
		}
	}
	return m
}

//gvc:prop C18
//gvc:mode bits
//gvc:target emerge/monitoring.NewConvergence
func ctNewConvergence(target core.State, threshold float64) {
	vp.Requires(!vp.IsNaN(threshold))
	m := NewConvergence(target, threshold)
	vp.Ensures("a monitor is created", m != nil && vp.Fresh(m))
	vp.Ensures("a new monitor is in order", recorded(m))
	vp.Ensures("a new monitor has seen nothing", len(m.history) == 0 && m.CurrentCoherence() == 0)
	vp.Ensures("a new monitor is not converged", !m.IsConverged())
	vp.Ensures("the threshold is kept", m.convergenceAt == threshold)
}

// Record keeps every measurement, in order, and decides convergence by the latest one.
//
//gvc:prop C18
//gvc:mode bits
//gvc:locks
//gvc:target (*emerge/monitoring.ConvergenceMonitor).Record
func ctConvergenceRecord(m *ConvergenceMonitor, coherence float64, k int) {
	vp.Requires(m != nil && recorded(m) && !vp.IsNaN(coherence))
	n := len(m.history)
	max, min := m.maxCoherence, m.minCoherence
	vp.Requires(k >= 0 && k < n)
	old := m.history[k]
	m.Record(coherence)
	vp.OneCritical()
	vp.Ensures("one measurement is added", len(m.history) == n+1)
	vp.Ensures("the latest measurement is the one recorded", vp.SameF(m.history[n], coherence))
	vp.Ensures("earlier measurements stay", vp.SameF(m.history[k], old))
	vp.Ensures("converged exactly when the latest measurement reaches the threshold", (m.convergedTime != nil) == (coherence >= m.convergenceAt))
	vp.Ensures("the maximum follows", coherence > max && vp.SameF(m.maxCoherence, coherence) || coherence <= max && vp.SameF(m.maxCoherence, max))
	vp.Ensures("the minimum follows", coherence < min && vp.SameF(m.minCoherence, coherence) || coherence >= min && vp.SameF(m.minCoherence, min))
	vp.Ensures("the monitor stays in order", recorded(m))
}

//gvc:prop C18
//gvc:mode bits
func ctConvergenceRecordFirst(m *ConvergenceMonitor, coherence float64) {
	vp.Requires(m != nil && recorded(m) && !vp.IsNaN(coherence) && len(m.history) == 0)
	m.Record(coherence)
	vp.Ensures("the first measurement is kept", len(m.history) == 1 && vp.SameF(m.history[0], coherence))
	vp.Ensures("converged exactly when it reaches the threshold", (m.convergedTime != nil) == (coherence >= m.convergenceAt))
	vp.Ensures("the monitor stays in order", recorded(m))
}

// The time of convergence is the time of the first measurement of the present run above the threshold.
//
//gvc:prop C18
func ctConvergenceTime(m *ConvergenceMonitor, coherence float64) {
	vp.Requires(m != nil && recorded(m))
	was, at := m.convergedTime, time.Time{}
	if was != nil {
		at = *was
	}
	m.Record(coherence)
	d := m.ConvergenceTime()
	vp.Ensures("an ongoing convergence keeps its time", was == nil || coherence < m.convergenceAt || *m.convergedTime == at)
	vp.Ensures("no time without convergence", coherence >= m.convergenceAt || d == 0)
	vp.Ensures("the time is measured from the start", m.convergedTime == nil || d == m.convergedTime.Sub(m.startTime))
}

//gvc:prop C18
//gvc:mode bits
//gvc:locks
//gvc:target (*emerge/monitoring.ConvergenceMonitor).IsConverged
func ctIsConverged(m *ConvergenceMonitor) {
	vp.Requires(m != nil && recorded(m))
	ok := m.IsConverged()
	vp.OneCritical()
	n := len(m.history)
	vp.Ensures("converged exactly when the latest measurement reaches the threshold", ok == (n > 0 && m.history[n-1] >= m.convergenceAt))
}

//gvc:prop C18
//gvc:mode bits
//gvc:locks
//gvc:target (*emerge/monitoring.ConvergenceMonitor).CurrentCoherence
func ctCurrentCoherence(m *ConvergenceMonitor) {
	vp.Requires(m != nil && recorded(m))
	c := m.CurrentCoherence()
	vp.OneCritical()
	n := len(m.history)
	vp.Ensures("the current coherence is the latest measurement", n == 0 && c == 0 || n > 0 && vp.SameF(c, m.history[n-1]))
}

//gvc:prop C18
//gvc:mode bits
//gvc:locks
//gvc:target (*emerge/monitoring.ConvergenceMonitor).History
func ctConvergenceHistory(m *ConvergenceMonitor) {
	vp.Requires(m != nil && recorded(m))
	h := m.History()
	vp.OneCritical()
	vp.Ensures("all measurements are listed", len(h) == len(m.history))
	vp.Ensures("in order", vp.Forall(0, len(h), func(i int) bool { return vp.SameF(h[i], m.history[i]) }))
	vp.Ensures("the list is the caller's own", len(h) == 0 || vp.Fresh(&h[0]))
}

//gvc:prop C18
//gvc:mode bits
//gvc:locks
//gvc:target (*emerge/monitoring.ConvergenceMonitor).Reset
func ctConvergenceReset(m *ConvergenceMonitor) {
	vp.Requires(m != nil && recorded(m))
	at := m.convergenceAt
	m.Reset()
	vp.OneCritical()
	vp.Ensures("nothing is left", len(m.history) == 0 && len(m.timestamps) == 0)
	vp.Ensures("not converged any more", !m.IsConverged() && m.CurrentCoherence() == 0)
	vp.Ensures("the extremes start over", m.maxCoherence == 0 && m.minCoherence == 1)
	vp.Ensures("the threshold stays", m.convergenceAt == at)
	vp.Ensures("the monitor stays in order", recorded(m))
}

// line: the last measurements, up to ten, lie on a straight line.
func line(m *ConvergenceMonitor) (a, b float64, ok bool) {
	n := len(m.history)
	s := n - min(10, n)
	if n < 2 {
		return 0, 0, true
	}
	a, b = m.history[s], m.history[s+1]-m.history[s]
	return a, b, vp.Forall(s, n, func(i int) bool { return vp.EqF(m.history[i], a+b*float64(i-s)) })
}

// lineSums offers the sums over a straight line.
func lineSums(m *ConvergenceMonitor, a, b float64) {
	n := len(m.history)
	s := n - min(10, n)
	vp.LoopInv("a sum of positions", func(i int, t float64) bool { return t*2 == float64((i-s)*(i-s-1)) })
	vp.LoopInv("a sum of squares", func(i int, t float64) bool { return t*6 == float64((i-s)*(i-s-1)*(2*(i-s)-1)) })
	vp.LoopInv("a sum of values", func(i int, t float64) bool { return t*2 == 2*a*float64(i-s)+b*float64((i-s)*(i-s-1)) })
	vp.LoopInv("a sum of products", func(x, x2, t float64) bool { return t == a*x+b*x2 })
	vp.LoopInv("in range", func(i int) bool { return i >= s && i <= n })
}

// The rate is the slope of the recent measurements: exact on a straight line.
//
//gvc:prop C18
//gvc:target (*emerge/monitoring.ConvergenceMonitor).convergenceRate
func ctRate(m *ConvergenceMonitor) {
	vp.Requires(m != nil && recorded(m))
	a, b, ok := line(m)
	vp.Requires(ok)
	n := len(m.history)
	lineSums(m, a, b)
	r := m.convergenceRate()
	vp.Ensures("no rate without two measurements", n >= 2 || r == 0)
	vp.Ensures("the rate of a straight line is its slope", n < 2 || vp.EqF(r, b))
}

//gvc:prop C18
//gvc:locks
//gvc:use emerge/monitoring.ctRate
//gvc:target (*emerge/monitoring.ConvergenceMonitor).ConvergenceRate
func ctConvergenceRate(m *ConvergenceMonitor) {
	vp.Requires(m != nil && recorded(m))
	a, b, ok := line(m)
	vp.Requires(ok)
	n := len(m.history)
	lineSums(m, a, b)
	r := m.ConvergenceRate()
	vp.OneCritical()
	vp.Ensures("no rate without two measurements", n >= 2 || r == 0)
	vp.Ensures("the rate of a straight line is its slope", n < 2 || vp.EqF(r, b))
}

//gvc:prop C18
//gvc:target (*emerge/monitoring.ConvergenceMonitor).Stability
//gvc:locks
func ctStability(m *ConvergenceMonitor) {
	vp.Requires(m != nil && recorded(m))
	vp.LoopInv("not negative", func(v float64) bool { return v >= 0 })
	r := m.Stability()
	vp.OneCritical()
	vp.Ensures("stability is a fraction", vp.LeF(0, r) && vp.LeF(r, 1))
	vp.Ensures("too few measurements are stable", len(m.history) >= 2 || r == 1)
}

//gvc:prop C18
func ctStabilityConstant(m *ConvergenceMonitor, c float64) {
	vp.Requires(m != nil && recorded(m) && len(m.history) >= 2)
	n := len(m.history)
	s := n - min(20, n)
	vp.Requires(vp.Forall(s, n, func(i int) bool { return m.history[i] == c }))
	vp.LoopInv("sum of equal values", func(i int, t float64) bool { return t == c*float64(i-s) })
	vp.LoopInv("no variation", func(v float64) bool { return v == 0 })
	vp.LoopInv("in range", func(i int) bool { return i >= s && i <= n })
	r := m.Stability()
	vp.Ensures("unchanging coherence is perfectly stable", vp.EqF(r, 1))
}

// A prediction is never negative, and there is none after convergence or without progress.
//
//gvc:prop C18
//gvc:mode bits
//gvc:locks
//gvc:target (*emerge/monitoring.ConvergenceMonitor).PredictConvergenceTime
func ctPredict(m *ConvergenceMonitor) {
	vp.Requires(m != nil && recorded(m))
	p := m.PredictConvergenceTime()
	vp.OneCritical()
	vp.Ensures("a prediction is never negative", p >= 0)
	vp.Ensures("nothing to predict after convergence", m.convergedTime == nil || p == 0)
}

// Coherence that falls along a straight line leads to no prediction.
//
//gvc:prop C18
//gvc:use emerge/monitoring.ctRate
func ctPredictLine(m *ConvergenceMonitor) {
	vp.Requires(m != nil && recorded(m))
	a, b, ok := line(m)
	vp.Requires(ok && b < -0.001)
	lineSums(m, a, b)
	vp.Ensures("no prediction without progress", m.PredictConvergenceTime() == 0)
}

// The statistics report the same values as the methods of their own.
//
//gvc:prop C18
//gvc:locks
//gvc:target (*emerge/monitoring.ConvergenceMonitor).Statistics
func ctStatistics(m *ConvergenceMonitor) {
	vp.Requires(m != nil && recorded(m))
	n := len(m.history)
	vp.LoopInv("not negative", func(v float64) bool { return v >= 0 })
	st := m.Statistics()
	vp.OneCritical()
	samples, ok := st["samples"].(int)
	vp.Ensures("the number of samples", ok && samples == n)
	max, ok := st["max"].(float64)
	vp.Ensures("the maximum", ok && max == m.maxCoherence)
	min, ok := st["min"].(float64)
	vp.Ensures("the minimum", ok && min == m.minCoherence)
	conv, ok := st["converged"].(bool)
	vp.Ensures("convergence", ok && conv == (n > 0 && m.history[n-1] >= m.convergenceAt))
	cur, ok := st["current_coherence"].(float64)
	vp.Ensures("the current coherence", ok && (n == 0 && cur == 0 || n > 0 && cur == m.history[n-1]))
	at, ok := st["target_coherence"].(float64)
	vp.Ensures("the threshold", ok && at == m.convergenceAt)
	stable, ok := st["stability"].(float64)
	vp.Ensures("stability is a fraction", ok && vp.LeF(0, stable) && vp.LeF(stable, 1))
}
