package convergence

import (
	"github.com/carlisia/bio-adapt/emerge/core"
	"github.com/carlisia/bio-adapt/internal/vp"
)

//gvc:guard Monitor.historyMu: history

// No window is larger than this.
const maxWindow = 1 << 40

// tracked is the representation invariant: a window, and no more than two windows of samples.
func tracked(m *Monitor) bool {
	return m != nil && m.windowSize >= 1 && m.windowSize <= maxWindow && len(m.history) <= 2*m.windowSize
}

func vgenMonitor(g *vp.Gen) *Monitor {
	m := NewMonitor(g.Intn(7))
	m.target = &core.TargetPattern{Phase: g.Unit(), Frequency: 1000, Coherence: g.Unit()}
	base, step, odd := g.Unit(), float64(g.Intn(9)-4)/256, g.Intn(3)
	for i := range g.Intn(20) {
		c := base + step*float64(i)
		if odd == 0 && g.Bool() {
			c = g.Unit()
		}
		m.RecordSample(&core.TargetPattern{Phase: m.target.Phase, Frequency: 1000, Coherence: c}, c)
	}
	return m
}

func vgenTargetPattern(g *vp.Gen) *core.TargetPattern {
	p := vp.Fill[core.TargetPattern](g)
	return &p
}

//gvc:prop C18
//gvc:target emerge/convergence.NewMonitor
func ctNewMonitor(window int) {
	vp.Requires(window <= maxWindow)
	m := NewMonitor(window)
	vp.Ensures("a monitor is created", m != nil && vp.Fresh(m))
	vp.Ensures("a new monitor is in order", tracked(m))
	vp.Ensures("a new monitor is empty", len(m.history) == 0 && !m.IsConverging() && !m.IsStuck())
	vp.Ensures("a positive window is kept", window <= 0 || m.windowSize == window)
}

// Every sample is recorded; the oldest go when two windows are full, never the latest window.
//
//gvc:prop C18
//gvc:locks
//gvc:target (*emerge/convergence.Monitor).RecordSample
func ctRecordSample(m *Monitor, cur *core.TargetPattern, coherence float64, k int) {
	vp.Requires(tracked(m))
	n, w := len(m.history), m.windowSize
	vp.Requires(k >= 0 && k < n)
	old := m.history[n-1-k]
	d := core.PatternDistance(cur, m.target)
	m.RecordSample(cur, coherence)
	vp.OneCritical()
	l := len(m.history)
	vp.Ensures("the history stays bounded", tracked(m))
	vp.Ensures("the window stays", m.windowSize == w)
	vp.Ensures("at least the latest window is kept", l == n+1 || l >= w)
	vp.Ensures("the latest sample is the one recorded", vp.EqF(m.history[l-1].Distance, d) && m.history[l-1].Coherence == coherence)
	vp.Ensures("earlier samples keep their order", l < k+2 || m.history[l-2-k].Distance == old.Distance && m.history[l-2-k].Coherence == old.Coherence)
}

//gvc:prop C18
//gvc:locks
func ctRecordFirst(m *Monitor, cur *core.TargetPattern, coherence float64) {
	vp.Requires(tracked(m) && len(m.history) == 0)
	m.RecordSample(cur, coherence)
	vp.Ensures("the first sample is kept", len(m.history) == 1 && m.history[0].Coherence == coherence && m.history[0].Velocity == 0)
	vp.Ensures("one sample is no convergence", !m.IsConverging())
}

// slope: the values lie on a straight line of this slope.
func onLine(data []float64) (a, b float64, ok bool) {
	n := len(data)
	if n < 2 {
		return 0, 0, true
	}
	a, b = data[0], data[1]-data[0]
	return a, b, vp.Forall(0, n, func(i int) bool { return vp.EqF(data[i], a+b*float64(i)) })
}

func trendSums(a, b float64) {
	vp.LoopInv("a sum of positions", func(i int, t float64) bool { return t*2 == float64(i*(i-1)) })
	vp.LoopInv("a sum of squares", func(i int, t float64) bool { return t*6 == float64(i*(i-1)*(2*i-1)) })
	vp.LoopInv("a sum of values", func(i int, t float64) bool { return t*2 == 2*a*float64(i)+b*float64(i*(i-1)) })
	vp.LoopInv("a sum of products", func(x, x2, t float64) bool { return t == a*x+b*x2 })
	vp.LoopInv("in range", func(i int) bool { return i >= 0 })
}

// The trend is the slope of the values: exact on a straight line.
//
//gvc:prop C18
//gvc:target emerge/convergence.calculateTrend
func ctTrend(data []float64) {
	a, b, ok := onLine(data)
	vp.Requires(ok)
	n := len(data)
	trendSums(a, b)
	r := calculateTrend(data)
	vp.Ensures("no trend without two values", n >= 2 || r == 0)
	vp.Ensures("the trend of a straight line is its slope", n < 2 || vp.EqF(r, b))
}

// Progress is a fraction, whatever distances were recorded.
//
//gvc:prop C18
//gvc:locks
//gvc:target (*emerge/convergence.Monitor).GetProgress
func ctGetProgress(m *Monitor) {
	vp.Requires(tracked(m))
	p := m.GetProgress()
	vp.OneCritical()
	n := len(m.history)
	vp.Ensures("progress is a fraction", p >= 0 && p <= 1)
	vp.Ensures("no progress before the first sample", n > 0 || p == 0)
	vp.Ensures("at the target all progress is made", n == 0 || m.history[n-1].Distance != 0 || p == 1)
	vp.Ensures("no progress when not nearer than at first", n == 0 || m.history[0].Distance <= 0 || m.history[n-1].Distance < m.history[0].Distance || p == 0)
	vp.Ensures("progress is the part of the distance covered", n == 0 || m.history[0].Distance <= 0 || m.history[n-1].Distance < 0 || p == 0 || vp.EqF((1-p)*m.history[0].Distance, m.history[n-1].Distance))
}

// The rate is the mean of the recent velocities that are not zero.
//
//gvc:prop C18
//gvc:locks
//gvc:target (*emerge/convergence.Monitor).GetConvergenceRate
func ctGetConvergenceRate(m *Monitor, lo, hi float64) {
	vp.Requires(tracked(m) && lo <= 0 && hi >= 0)
	n := len(m.history)
	s := max(0, n-m.windowSize)
	vp.Requires(vp.Forall(s, n, func(i int) bool { return m.history[i].Velocity >= lo && m.history[i].Velocity <= hi }))
	vp.LoopInv("a sum in range", func(c int, t float64) bool { return c >= 0 && t >= lo*float64(c) && t <= hi*float64(c) })
	r := m.GetConvergenceRate()
	vp.OneCritical()
	vp.Ensures("no rate without two samples", n >= 2 || r == 0)
	vp.Ensures("the rate lies within the recent velocities", vp.LeF(lo, r) && vp.LeF(r, hi))
}

// A strategy is given up exactly when more than 70% of the recent samples show no progress.
//
//gvc:prop C18
//gvc:locks
//gvc:target (*emerge/convergence.Monitor).ShouldSwitchStrategy
func ctShouldSwitchStrategy(m *Monitor) {
	vp.Requires(tracked(m))
	n := len(m.history)
	s := max(0, n-m.windowSize)
	stuck := func(i int) bool { return m.history[s+i].Velocity >= -0.001 }
	vp.LoopInv("count so far", func(i int, c int) bool { return c == vp.Count(0, i, stuck) })
	sw := m.ShouldSwitchStrategy()
	vp.OneCritical()
	k := n - s
	vp.Ensures("switch exactly when most recent samples show no progress", sw == (k >= 3 && float64(vp.Count(0, k, stuck)) > float64(k)*0.7))
}

//gvc:prop C18
//gvc:locks
//gvc:target (*emerge/convergence.Monitor).Reset
func ctReset(m *Monitor) {
	vp.Requires(tracked(m))
	w := m.windowSize
	m.Reset()
	vp.OneCritical()
	vp.Ensures("nothing is left", len(m.history) == 0 && m.GetProgress() == 0)
	vp.Ensures("neither converging nor stuck", !m.IsConverging() && !m.IsStuck())
	vp.Ensures("the monitor stays in order", tracked(m) && m.windowSize == w)
}

// Converging means that the recent distances fall; stuck counts how often in a row they did not change.
// Decided exactly where the recent distances lie on a straight line.
//
//gvc:prop C18
//gvc:use emerge/convergence.ctTrend
//gvc:target (*emerge/convergence.Monitor).updateConvergenceStatus
func ctStatus(m *Monitor, a, b float64) {
	vp.Requires(tracked(m))
	n := len(m.history)
	s := max(0, n-m.windowSize)
	k := n - s
	if k >= 2 {
		a, b = m.history[s].Distance, m.history[s+1].Distance-m.history[s].Distance
	}
	vp.Requires(vp.Forall(0, k, func(i int) bool { return vp.EqF(m.history[s+i].Distance, a+b*float64(i)) }))
	stuck := m.stuckCount.Load()
	vp.Requires(stuck >= 0 && stuck < 1<<30)
	vp.LoopInv("copied so far", func(i int, r []float64) bool {
		return vp.Forall(0, i, func(j int) bool { return r[j] == m.history[s+j].Distance })
	})
	trendSums(a, b)
	m.updateConvergenceStatus()
	vp.Ensures("falling distances are convergence", k < 3 || b >= -0.0011 || m.IsConverging())
	vp.Ensures("distances that do not fall are none", k >= 3 && b < -0.0009 || !m.IsConverging())
	vp.Ensures("a flat run counts", k < 3 || b > 0.0009 || b < -0.0009 || m.stuckCount.Load() == stuck+1)
	vp.Ensures("a changing run starts the count over", k < 3 || b < 0.0011 && b > -0.0011 || m.stuckCount.Load() == 0 && !m.IsStuck())
	vp.Ensures("too few samples decide nothing", k >= 3 || m.stuckCount.Load() == stuck)
}
