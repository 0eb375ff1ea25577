# internal/emerge has the same monitors as emerge/monitoring: one contract text for both
cd "$(dirname "$0")/../contracts" || exit 1
for f in convergence monitor patterns; do
  [ -f emerge/monitoring/$f.go ] || continue
  sed 's/^package monitoring/package emerge/; s/= NewConvergence(/= NewConvergenceMonitor(/; s/NewConvergence$/NewConvergenceMonitor/; s/= New()/= NewMonitor()/; s/monitoring\.New$/monitoring.NewMonitor/; s#emerge/monitoring\.#internal/emerge.#' emerge/monitoring/$f.go > internal/emerge/$f.go
done
