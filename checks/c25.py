"""C25: exactly once. Oracle: event log of the stand-in lint tool against a
model of what was linted before."""
import tidy_history
tidy_history.main('C25', 'Histories of random edits and runs; the event log of '
                  'tool invocations of each run is compared with the set of '
                  'sources whose state was not linted before (or has findings '
                  'older than the build configuration). Distinct: by findings '
                  'of all sources and last edit.')
