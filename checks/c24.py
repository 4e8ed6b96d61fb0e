"""C24: cached run = run from scratch. Oracles: a model of the reports, and the
same script with an empty cache."""
import tidy_history
tidy_history.main('C24', 'A history is 14 (thorough: 40) rounds of random '
                  'edits (sources, directly included headers, add, remove, '
                  'rename, copy, swap, revert, configuration, version, '
                  'arguments, build files) each followed by a run with a '
                  'recording stand-in for the lint tool; every report is '
                  'compared with the model, every third with a run from '
                  'scratch. Distinct: by reported findings and last edit.')
