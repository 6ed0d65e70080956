import publish
import runs
import delta
import clean
import rsync
import paths
import fetching
import validation
import state
import panics
RULES = {n: getattr(m, n) for m in (publish, runs, delta, clean, rsync, paths, fetching, validation, state, panics) for n in dir(m) if n[:1] == "C" and n[1:].isdigit() and getattr(m, n).__module__ == m.__name__}
