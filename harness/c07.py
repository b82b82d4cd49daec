"""C07: neighbour solver files agree on their common border."""
from cry import execute, stages  # noqa: F401
STAGES = stages('borders')
