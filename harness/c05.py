"""C05: shapes of the decompositions."""
from decomp import execute, stages  # noqa: F401
STAGES = stages('shape')
