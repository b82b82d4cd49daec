"""C06: the solver files are a faithful, self consistent distribution of the grid."""
from cry import execute, stages  # noqa: F401
STAGES = stages('content')
