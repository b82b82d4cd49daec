"""C10: the grid stays a consistent incidence structure over every history of transformations."""
from transforms import execute, stages  # noqa: F401
STAGES = stages('consistency')
