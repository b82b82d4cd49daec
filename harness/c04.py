"""C04: decompositions repartition the faces and change nothing else."""
from decomp import execute, stages  # noqa: F401
STAGES = stages('partition')
