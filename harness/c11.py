"""C11: every transformation changes the surface exactly as specified."""
from transforms import execute, stages  # noqa: F401
STAGES = stages('effect')
