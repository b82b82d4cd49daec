"""C09: the cycle split, solve, merge, remesh keeps track of grids by name and timestamp."""
import pipeline


def execute(s):
    return pipeline.execute_names(s) if s['stage'] == 'names' else pipeline.execute_cycle(s)


STAGES = [{'name': 'cycle', 'module': 'TracePipeline', 'plan': pipeline.plan_cycle, 'chunks': 6, 'workers': 7},
          {'name': 'names', 'module': 'TracePipeline', 'plan': pipeline.plan_names, 'chunks': 1, 'workers': 4}]
