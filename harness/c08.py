"""C08: merging routes each calculated value to its own face and timestamp."""
import pipeline


def execute(s):
    return pipeline.execute_merge(s) if s['stage'] == 'merge' else pipeline.execute_calc(s)


STAGES = [{'name': 'merge', 'module': 'TracePipeline', 'plan': pipeline.plan_merge, 'chunks': 6, 'workers': 7},
          {'name': 'calc', 'module': 'TracePipeline', 'plan': pipeline.plan_calc, 'chunks': 2, 'workers': 7}]
