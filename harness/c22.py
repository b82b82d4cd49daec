"""C22: heights gathered in the order of ranks."""
from exchange import execute_main, plan_main


def execute(s):
    return [r for r in execute_main(s) if r['ev'] != 'exchange']


STAGES = [{'name': 'program', 'module': 'TraceExchange', 'plan': plan_main, 'chunks': 4, 'workers': 7}]
