"""C21: exchange of border values between ranks under all schedules."""
from exchange import execute_functions, execute_main, plan_functions, plan_main


def execute(s):
    if s['stage'] == 'functions':
        return execute_functions(s)
    return [r for r in execute_main(s) if r['ev'] != 'gather']


STAGES = [{'name': 'functions', 'module': 'TraceExchange', 'plan': plan_functions, 'chunks': 4, 'workers': 7},
          {'name': 'program', 'module': 'TraceExchange', 'plan': plan_main, 'chunks': 4, 'workers': 7}]
