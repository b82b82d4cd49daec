"""Worker: executes scenarios of one check against the real code and records what happened."""
import importlib
import json
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True


def main():
    modname, fin, fout = sys.argv[1:4]
    try:
        mod = importlib.import_module(modname)
        import lib
        scns = json.load(open(fin))
    except Exception:
        traceback.print_exc()
        sys.exit(3)
    try:
        lib.import_repo()
        broken = None
    except Exception as e:      # the code under test cannot be imported any more
        broken = 'import of the code under test: %s: %s' % (type(e).__name__, e)
    with open(fout, 'w') as f:
        for s in scns:
            if broken:
                recs = [{'ev': 'crash', 'msg': broken}]
            else:
                try:
                    recs = mod.execute(s)
                except Exception as e:
                    tb = traceback.extract_tb(e.__traceback__)[-1]
                    recs = [{'ev': 'crash', 'msg': '%s: %s (%s:%d)' % (type(e).__name__, str(e)[:200],
                                                                      os.path.basename(tb.filename), tb.lineno)}]
            f.write(json.dumps({'scn': s['id'], 'records': recs}) + '\n')
            f.flush()


main()
