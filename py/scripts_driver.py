"""Runs the scripts of /repo in one process: one JSON request per line, one JSON answer per line."""
import contextlib, io, json, runpy, sys, traceback
def run(script, argv):
    out, err, st = io.StringIO(), io.StringIO(), 0
    sys.argv = [script] + argv
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
        try: runpy.run_path(script, run_name='__main__')
        except SystemExit as e: st = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
        except BaseException: st = 1; err.write(traceback.format_exc())
    return {'status': st, 'out': out.getvalue(), 'err': err.getvalue()[-400:]}
for line in sys.stdin:
    r = json.loads(line)
    sys.__stdout__.write(json.dumps(run(r['script'], r['argv'])) + '\n'); sys.__stdout__.flush()
