"""Run many command lines of the crazy-complete program in one process: FILE holds a JSON list of argument lists.
Each runs the real program file as __main__; writes a JSON list of [exit code, stdout, stderr] to FILE.res."""
import io, json, runpy, sys, contextlib, traceback
prog, path = sys.argv[1:3]
sys.path.insert(0, prog.rsplit('/', 1)[0])
res = []
for args in json.load(open(path)):
    out, err = io.StringIO(), io.StringIO()
    sys.argv = [prog] + args
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
        try:
            runpy.run_path(prog, run_name='__main__')
            rc = 0
        except SystemExit as e:
            rc = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
        except BaseException:
            traceback.print_exc()
            rc = 1
    res.append([rc, out.getvalue(), err.getvalue()])
with open(path + '.res', 'w') as fh:
    json.dump(res, fh)
