"""Replay a history of command lines (Lifecycle.tla) in a directory of its own, as an unprivileged user.
Every command is a process that runs the real program file; paths of the system's completion directories are
redirected below the directory, and everything else outside of it may only be read.
usage: PROG JOB   (JOB: JSON {root, uid, steps: [[args...] or batch text]}); writes JOB.res: [[exit, stdout, stderr, listing], ...]"""
import builtins, io, json, os, runpy, sys, traceback
import argparse, yaml, shlex, importlib.util, subprocess, re, collections     # what every command imports
prog, jobfile = sys.argv[1:3]
job = json.load(open(jobfile))
root = job['root']
SYSTEM = ('/usr/share/', '/usr/local/share/', '/etc/')
KINDS = ('bash', 'fish', 'zsh')


def moved(p):
    try:
        s = os.fspath(p)
    except TypeError:
        return p
    if isinstance(s, bytes):
        return p
    a = os.path.normpath(os.path.join(os.getcwd(), s))
    if a.startswith(SYSTEM) and any(k in a for k in KINDS) and '/python' not in a:
        return root + '/sys' + a
    return p


def redirect():
    def wrap(mod, name, n):
        f = getattr(mod, name)

        def g(*a, **k):
            a = tuple(moved(x) if i < n else x for i, x in enumerate(a))
            return f(*a, **k)
        setattr(mod, name, g)
    wrap(builtins, 'open', 1)
    io.open = builtins.open
    for name, n in [('open', 1), ('remove', 1), ('unlink', 1), ('rename', 2), ('replace', 2), ('mkdir', 1), ('rmdir', 1), ('stat', 1), ('lstat', 1),
                    ('chmod', 1), ('link', 2), ('symlink', 2), ('access', 1), ('truncate', 1), ('utime', 1), ('listdir', 1), ('scandir', 1)]:
        wrap(os, name, n)


def listing():
    r = []
    for d, ds, fs in os.walk(root + '/w'):
        for x in sorted(ds):
            r.append([os.path.relpath(d + '/' + x, root), None])
        for x in sorted(fs):
            with open(d + '/' + x, 'rb') as fh:
                r.append([os.path.relpath(d + '/' + x, root), fh.read().decode('utf-8', 'backslashreplace')])
    for d, ds, fs in os.walk(root + '/sys'):
        for x in sorted(fs):
            with open(d + '/' + x, 'rb') as fh:
                r.append([os.path.relpath(d + '/' + x, root), fh.read().decode('utf-8', 'backslashreplace')])
    return r


res = []
for args in job['steps']:
    outs = [root + '/stdout', root + '/stderr']
    pid = os.fork()
    if pid == 0:
        try:
            for i, o in enumerate(outs):
                fd = os.open(o, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
                os.dup2(fd, i + 1)
            os.chdir(root + '/w')
            os.setgroups([])
            os.setgid(job['uid'])
            os.setuid(job['uid'])
            redirect()
            sys.argv = [prog] + args
            sys.path.insert(0, prog.rsplit('/', 1)[0])
            sys.stdout = sys.__stdout__ = io.TextIOWrapper(io.FileIO(1, 'w', closefd=False), encoding='utf-8', errors='strict')
            sys.stderr = sys.__stderr__ = io.TextIOWrapper(io.FileIO(2, 'w', closefd=False), encoding='utf-8', errors='backslashreplace', write_through=True)
            rc = 0
            try:
                runpy.run_path(prog, run_name='__main__')
            except SystemExit as e:
                if isinstance(e.code, str):
                    print(e.code, file=sys.stderr)
                rc = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
            except BaseException:
                traceback.print_exc()
                rc = 1
            sys.stdout.flush()
            os._exit(rc & 255)
        except BaseException:
            traceback.print_exc()
            os._exit(99)
    _, st = os.waitpid(pid, 0)
    rc = os.waitstatus_to_exitcode(st)
    o, e = [open(x, 'rb').read().decode('utf-8', 'backslashreplace') for x in outs]
    for x in outs:
        os.remove(x)
    res.append([rc, o, e[-2000:], listing()])
with open(jobfile + '.res', 'w') as fh:
    json.dump(res, fh)
