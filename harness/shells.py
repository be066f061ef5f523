"""Drivers: run generated completion scripts in the real shells, without a user.

A job is a dict {script, prog, queries: [line, ...]}; `line` is the text before the cursor
(cursor at its end).  Every driver returns, for every query, a list of raw candidate records;
full_words() turns them into the words that accepting a candidate would put on the line.
"""
import os, re, subprocess, tempfile, shutil, time, select, signal, pty, fcntl, termios, struct

US = '\x1f'
WORDBREAKS = ' \t\n"\'><=;|&(:'
HERE = os.path.dirname(os.path.abspath(__file__))


class DriverError(Exception):
    """The shell driver itself failed (never a verdict about the code)."""


def base_env(home):
    env = {
        'PATH': '/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin',
        'HOME': home, 'LC_ALL': 'C.UTF-8', 'TERM': 'dumb', 'USER': 'root', 'LOGNAME': 'root',
        'XDG_CONFIG_HOME': home + '/.config', 'XDG_DATA_HOME': home + '/.local/share',
        'XDG_CACHE_HOME': home + '/.cache', 'XDG_RUNTIME_DIR': home,
    }
    return env


# ---------------------------------------------------------------------------- bash

def bash_split(line):
    """COMP_WORDS as readline/bash compute it for a line (cursor at the end).

    Returns (words, start offset of the last word)."""
    words, starts = [], []
    i, n = 0, len(line)
    brk = set(WORDBREAKS) - set(' \t\n"\'')
    while True:
        while i < n and line[i] in ' \t\n':
            i += 1
        if i >= n:
            break
        start = i
        if line[i] in brk:
            while i < n and line[i] in brk:
                i += 1
        else:
            while i < n and line[i] not in ' \t\n' and line[i] not in brk:
                c = line[i]
                if c == '\\':
                    i += 2
                elif c == "'":
                    j = line.find("'", i + 1)
                    i = n if j < 0 else j + 1
                elif c == '"':
                    i += 1
                    while i < n and line[i] != '"':
                        i += 2 if line[i] == '\\' else 1
                    i += 1
                else:
                    i += 1
            i = min(i, n)
        words.append(line[start:i])
        starts.append(start)
    if not words or line[-1] in ' \t\n' and not line.endswith('\\ '):
        words.append('')
        starts.append(n)
    return words, starts[-1]


def sq(s):
    return "'" + s.replace("'", "'\\''") + "'"


BASH_PRE = r'''
source /usr/share/bash-completion/bash_completion
COMP_WORDBREAKS=$' \t\n"\'><=;|&(:'
compopt() { local a; for a; do [[ $a == -o || $a == +o ]] || OPTS+=" $a"; done; return 0; }
q() {
  local n="$1"; COMP_LINE="$2"; COMP_POINT=${#2}; COMP_TYPE=9; COMP_KEY=9; shift 2
  COMP_WORDS=("$@"); COMP_CWORD=$(( $# - 1 )); COMPREPLY=(); OPTS=
  printf 'Q%s\n' "$n"
  (
    __w="${COMP_WORDS[COMP_CWORD]}"; __p="${COMP_WORDS[COMP_CWORD-1]}"
    [[ "$__w" == [=:]* ]] && __w=
    "$FUNC" "${COMP_WORDS[0]}" "$__w" "$__p" 2>&3
    printf 'X%s\n' "$?"
    ((${#COMPREPLY[@]})) && printf 'R%s\n' "${COMPREPLY[@]}"
    [[ $OPTS ]] && printf 'O%s\n' "$OPTS"
  ) </dev/null
}
'''


def run_bash(jobs, workdir, timeout=600):
    out = []
    path = workdir + '/drv.bash'
    with open(path, 'w') as fh:
        fh.write(BASH_PRE)
        n = 0
        for job in jobs:
            fh.write('echo D >&3\n')
            fh.write('source %s 2>&3\n' % sq(job['script']))
            fh.write('FUNC=$(complete -p -- %s 2>/dev/null | sed -n "s/.*-F \\([^ ]*\\) .*/\\1/p")\n' % sq(job['prog']))
            fh.write('[[ $FUNC ]] || { echo "no completion registered for %s" >&3; FUNC=:; }\n' % job['prog'])
            if job.get('pre'):
                fh.write(job['pre'] + '\n')
            for line in job['queries']:
                words, _ = bash_split(line)
                fh.write('q %d %s %s\n' % (n, sq(line), ' '.join(sq(w) for w in words)))
                n += 1
        fh.write('echo DONE\n')
    res = _run(['bash', '--norc', '--noprofile', path], workdir, timeout, jobs[0].get('cwd'))
    cur = None
    for l in res.split('\n'):
        if l.startswith('Q'):
            cur = {'raw': [], 'opts': '', 'rc': None}
            out.append(cur)
        elif l.startswith('R') and cur is not None:
            cur['raw'].append(l[1:])
        elif l.startswith('O') and cur is not None:
            cur['opts'] = l[1:]
        elif l.startswith('X') and cur is not None:
            cur['rc'] = l[1:]
    if not res.rstrip().endswith('DONE') or len(out) != n:
        raise DriverError('bash driver: %d of %d queries answered' % (len(out), n))
    i = 0
    result = []
    for job in jobs:
        r = []
        for line in job['queries']:
            words, start = bash_split(line)
            head = line[:start]
            # the word being replaced starts after the last break character
            last = words[-1]
            if last and last[0] in '=:<>&|;(':
                pre = line[:]           # cursor right behind break characters: text is appended
                wordstart = len(line)
            else:
                wordstart = start
            full = []
            k = _word_begin(line)
            for c in out[i]['raw']:
                full.append(line[k:wordstart] + c)
            out[i]['full'] = full
            r.append(out[i])
            i += 1
        result.append(r)
    return result


def _word_begin(line):
    """Offset of the shell word (blank separated) the cursor is in."""
    i, n, start = 0, len(line), 0
    while i < n:
        c = line[i]
        if c == '\\':
            i += 2
        elif c == "'":
            j = line.find("'", i + 1)
            i = n if j < 0 else j + 1
        elif c == '"':
            i += 1
            while i < n and line[i] != '"':
                i += 2 if line[i] == '\\' else 1
            i += 1
        elif c in ' \t':
            i += 1
            start = i
        else:
            i += 1
    return start


def _run(cmd, workdir, timeout, cwd=None):
    env = base_env(workdir)
    with open(workdir + '/stderr', 'ab') as err, open(workdir + '/stdout', 'wb') as so:
        p = subprocess.Popen(['bash', '-c', 'exec "$@" 3>>"$0/fd3"', workdir] + cmd, stdin=subprocess.DEVNULL,
                             stdout=so, stderr=err, env=env, cwd=cwd or workdir, start_new_session=True)
        try:
            p.wait(timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            raise DriverError('%s: time limit' % cmd[0])
    return open(workdir + '/stdout', errors='surrogateescape').read()


# ---------------------------------------------------------------------------- fish

def fsq(s):
    return "'" + s.replace('\\', '\\\\').replace("'", "\\'") + "'"


def run_fish(jobs, workdir, timeout=600):
    path = workdir + '/drv.fish'
    n = 0
    with open(path, 'w') as fh:
        for job in jobs:
            fh.write('source %s\n' % fsq(job['script']))
            if job.get('pre'):
                fh.write(job['pre'] + '\n')
            for line in job['queries']:
                fh.write("echo '\x1eQ%d'; complete -C %s\n" % (n, fsq(line)))
                n += 1
        fh.write("echo '\x1eDONE'\n")
    res = _run(['fish', '--no-config', path], workdir, timeout, jobs[0].get('cwd'))
    out = []
    cur = None
    for l in res.split('\n'):
        if l.startswith('\x1eQ'):
            cur = []
            out.append({'raw': cur, 'opts': '', 'desc': []})
        elif l.startswith('\x1eDONE'):
            cur = None
        elif cur is not None and l:
            w, _, d = l.partition('\t')
            cur.append(w)
            out[-1]['desc'].append(d)
    if '\x1eDONE' not in res or len(out) != n:
        raise DriverError('fish driver: %d of %d queries answered' % (len(out), n))
    i = 0
    result = []
    for job in jobs:
        r = []
        for line in job['queries']:
            o = out[i]
            o['full'] = list(o['raw'])
            r.append(o)
            i += 1
        result.append(r)
    return result


# ---------------------------------------------------------------------------- zsh

ZSH_INIT = r'''
PROMPT=''; PS2=''; RPROMPT=''
unsetopt beep
unset zle_bracketed_paste
autoload -Uz compinit; compinit -u -D
zstyle ':completion:*' use-cache no
zmodload zsh/complete zsh/computil zsh/zle
compadd() {
  if [[ ${@[1,(i)(-|--)]} == *-(O|A|D)\ * ]]; then builtin compadd "$@"; return $?; fi
  typeset -a __hits; local __x
  builtin compadd -A __hits "$@"
  for __x in "${__hits[@]}"; do print -r -- "H$IPREFIX"$'\x1f'"$__x"$'\x1f'"${(pj:\x1f:)@[1,20]}" >&$OFD; done
  builtin compadd "$@"
}
__cc_complete() { _main_complete; compstate[insert]=''; compstate[list]=''; }
zle -C __cc_widget complete-word __cc_complete
__cc_run() {
  local i
  for (( i=1; i <= $#QUERIES; i++ )); do
    print -r -- "Q$i" >&$OFD
    BUFFER="${QUERIES[i]}"; CURSOR=$#BUFFER
    zle __cc_widget
  done
  BUFFER=''
  print -r -- "END" >&$OFD
}
zle -N __cc_run
bindkey '^G' __cc_run
'''


class _Zsh:
    def __init__(self, workdir, cwd=None):
        self.workdir = workdir
        self.out = workdir + '/zout'
        open(self.out, 'w').close()
        with open(workdir + '/init.zsh', 'w') as fh:
            fh.write(ZSH_INIT)
        env = base_env(workdir)
        env['ZDOTDIR'] = workdir
        self.pid, self.fd = pty.fork()
        if self.pid == 0:
            try:
                os.chdir(cwd or workdir)
                os.execvpe('zsh', ['zsh', '-f', '-i'], env)
            finally:
                os._exit(127)
        fcntl.ioctl(self.fd, termios.TIOCSWINSZ, struct.pack('HHHH', 50, 200, 0, 0))
        self.buf = b''
        self.pos = 0
        self.send('exec {OFD}>>%s; source %s/init.zsh; print READ""Y\n' % (self.out, workdir))
        self.expect(b'READY', 60)

    def send(self, s):
        os.write(self.fd, s.encode())

    def pump(self, t):
        r, _, _ = select.select([self.fd], [], [], t)
        if r:
            try:
                d = os.read(self.fd, 65536)
            except OSError:
                d = b''
            if not d:
                raise DriverError('zsh ended')
            self.buf += d

    def expect(self, what, timeout):
        end = time.time() + timeout
        while what not in self.buf:
            if time.time() > end:
                raise DriverError('zsh: no answer: %r' % self.buf[-500:])
            self.pump(0.2)

    def tail(self):
        with open(self.out, errors='surrogateescape') as fh:
            fh.seek(self.pos)
            return fh.read()

    def job(self, job, nr):
        qf = self.workdir + '/job.zsh'
        with open(qf, 'w') as fh:
            fh.write('source %s\n' % sq(job['script']))
            if job.get('pre'):
                fh.write(job['pre'] + '\n')
            fh.write('typeset -ga QUERIES; QUERIES=(%s)\n' % ' '.join(sq(x) for x in job['queries']))
        with open(self.out, errors='surrogateescape') as fh:
            fh.seek(0, 2)
            self.pos = fh.tell()
        self.buf = b''
        self.send('source %s; print RDY""%d.\n' % (qf, nr))
        self.expect(b'RDY%d.' % nr, 60)
        self.send('\x07')
        end = time.time() + 30 + 0.5 * len(job['queries'])
        last = 0
        while True:
            self.pump(0.02)
            size = os.path.getsize(self.out)
            if size != last:
                last = size
                with open(self.out, 'rb') as fh:
                    fh.seek(max(0, size - 5))
                    if fh.read().endswith(b'END\n'):
                        break
            elif time.time() > end:
                raise DriverError('zsh: time limit in %s' % job['script'])
        res = self.tail()
        out = []
        for l in res.split('\n'):
            if l.startswith('Q'):
                out.append({'raw': [], 'opts': '', 'full': [], 'suf': [], 'groups': [], 'order': []})
            elif l.startswith('H') and out:
                f = l[1:].split(US)
                ipre, hit, argv = f[0], f[1], f[2:]
                P = p = s = S = ''
                grp = order = ''
                j = 0
                while j < len(argv):
                    a = argv[j]
                    if a in ('-', '--') or not a.startswith('-'):
                        break
                    m = re.match(r'-([akqQUlenfo12C]*)([PSpsiIWdJVXxrRMFEoOAD])(.*)$', a, re.S)
                    if m:
                        val = m.group(3)
                        if not val:
                            j += 1
                            val = argv[j] if j < len(argv) else ''
                        key = m.group(2)
                        if key == 'P': P = val
                        elif key == 'p': p = val
                        elif key == 's': s = val
                        elif key == 'S': S = val
                        elif key in 'JV': grp = key + val
                        elif key == 'o': order = val
                    j += 1
                out[-1]['raw'].append(hit)
                out[-1]['full'].append(ipre + P + p + hit + s)
                out[-1]['suf'].append(S)
                out[-1]['groups'].append(grp)
                out[-1]['order'].append(order)
        if len(out) != len(job['queries']):
            raise DriverError('zsh: %d of %d' % (len(out), len(job['queries'])))
        return out

    def close(self):
        try:
            os.kill(self.pid, signal.SIGKILL)
        except OSError:
            pass
        try:
            os.close(self.fd)
        except OSError:
            pass
        try:
            os.waitpid(self.pid, 0)
        except OSError:
            pass


def run_zsh(jobs, workdir, timeout=600):
    result = []
    z = None
    try:
        for nr, job in enumerate(jobs):
            for attempt in (1, 2, 3):
                try:
                    if z is None:
                        z = _Zsh(workdir, job.get('cwd'))
                    result.append(z.job(job, nr))
                    break
                except DriverError:
                    if z:
                        z.close()
                    z = None
                    if attempt == 3:
                        raise
    finally:
        if z:
            z.close()
    return result


RUN = {'bash': run_bash, 'fish': run_fish, 'zsh': run_zsh}
