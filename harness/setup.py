"""Nothing has to be built: check that the tools are there and that the specifications parse."""
import glob, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/harness')
import core
os.makedirs(V + '/evidence', exist_ok=True)
bad = 0
for f in sorted(glob.glob(V + '/spec/*.tla')):
    p = subprocess.run(['java', '-cp', core.JARS, 'tla2sany.SANY', f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=V + '/spec')
    if p.returncode != 0:
        bad = 1
        print(f, p.stdout.decode()[-2000:])
for sh in ('bash', 'fish', 'zsh'):
    subprocess.run([sh, '--version'], check=True, stdout=subprocess.DEVNULL)
print('specifications parse' if not bad else 'specification error')
sys.exit(bad)
