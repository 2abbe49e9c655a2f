"""build_demo.py EQUATION demo.cc OUT: compiles demo.cc as a source file of that equation module and links it."""
import json
import os
import re
import shlex
import subprocess
import sys

eq, src, out = sys.argv[1:4]
build = '/repo/_build'
cmds = json.load(open(build + '/compile_commands.json'))
cmd = next(c for c in cmds if c['file'].endswith('/source/%s/riemann_solver.cc' % eq))
args = shlex.split(cmd['command'])
keep = []
i = 1
while i < len(args):
    a = args[i]
    if a in ('-o', '-MF', '-MT', '-isystem', '-I', '-c'):
        if a == '-isystem' or a == '-I':
            keep += args[i:i + 2]
        i += 2
        continue
    if a not in ('-MD',) and not re.match(r'-O|-g|-funroll|-W', a):
        keep.append(a)
    i += 1
link = subprocess.run(['ninja', '-C', build, '-t', 'commands', 'euler.riemann_solver.release'], stdout=subprocess.PIPE, text=True).stdout
libs = []
if not link.strip():
    link = subprocess.run(['ninja', '-C', build, '-t', 'commands', 'compile_test_executables'], stdout=subprocess.PIPE, text=True).stdout
for line in link.splitlines():
    if re.search(r'-o tests/euler/riemann_solver\.release/', line):
        libs = [a for a in line.split() if re.match(r'-l|-Wl,-rpath|/\S*\.so[.0-9]*$|/\S*\.a$', a)]
if not libs:
    sys.exit('no link line found')
extra = [os.path.join(d, f) for d, _, fs in os.walk(build + '/source') for f in fs if f.endswith('.o') and f != 'main.cc.o']
r = subprocess.run(['g++'] + keep + ['-w', '-O1', src, '-o', out] + extra + libs, cwd=build)
sys.exit(r.returncode)
