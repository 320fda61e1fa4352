"""setup_cmd: the tools are there, the specifications parse, the harness builds"""
import os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import build
for t in ('gcc', 'java'):
    subprocess.check_call([t, '--version'], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
spec = os.path.join(build.VERIF, 'spec')
for f in sorted(os.listdir(spec)):
    if f.endswith('.tla'):
        r = subprocess.run(['java', '-cp', '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar', 'tla2sany.SANY', f],
                           cwd=spec, capture_output=True, text=True)
        if r.returncode:
            print(r.stdout[-2000:])
            sys.exit(1)
build.wrun(build.scratch('vf-setup'))
print('ready')
