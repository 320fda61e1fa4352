"""Building harnesses from /repo's current working tree into a scratch directory."""
import os, subprocess, tempfile, atexit, shutil

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
INC = ['-I' + REPO + '/include', '-I' + REPO + '/sljit/sljit_src', '-I' + REPO]


def scratch(prefix='vf'):
    d = tempfile.mkdtemp(prefix=prefix + '-', dir=os.environ.get('VERIF_TMP', '/tmp'))
    if not os.environ.get('VERIF_KEEP'):
        atexit.register(shutil.rmtree, d, ignore_errors=True)
    return d


class BuildError(Exception):
    pass


def compile(out, srcs, flags=(), libs=(), cc='gcc'):
    cmd = [cc, '-g', '-O1', '-w'] + list(flags) + INC + list(srcs) + ['-o', out] + list(libs)
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd), p.stdout[-3000:]))
    return out


def wrun(d, flags=(), name='wrun'):
    return compile(os.path.join(d, name), [REPO + '/pwart/pwart.c', REPO + '/sljit/sljit_src/sljitLir.c', VERIF + '/harness/wrun.c'],
                   ['-include', VERIF + '/harness/sljit_refuse.h'] + list(flags), ['-lm', '-lpthread', '-ldl'])
