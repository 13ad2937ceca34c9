"""python3 -m vf.replay <file>: rebuild a recorded failure against /repo and run it; exit 1 if it still fails"""
import json
import os
import shutil
import sys
import tempfile
from . import runner


def main():
    r = json.load(open(sys.argv[1]))

    class C(runner.Check):
        id = r['property']
        header = r['header']
        flags = r['flags']
        libs = r['libs']
        cxx = r['cxx']
    os.makedirs(os.path.join(runner.ROOT, '_build'), exist_ok=True)
    work = tempfile.mkdtemp(prefix='replay-', dir=os.path.join(runner.ROOT, '_build'))
    try:
        b = runner.Build(C(), work)
        err = b.prepare()
        if err:
            print("headers do not compile:", err)
            return 1
        exe, out = b.compile([(0, {'pre': r['pre'], 'body': r['body']})])
        if exe is None:
            print("does not compile:", out[-3000:])
            return 1
        import subprocess
        return subprocess.run([exe, 'replay', '--prog', '0', '--choices', ",".join(map(str, r['choices']))], env=dict(os.environ, **b.env)).returncode
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())
