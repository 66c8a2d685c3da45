"""Native builds of the real code (debug build, same defines as the project) for replay of counterexamples."""
import os, subprocess, glob, concurrent.futures, tempfile, shutil, hashlib
from .build import REPO, BuildError

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FLAGS = ['-std=gnu++17', '-g0', '-O0', '-w', '-fno-access-control', '-include', 'cstring', '-D__error_t_defined=1',
         '-I', REPO + '/source', '-I', REPO + '/source/lib_common']


class Native:
    """one executable from /repo's libraries plus a harness; removed by close()"""

    def __init__(self, harness, libs=('lib_common', 'lib_vm'), flags=()):
        self.d = tempfile.mkdtemp(prefix='nvn.')
        srcs = []
        for l in libs: srcs += sorted(glob.glob('%s/source/%s/*.cpp' % (REPO, l)))
        srcs.append('%s/native/%s' % (HERE, harness))

        def cc(s):
            o = '%s/%s.o' % (self.d, s.replace('/', '_'))
            p = subprocess.run(['g++', *FLAGS, *flags, '-c', s, '-o', o], capture_output=True, text=True)
            if p.returncode: raise BuildError('%s: %s' % (s, p.stderr[:1500]))
            return o
        try:
            with concurrent.futures.ThreadPoolExecutor(8) as ex: objs = list(ex.map(cc, srcs))
            self.exe = self.d + '/probe'
            p = subprocess.run(['g++', *flags, *objs, '-o', self.exe], capture_output=True, text=True)
            if p.returncode: raise BuildError(p.stderr[:1500])
        except BuildError:
            self.close()
            raise

    def run(self, text, timeout=300, args=()):
        p = subprocess.run([self.exe, *args], input=text, capture_output=True, text=True, timeout=timeout, cwd=self.d, errors='replace')
        return p.stdout

    def close(self): shutil.rmtree(self.d, ignore_errors=True)
