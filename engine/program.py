"""Loading of the resolved program: runs astx over every translation unit the
build compiles (fresh, from /repo's working tree) and merges the dumps."""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('SPS_REPO', '/repo')

# Not compilable here: they need the patched librtmp of the empty submodule
# 3rdparty/rtmpdump (the same list the build itself leaves out).
EXCLUDED = {
    'src/avformat/sps_avformat_librtmp.cpp', 'src/avformat/sps_avformat_rtmpdec.cpp',
    'src/avformat/sps_avformat_rtmpenc.cpp', 'src/install/sps_install_avformat.cpp',
    'src/install/sps_install_url_protocols.cpp', 'src/io/url/sps_io_url_rtmp.cpp',
    'src/io/url/sps_io_url_rtmp_ffmpeg.cpp', 'src/module/rtmp/sps_rtmp_module.cpp',
    'src/module/rtmp/sps_rtmp_server.cpp', 'src/module/rtmp/sps_rtmp_server_handler.cpp',
    'src/module/rtmp/sps_rtmp_stream_handler.cpp'}


class AnalysisError(Exception):
    """the analysis could not be carried out (never a verdict)"""


def tool_path():
    src = os.path.join(VERIF, 'astx', 'astx.cpp')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    bdir = os.path.join(VERIF, 'build')
    os.makedirs(bdir, exist_ok=True)
    out = os.path.join(bdir, 'astx-' + h)
    if not os.path.exists(out):
        tmp = out + '.tmp%d' % os.getpid()
        r = subprocess.run(['bash', os.path.join(VERIF, 'astx', 'build.sh'), tmp],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode != 0:
            raise AnalysisError('cannot build astx:\n' + r.stdout.decode(errors='replace')[-3000:])
        os.rename(tmp, out)
    return out


def flags(repo, gen):
    f = ['-std=gnu++14', '-w', '-I' + gen]
    for d in ['src'] + sorted({os.path.relpath(os.path.dirname(p), repo)
                               for p in glob.glob(repo + '/src/**/*.hpp', recursive=True)} - {'src'}):
        f.append('-I' + os.path.join(repo, d))
    f += ['-isystem', '/opt/vp/compat', '-resource-dir', '/usr/lib/llvm-18/lib/clang/18']
    return f


def sources(repo):
    out = []
    for p in sorted(glob.glob(repo + '/src/**/*.cpp', recursive=True)):
        if os.path.relpath(p, repo) not in EXCLUDED:
            out.append(p)
    return out


class Program:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.funcs = {}      # usr -> function
        self.by_name = {}    # qualified name -> [functions]
        self.records = {}    # printed class name -> record
        self.globals = {}    # qualified name -> global
        self.enums = {}
        self.tus = []
        self.overriders = {}  # usr of method -> set of usr that override it directly
        self.pure = {}
        self.derived = {}
        self._load()

    def _load(self):
        tool = tool_path()
        tmp = tempfile.mkdtemp(prefix='sps-astx-')
        try:
            gen = os.path.join(tmp, 'gen')
            os.makedirs(gen)
            with open(os.path.join(gen, 'sps_auto_header.hpp'), 'w') as fh:
                fh.write('#ifndef SPS_AUTO_HEADER\n#define SPS_AUTO_HEADER\n#define GIT_VERSION "x"\n'
                         '#define GIT_BRANCH "x"\n#define SRT_ENABLED\n#define OPENSSL_ENABLED\n'
                         '#define FFMPEG_ENABLED\n#endif\n')
            fl = flags(self.repo, gen)
            srcs = sources(self.repo)
            if len(srcs) < 60:
                raise AnalysisError('only %d translation units found under %s/src' % (len(srcs), self.repo))

            def one(i):
                out = os.path.join(tmp, '%d.json' % i)
                r = subprocess.run([tool, self.repo + '/src', out, srcs[i], '--'] + fl,
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                if r.returncode != 0 or not os.path.exists(out):
                    raise AnalysisError('cannot parse %s:\n%s' % (srcs[i], r.stdout.decode(errors='replace')[-2000:]))
                return json.load(open(out))
            with cf.ThreadPoolExecutor(8) as ex:
                for i, d in enumerate(ex.map(one, range(len(srcs)))):
                    self._merge(i, d)
        finally:
            subprocess.run(['rm', '-rf', tmp])
        for f in self.funcs.values():
            self.by_name.setdefault(f['f'], []).append(f)
            for o in f.get('over', []):
                self.overriders.setdefault(o, set()).add(f['u'])
        for r in self.records.values():
            for m in r['methods']:
                if m.get('pure'):
                    self.pure[m['u']] = True
                for o in m.get('over', []):
                    self.overriders.setdefault(o, set()).add(m['u'])
            for b in r['bases']:
                self.derived.setdefault(b[2:], set()).add(r['name'])

    def _merge(self, i, d):
        self.tus.append(d['tu'])
        for f in d['funcs']:
            if f['u'] not in self.funcs:
                f['file'] = os.path.relpath(f['file'], self.repo)
                f['_tu'] = i
                self.funcs[f['u']] = f
        for r in d['records']:
            self.records.setdefault(r['name'], r)
        for g in d['globals']:
            self.globals.setdefault(g['g'], g)
        self.enums.update(d['enums'])

    # ---------------------------------------------------------------- queries
    def fn(self, name, nparams=None):
        """the one function definition of that qualified name"""
        c = self.by_name.get(name, [])
        if nparams is not None:
            c = [f for f in c if len(f['params']) == nparams]
        if len(c) != 1:
            raise AnalysisError('anchor %s (%s params): %d definitions' % (name, nparams, len(c)))
        return c[0]

    def fns(self, name):
        c = self.by_name.get(name, [])
        if not c:
            raise AnalysisError('anchor %s has no definition' % name)
        return c

    def impls(self, usr):
        """definitions a virtual call to method usr can reach"""
        seen, work, out = set(), [usr], []
        while work:
            u = work.pop()
            if u in seen:
                continue
            seen.add(u)
            if u in self.funcs:
                out.append(self.funcs[u])
            work += list(self.overriders.get(u, ()))
        return sorted(out, key=lambda f: (f['file'], f['l']))

    def bases(self, cls):
        out, work = [], [cls]
        while work:
            c = work.pop()
            if c in out:
                continue
            out.append(c)
            r = self.records.get(c)
            if r:
                work += [b[2:] for b in r['bases']]
        return out

    def all_derived(self, cls):
        out, work = set(), [cls]
        while work:
            c = work.pop()
            for d in self.derived.get(c, ()):
                if d not in out:
                    out.add(d)
                    work.append(d)
        return out

    def method_in(self, cls, usr):
        """definition that a virtual call to usr dispatches to on dynamic class cls"""
        cand = {f['u']: f for f in self.impls(usr)}
        for c in self.bases(cls):
            for f in cand.values():
                if f.get('cls') == c:
                    return f
        return None

    def dtor(self, cls):
        for f in self.funcs.values():
            if f.get('isdtor') and f.get('cls') == cls:
                return f
        return None

    def ctors(self, cls, n=None):
        return [f for f in self.funcs.values() if f.get('isctor') and f.get('cls') == cls
                and (n is None or len(f['params']) == n)]


def walk(node):
    """all dict nodes of a dumped tree, preorder"""
    if isinstance(node, dict):
        yield node
        for v in node.values():
            if isinstance(v, (dict, list)):
                yield from walk(v)
    elif isinstance(node, list):
        for v in node:
            yield from walk(v)
