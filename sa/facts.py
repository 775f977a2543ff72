"""Bootstrap, extraction and caching of program facts.

The extractor (tool/extract.cpp, a libTooling program) dumps the resolved
program of the repository's translation units.  Facts are cached under
/verif/build keyed by a content hash of the repository's sources, so every
run inspects the current working tree.
"""
import glob
import hashlib
import json
import os
import pickle
import re
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SCRAM_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
TOOL_SRC = os.path.join(VERIF, 'tool', 'extract.cpp')


class Broken(Exception):
    """The analysis itself cannot be carried out (not a violation)."""


def _sha(paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode())
        h.update(b'\0')
        with open(p, 'rb') as f:
            h.update(f.read())
        h.update(b'\0')
    return h.hexdigest()[:20]


def _run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                          text=True, **kw)


def build_tool():
    os.makedirs(BUILD, exist_ok=True)
    exe = os.path.join(BUILD, 'extract-' + _sha([TOOL_SRC]))
    if os.path.exists(exe):
        return exe
    flags = _run(['llvm-config-18', '--cxxflags']).stdout.split()
    flags = [f for f in flags if not re.match(r'-std=|-O\d|-fno-exceptions', f)]
    obj = tempfile.mktemp(suffix='.o', dir=BUILD)
    tmp = tempfile.mktemp(suffix='.exe', dir=BUILD)
    r = _run(['clang++-18', '-c', '-O1', '-std=c++17', '-fno-rtti', '-w'] +
             flags + [TOOL_SRC, '-o', obj])
    if r.returncode:
        raise Broken('extractor does not compile: ' + r.stderr[-2000:])
    r = _run(['clang++-18', obj, '-o', tmp,
              '/usr/lib/x86_64-linux-gnu/libclang-cpp.so.18',
              '-L/usr/lib/llvm-18/lib', '-lLLVM-18',
              '-Wl,-rpath,/usr/lib/llvm-18/lib'])
    os.unlink(obj)
    if r.returncode:
        raise Broken('extractor does not link: ' + r.stderr[-2000:])
    os.rename(tmp, exe)
    return exe


def core_sources():
    out = sorted(glob.glob(REPO + '/src/**/*.cc', recursive=True))
    if len(out) < 30:
        raise Broken('source tree of the core library not found')
    return out


def gui_sources():
    return sorted(glob.glob(REPO + '/gui/*.cpp'))


def all_inputs():
    pats = ['/src/**/*.cc', '/src/**/*.h', '/src/**/*.in', '/gui/*.cpp',
            '/gui/*.h', '/gui/*.ui', '/share/*.rng', '/CMakeLists.txt',
            '/src/CMakeLists.txt']
    out = []
    for p in pats:
        out += glob.glob(REPO + p, recursive=True)
    return sorted(set(out))


def _gen(kind):
    """Generated headers, in a directory keyed by the tree's content."""
    d = os.path.join(BUILD, 'gen-' + _sha(
        [p for p in all_inputs() if p.endswith(('.in', '.ui', 'CMakeLists.txt'))]))
    if not os.path.exists(d + '/.done'):
        os.makedirs(d, exist_ok=True)
        cm = open(REPO + '/CMakeLists.txt').read()

        def ver(n):
            m = re.search(r'set\(SCRAM_VERSION_%s\s+"?(\d+)"?\)' % n, cm)
            return m.group(1) if m else '0'
        v = {'MAJOR': ver('MAJOR'), 'MINOR': ver('MINOR'), 'PATCH': ver('PATCH')}
        text = open(REPO + '/src/version.h.in').read()
        for k, x in v.items():
            text = text.replace('@SCRAM_VERSION_%s@' % k, x)
        text = text.replace('@SCRAM_VERSION@', '.'.join(
            [v['MAJOR'], v['MINOR'], v['PATCH']]))
        text = re.sub(r'@\w+@', '', text)
        with open(d + '/version.h', 'w') as f:
            f.write(text)
        os.makedirs(d + '/src', exist_ok=True)
        with open(d + '/src/version.h', 'w') as f:
            f.write(text)
        open(d + '/.done', 'w').close()
    if kind == 'gui' and not os.path.exists(d + '/.ui'):
        for ui in glob.glob(REPO + '/gui/*.ui'):
            name = os.path.basename(ui)[:-3]
            r = _run(['uic', ui, '-o', d + '/ui_%s.h' % name])
            if r.returncode:
                raise Broken('uic failed on ' + ui + r.stderr[-500:])
        open(d + '/.ui', 'w').close()
    return d


def flags(kind):
    g = _gen(kind)
    fl = ['-std=c++17', '-w', '-fPIC', '-resource-dir',
          '/usr/lib/llvm-18/lib/clang/18',
          '-DPROJECT_SOURCE_DIR="%s"' % REPO,
          '-I' + g, '-I' + REPO + '/src', '-I' + REPO, '-isystem',
          '/usr/include/libxml2', '-include', 'boost/current_function.hpp',
          '-DBOOST_THROW_EXCEPTION_CURRENT_FUNCTION=BOOST_CURRENT_FUNCTION']
    if kind == 'gui':
        q = '/usr/include/x86_64-linux-gnu/qt5'
        fl += ['-I' + REPO + '/gui', '-isystem', q]
        for m in ('QtCore', 'QtGui', 'QtWidgets', 'QtSvg', 'QtOpenGL',
                  'QtPrintSupport', 'QtConcurrent'):
            fl += ['-isystem', q + '/' + m]
        fl += ['-isystem', '/usr/lib/x86_64-linux-gnu/qt5/mkspecs/linux-g++',
               '-DQT_CORE_LIB', '-DQT_GUI_LIB', '-DQT_WIDGETS_LIB',
               '-DQT_NO_KEYWORDS' if False else '-DQT_SVG_LIB']
    return fl


def _merge(parts):
    out = {'functions': [], 'classes': [], 'enums': [], 'vars': [], 'tus': []}
    seen = {k: set() for k in out}
    for part in parts:
        for k in out:
            for x in part[k]:
                key = (x.get('usr'), x.get('file'), x.get('line')) \
                    if k != 'tus' else x['file']
                if k == 'functions':
                    key = (x.get('usr'), x.get('file'), x.get('line'),
                           tuple(x.get('targs') or ()) if isinstance(
                               x.get('targs'), list) else x.get('targs'))
                if key in seen[k]:
                    continue
                seen[k].add(key)
                out[k].append(x)
    return out


# Rough relative parse costs keep the parallel chunks balanced.
def _extract_one(args):
    exe, src, kind, fl, out = args
    r = _run([exe, out, REPO + '/', src, '--'] + fl)
    return src, r.returncode, r.stderr[-1500:]


def extract(files, kind='core'):
    """Returns {file: facts path}; runs what is missing in parallel."""
    exe = build_tool()
    fl = flags(kind)
    key = hashlib.sha256()
    key.update(_sha(all_inputs()).encode())
    key.update(_sha([TOOL_SRC]).encode())
    key.update('\0'.join(fl).encode())
    d = os.path.join(BUILD, 'facts-' + key.hexdigest()[:20])
    os.makedirs(d, exist_ok=True)
    jobs, res = [], {}
    for f in files:
        out = os.path.join(d, f.replace('/', '_') + '.json')
        res[f] = out
        if not os.path.exists(out):
            jobs.append((exe, f, kind, fl, out))
    if jobs:
        from concurrent.futures import ThreadPoolExecutor
        jobs.sort(key=lambda j: -os.path.getsize(j[1]))
        tmpjobs = [(a, b, c, e, '%s.%d.tmp' % (o, os.getpid())) for a, b, c, e, o in jobs]
        with ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
            for (src, rc, err), job in zip(ex.map(_extract_one, tmpjobs), jobs):
                if rc != 0:
                    raise Broken('extraction of %s failed (rc %s): %s' %
                                 (src, rc, err))
                os.rename('%s.%d.tmp' % (job[4], os.getpid()), job[4])
    return res


def load(files, kind='core'):
    paths = extract(files, kind)
    parts = []
    for f in files:
        with open(paths[f]) as fh:
            part = json.load(fh)
        for tu in part['tus']:
            if tu['errors']:
                raise Broken('%s does not parse (%s errors)' %
                             (tu['file'], tu['errors']))
        parts.append(part)
    return _merge(parts)


if __name__ == '__main__':
    t = time.time()
    extract(core_sources())
    print('core', time.time() - t)
    t = time.time()
    extract(gui_sources(), 'gui')
    print('gui', time.time() - t)
