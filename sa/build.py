"""Compile every translation unit of /repo (as its own build lists them) plus the driver to LLVM IR.

Flags come from the project's CMake configuration (compile_commands.json); optimisation passes are disabled so that
the IR is the source program, then locals are promoted to SSA form (sroa) without any other transformation."""
import json, os, re, shlex, shutil, subprocess, sys, tempfile, hashlib
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')


class BuildError(Exception):
    pass


def _tree_hash(extra):
    h = hashlib.sha256()
    for root in (os.path.join(REPO, 'src'), os.path.join(HERE, 'driver'), os.path.join(REPO, 'CMakeLists.txt')):
        if os.path.isfile(root):
            h.update(open(root, 'rb').read())
            continue
        for d, ds, fs in sorted(os.walk(root)):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode()); h.update(open(p, 'rb').read())
    h.update(repr(extra).encode())
    return h.hexdigest()[:24]


def tool(name):
    for n in (name, name + '-18', '/usr/lib/llvm-18/bin/' + name):
        p = shutil.which(n)
        if p:
            return p
    raise BuildError('missing tool ' + name)


def build(ndebug=True, cache=None):
    """Return (path to bitcode, list of units). The bitcode lives in a temporary or cache directory."""
    extra = ('v1', ndebug)
    key = _tree_hash(extra)
    cache = cache or os.environ.get('VERIF_CACHE') or os.path.join(HERE, '.cache')
    os.makedirs(cache, exist_ok=True)
    out = os.path.join(cache, key + '.bc')
    meta = os.path.join(cache, key + '.json')
    if os.path.exists(out) and os.path.exists(meta):
        return out, json.load(open(meta))
    tmp = tempfile.mkdtemp(prefix='vsa.')
    try:
        r = subprocess.run(['cmake', '-S', REPO, '-B', tmp + '/b', '-DCMAKE_BUILD_TYPE=RelWithDebInfo', '-DBUILD_TESTS=OFF',
                            '-DCMAKE_EXPORT_COMPILE_COMMANDS=ON'] + (['-G', 'Ninja'] if shutil.which('ninja') else []),
                           capture_output=True, text=True)
        cc = tmp + '/b/compile_commands.json'
        if r.returncode or not os.path.exists(cc):
            raise BuildError('cmake configuration failed:\n' + r.stdout[-2000:] + r.stderr[-2000:])
        jobs, units, flags0 = [], [], None
        for e in json.load(open(cc)):
            f = os.path.realpath(os.path.join(e['directory'], e['file']))
            if not f.startswith(os.path.realpath(os.path.join(REPO, 'src')) + os.sep) or f in units:
                continue
            a = shlex.split(e['command']) if 'command' in e else e['arguments']
            keep, i = [], 1
            while i < len(a):
                x = a[i]
                if x in ('-I', '-isystem', '-D', '-U', '-include'):
                    keep += [x, a[i + 1]]; i += 2; continue
                if x.startswith(('-I', '-D', '-U', '-std=', '-isystem', '-f')) and x != '-DNDEBUG':
                    keep.append(x)
                i += 1
            if not any(k.startswith('-std=') for k in keep):
                keep.append('-std=gnu++17')
            flags0 = flags0 or keep
            units.append(f)
            jobs.append((f, keep))
        if not jobs:
            raise BuildError('no translation unit found')
        inc = ['-I' + os.path.join(REPO, 'src'), '-I' + os.path.join(REPO, 'src', 'expr')]
        jobs.append((os.path.join(HERE, 'driver', 'driver.cc'), flags0 + inc))
        clang = tool('clang++')
        driver = jobs[-1][0]
        dropped = []

        def without(cmd, f, err):
            """compile the driver without the entry points that the tree does not provide in the expected form"""
            lines = open(f).read().split('\n')
            src = tmp + '/driver.cc'
            for _ in range(8):
                bad = set()
                for m in re.finditer(r'driver\.cc:(\d+):\d+: (?:error|fatal error|note: (?:in instantiation|expanded from|while))', err):
                    bad.add(int(m.group(1)) - 1)
                if not bad:
                    break
                for b in bad:
                    i = b
                    while i > 0 and not re.match(r'EXPORT|#|[A-Z]+\(|template|static', lines[i]):
                        i -= 1
                    j = i
                    if lines[i].startswith('#define'):
                        continue           # (the use is dropped)
                    while j < b or lines[i].startswith('EXPORT') and lines[j] and not lines[j].rstrip().endswith('}'):
                        j += 1
                    for k in range(i, j + 1):
                        if lines[k]:
                            dropped.append(lines[k].strip())
                        lines[k] = ''
                open(src, 'w').write('\n'.join(lines))
                r = subprocess.run([src if x == f else x for x in cmd], capture_output=True, text=True)
                if not r.returncode:
                    break
                err = r.stderr
            return r

        def one(j):
            i, (f, keep) = j
            o = '%s/%d.bc' % (tmp, i)
            cmd = [clang, '-O1', '-Xclang', '-disable-llvm-passes', '-g', '-w', '-emit-llvm', '-c'] + keep + \
                  (['-DNDEBUG'] if ndebug else []) + [f, '-o', o]
            r = subprocess.run(cmd, capture_output=True, text=True)
            if r.returncode and f == driver:
                r = without(cmd, f, r.stderr)
            if r.returncode:
                raise BuildError('compiling %s failed:\n%s' % (f, r.stderr[-3000:]))
            return o
        with ThreadPoolExecutor(8) as ex:
            objs = list(ex.map(one, enumerate(jobs)))
        r = subprocess.run([tool('llvm-link')] + objs + ['-o', tmp + '/all.bc'], capture_output=True, text=True)
        if r.returncode:
            raise BuildError('llvm-link failed: ' + r.stderr[-2000:])
        r = subprocess.run([tool('opt'), '-passes=function(sroa)', tmp + '/all.bc', '-o', tmp + '/m.bc'], capture_output=True, text=True)
        if r.returncode:
            raise BuildError('opt failed: ' + r.stderr[-2000:])
        m = {'units': units, 'flags': flags0, 'ndebug': ndebug, 'dropped': dropped}
        json.dump(m, open(tmp + '/m.json', 'w'))
        t = '%s.%d' % (out, os.getpid())
        shutil.copy(tmp + '/m.json', meta)
        shutil.copy(tmp + '/m.bc', t); os.replace(t, out)
        return out, m
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
    print(build())
