"""Fact database: runs the extractor on translation units (content-addressed cache) and indexes the result."""
import hashlib
import json
import os
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SAI_REPO', '/repo')
EXTRACT = os.path.join(VERIF, '.build', 'extract')
CACHE = os.path.join(VERIF, '.cache')
PROTO_OUT = os.path.join(VERIF, '.cache', 'protos')
STUBS = os.path.join(VERIF, 'stubs')


class AnalysisBroken(Exception):
    """the machinery cannot give an answer (vanished anchor, parse failure...)."""


def _run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


def build_tool():
    r = _run(['bash', os.path.join(VERIF, 'tool', 'build.sh')])
    if r.returncode != 0:
        raise AnalysisBroken('extractor build failed: ' + r.stderr[-2000:])


def gen_protos():
    """generate C++ headers of the repository's .proto files into the cache (keyed by their content)."""
    protos = []
    for base, _, files in os.walk(os.path.join(REPO, 'src')):
        for f in files:
            if f.endswith('.proto'):
                protos.append(os.path.join(base, f))
    protos.sort()
    h = hashlib.sha256()
    for p in protos:
        h.update(p.encode())
        h.update(open(p, 'rb').read())
    out = PROTO_OUT + '-' + h.hexdigest()[:16]
    if os.path.isdir(out):
        return out
    tmp = out + f'.tmp{os.getpid()}'
    os.makedirs(tmp, exist_ok=True)
    rel = [os.path.relpath(p, os.path.join(REPO, 'src')) for p in protos]
    # protos that import unavailable files are skipped one by one
    for p in rel:
        _run(['protoc', '-I' + os.path.join(REPO, 'src'), '--cpp_out=' + tmp, p])
    try:
        os.rename(tmp, out)
    except OSError:
        pass
    return out


def base_args(stubs=False):
    a = ['-std=c++17', '-DBOOST_THREAD_VERSION=4', '-I' + REPO + '/include', '-I' + REPO + '/src',
         '-I' + gen_protos(), '-Wno-everything']
    if stubs:
        # what is there decides what an #include finds
        have = hashlib.sha256('\0'.join(sorted(os.path.join(r, f) for r, _, fs in os.walk(STUBS) for f in fs)).encode()).hexdigest()[:12]
        a += ['-isystem', STUBS, '-DSTUBS_' + have]
    return a


def file_hash(p):
    try:
        return hashlib.sha256(open(p, 'rb').read()).hexdigest()
    except OSError:
        return 'missing'


_tool_hash = None


def tool_hash():
    global _tool_hash
    if _tool_hash is None:
        _tool_hash = file_hash(os.path.join(VERIF, 'tool', 'extract.cpp'))[:16]
    return _tool_hash


def extract(tu, args, also=(), main_only=False):
    """facts of one TU, from the cache when none of its inputs changed."""
    os.makedirs(CACHE, exist_ok=True)
    key = hashlib.sha256(('\0'.join([tu, tool_hash(), str(main_only)] + list(args) + list(also))).encode()).hexdigest()[:24]
    idx = os.path.join(CACHE, key + '.idx')
    out = os.path.join(CACHE, key + '.json')
    hashes = {}

    def fh(p):
        if p not in hashes:
            hashes[p] = file_hash(p)
        return hashes[p]
    if os.path.exists(idx) and os.path.exists(out):
        try:
            deps = json.load(open(idx))
            if all(fh(p) == h for p, h in deps.items()):
                return json.load(open(out))
        except (ValueError, OSError):
            pass
    tmp = out + f'.tmp{os.getpid()}'
    cmd = [EXTRACT, '-o', tmp, '--root', REPO]
    for a in also:
        cmd += ['--also', a]
    if main_only:
        cmd += ['--main-only']
    cmd += [tu, '--'] + list(args)
    r = _run(cmd)
    if not os.path.exists(tmp):
        raise AnalysisBroken(f'extraction of {tu} failed: {r.stderr[-1500:]}')
    d = json.load(open(tmp))
    d['diag'] = r.stderr[:4000]
    if d['errors']:
        d['diag'] = '\n'.join(x for x in r.stderr.splitlines() if 'error:' in x)[:20000]
    deps = {p: fh(p) for p in d['deps'] if not p.startswith(CACHE)}
    deps[tu] = fh(tu)
    json.dump(d, open(tmp, 'w'))
    os.replace(tmp, out)
    tmpi = idx + f'.tmp{os.getpid()}'
    json.dump(deps, open(tmpi, 'w'))
    os.replace(tmpi, idx)
    return d


class DB:
    def __init__(self):
        self.fns = {}        # key -> fn
        self.byq = {}        # qualified name -> [fn]
        self.recs = {}       # type -> rec
        self.enums = {}
        self.globals = {}
        self.types = {}
        self.tus = []
        self.errors = {}
        self.derived = {}    # base type -> [types]

    def add(self, d, keep=None):
        self.tus.append(d['file'])
        if d['errors']:
            self.errors[d['file']] = d.get('diag', '')
        for k, v in d['types'].items():
            self.types.setdefault(k, v)
        for f in d['fns']:
            if keep and not keep(f):
                continue
            if f['key'] in self.fns:
                continue
            self.fns[f['key']] = f
            self.byq.setdefault(f['q'], []).append(f)
        for r in d['recs']:
            if r['t'] not in self.recs:
                self.recs[r['t']] = r
                for b in r['bases']:
                    self.derived.setdefault(b, []).append(r['t'])
        for e in d['enums']:
            self.enums.setdefault(e['q'], e)
        for g in d['globals']:
            self.globals.setdefault(g['qt'], g)
            self.globals.setdefault(g['q'], g)

    def rec_q(self, q):
        return [r for r in self.recs.values() if r['q'] == q]

    def find(self, q, pred=None, required=True):
        r = [f for f in self.byq.get(q, ()) if not f.get('dep') and (pred is None or pred(f))]
        if not r and required:
            raise AnalysisBroken(f'anchor function {q} not found')
        return r

    def all_fields(self, t):
        """fields of a record including those of its repo bases: [(field, rec)]."""
        r = self.recs.get(t)
        out = []
        if not r:
            return out
        for b in r['bases']:
            out += self.all_fields(b)
        for f in r['fields']:
            out.append((f, r))
        return out


def load(tus, stubs=False, also=(), probe=None, allow_errors=False):
    """parse the given TUs (paths relative to the repo, or absolute) and return a DB."""
    build_tool()
    args = base_args(stubs)
    db = DB()
    paths = [t if t.startswith('/') else os.path.join(REPO, t) for t in tus]
    for p in paths:
        if not os.path.exists(p):
            raise AnalysisBroken(f'translation unit {p} is missing')
    al = list(also)
    al += [VERIF + '/probes/'] + ([STUBS + '/'] if stubs else [])
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda p: extract(p, args, al), paths))
    for d in res:
        if d['errors'] and not allow_errors:
            raise AnalysisBroken(f"{d['file']} does not parse: {d.get('diag','')[:600]}")
        db.add(d)
    return db
