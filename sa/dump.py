"""Build the MIR extractor and dump the resolved program of /repo's current working tree."""
import os, subprocess, hashlib, glob, shutil, json, fcntl, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
CACHE = os.environ.get('KAMI_SA_CACHE') or os.path.join(VERIF, '.cache')
class DumpError(Exception): pass
def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    return p.returncode, p.stdout
def driver():
    src = os.path.join(VERIF, 'driver', 'main.rs')
    rc, ver = run(['rustc', '+nightly', '-vV'])
    if rc: raise DumpError('no nightly rustc: ' + ver)
    h = hashlib.sha256(open(src, 'rb').read() + ver.encode()).hexdigest()[:16]
    out = os.path.join(CACHE, 'kami-mir-' + h)
    if not os.path.exists(out):
        tmp = out + '.%d' % os.getpid()
        rc, log = run(['rustc', '+nightly', '-O', '--edition', '2021', src, '-o', tmp])
        if rc: raise DumpError('extractor does not build:\n' + log)
        os.rename(tmp, out)
    return out
def dump(repo='/repo'):
    """Analyse the library crate of `repo`; returns the program as parsed JSON."""
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        drv = driver()
        tgt = os.path.join(CACHE, 'target')
        for d in glob.glob(os.path.join(tgt, 'debug', '.fingerprint', 'kami-*')) + glob.glob(os.path.join(tgt, 'debug', 'build', 'kami')) + glob.glob(os.path.join(tgt, 'debug', 'incremental')):
            shutil.rmtree(d, ignore_errors=True)     # cargo must not skip the extractor on a warm target directory
        rc, root = run(['rustc', '+nightly', '--print', 'sysroot'])
        fd, out = tempfile.mkstemp(dir=CACHE, suffix='.json'); os.close(fd)
        env = dict(os.environ)
        for k in ('RUSTFLAGS', 'RUSTC_WRAPPER', 'CARGO_ENCODED_RUSTFLAGS'): env.pop(k, None)
        env.update(LD_LIBRARY_PATH=root.strip() + '/lib', KAMI_SA_OUT=out, RUSTC_WORKSPACE_WRAPPER=drv, CARGO_TARGET_DIR=tgt, CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='0')
        try:
            rc, log = run(['cargo', '+nightly', 'check', '--offline', '--lib'], cwd=repo, env=env)
            if rc: raise DumpError('crate does not type-check:\n' + log[-3000:])
            if os.path.getsize(out) == 0:     # unknown target layout: start from scratch
                shutil.rmtree(tgt, ignore_errors=True)
                rc, log = run(['cargo', '+nightly', 'check', '--offline', '--lib'], cwd=repo, env=env)
            if rc or os.path.getsize(out) == 0: raise DumpError('extractor produced nothing:\n' + log[-2000:])
            d = json.load(open(out))
        finally:
            os.unlink(out)
        return d
if __name__ == '__main__':
    import sys
    d = dump()
    print('%d functions, %d types' % (len(d['fns']), len(d['types'])))
    if len(sys.argv) > 1: json.dump(d, open(sys.argv[1], 'w'))
