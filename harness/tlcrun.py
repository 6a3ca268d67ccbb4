"""Running TLC."""
import json, os, re, shutil, subprocess, tempfile

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class Machinery(Exception):
    pass


def ncpu():
    return max(1, min(8, os.cpu_count() or 1))


def tlc(module, cfg, scratch, env=None, workers=None, heap='6g', timeout=800, extra=()):
    cfgf = os.path.join(scratch, module + '.cfg')
    with open(cfgf, 'w') as f:
        f.write(cfg)
    meta = tempfile.mkdtemp(dir=scratch)
    cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss64m', '-Djava.io.tmpdir=' + scratch, '-cp', JARS, 'tlc2.TLC',
           '-config', cfgf, '-metadir', meta, '-noGenerateSpecTE', '-workers', str(workers or ncpu()), *extra, module + '.tla']
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=dict(os.environ, **(env or {})), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Machinery('TLC timed out on %s' % module)
    out = p.stdout
    r = {'out': out, 'rc': p.returncode}
    m = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct states found', out)
    r['generated'], r['distinct'] = (int(m[-1][0].replace(',', '')), int(m[-1][1].replace(',', ''))) if m else (0, 0)
    m = re.search(r'([\d,]+) distinct states? generated at', out)
    r['init'] = int(m.group(1).replace(',', '')) if m else 0
    m = re.search(r'depth of the complete state graph search is (\d+)', out)
    r['depth'] = int(m.group(1)) if m else 0
    shutil.rmtree(meta, ignore_errors=True)
    return r


def generate(module, cfg, timeout=600):
    """the records a generator module writes to IOEnv.OUT"""
    scratch = tempfile.mkdtemp(prefix='vgen-')
    try:
        out = os.path.join(scratch, 'out.ndjson')
        r = tlc(module, cfg, scratch, env={'OUT': out}, timeout=timeout)
        if 'No error has been found' not in r['out'] or not os.path.exists(out):
            raise Machinery('generator %s failed:\n%s' % (module, r['out'][-3000:]))
        with open(out) as f:
            return [json.loads(l) for l in f]
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
