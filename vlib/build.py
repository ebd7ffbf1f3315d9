"""Build the harness crate from /repo's current tree: LLVM IR for the symbolic engine and a
native replay binary.  Everything goes to /verif/.build (git-ignored)."""
import fcntl
import glob
import os
import re
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, '.build')
HARNESS = os.path.join(VERIF, 'harness')


class BuildError(Exception):
    pass


def _run(cmd, env=None, cwd=None):
    p = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise BuildError('%s\n%s' % (' '.join(cmd), p.stdout[-4000:]))
    return p.stdout


def env0():
    e = dict(os.environ)
    e['RUSTUP_TOOLCHAIN'] = 'stable'
    e['CARGO_NET_OFFLINE'] = 'true'
    e['RUST_BACKTRACE'] = '0'
    for k in list(e):
        if k.startswith('CARGO_') and k not in ('CARGO_HOME', 'CARGO_NET_OFFLINE'):
            del e[k]
    e.pop('RUSTFLAGS', None)
    e['RUSTC_BOOTSTRAP'] = '1'
    return e


def sysroot_bin():
    r = _run(['rustc', '--print', 'sysroot'], env0()).strip().splitlines()[-1]
    return glob.glob(os.path.join(r, 'lib/rustlib/*/bin'))[0]


HOOK = ['--cfg', 'crypto_pure_verif']


def _cargo(cmd, e, flags):
    """with the guarded hooks of the crate; without them if they do not compile"""
    for hook in (HOOK, []):
        e['CARGO_ENCODED_RUSTFLAGS'] = '\x1f'.join(flags + hook)
        e['VH_TABLE'] = _table(bool(hook))
        try:
            return _run(cmd, e)
        except BuildError:
            if not hook:
                raise


def _table(hooks):
    src = open(os.path.join(HARNESS, 'src/lib.rs')).read()
    names = re.findall(r'op!\((vh_\w+),', src)
    for m in re.finditer(r'^(hash_ops|hmac_ops|hmac_fn|aes_op|aead_ops|aead_two|aead_raw|aead_draw)!\(([^;]*)\);', src, re.M):
        ns = re.findall(r'vh_\w+', m.group(2))
        names += ns
    names = [n for n in names if hooks or not n.startswith('vh_i_')]
    os.makedirs(BUILD, exist_ok=True)
    p = os.path.join(BUILD, 'table.rs' if hooks else 'table0.rs')
    txt = 'static TABLE: &[(&str, Op)] = &[\n' + ''.join('    ("%s", vharness::%s),\n' % (n, n) for n in names) + '];\n'
    if not os.path.exists(p) or open(p).read() != txt:
        open(p, 'w').write(txt)
    return p


class lock:
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, '.lock'), 'w')
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


FLAGS = ['-C', 'codegen-units=1', '-C', 'debuginfo=0', '-C', 'panic=abort',
         '-Zshare-generics=no', '-Zinline-mir=no', '-C', 'debug-assertions=off', '-C', 'embed-bitcode=no',
         '-C', 'incremental=' ]


def build_ir(kind='chk'):
    """kind: 'chk' (overflow checks on: what debug builds and `cargo test` run) or
    'rel' (overflow checks off: release semantics) or 'ct' (as 'rel', with every branch of the
    source left a branch).  Returns path of the linked, cleaned .ll"""
    with lock():
        tgt = os.path.join(BUILD, 'ir-' + kind)
        e = env0()
        e['CARGO_TARGET_DIR'] = tgt
        e['CARGO_INCREMENTAL'] = '0'
        fl = ['--emit=llvm-ir', '-C', 'opt-level=0', '-C', 'codegen-units=1', '-C', 'debuginfo=0',
              '-C', 'panic=abort', '-Zshare-generics=no', '-Zinline-mir=no',
              '-C', 'debug-assertions=off',
              '-C', 'overflow-checks=' + ('on' if kind == 'chk' else 'off')]
        for f in glob.glob(os.path.join(tgt, 'debug/deps/*.ll')):
            os.unlink(f)
        # force a rebuild of the crates under study from the current tree
        for pat in ('crypto-pure-*', 'vharness-*'):
            for d in glob.glob(os.path.join(tgt, 'debug/.fingerprint', pat)):
                shutil.rmtree(d)
        for d in glob.glob(os.path.join(tgt, 'debug/.fingerprint', 'byteorder-*')):
            shutil.rmtree(d)
        _cargo(['cargo', 'build', '--offline', '--lib', '--manifest-path', os.path.join(HARNESS, 'Cargo.toml')], e, fl)
        lls = glob.glob(os.path.join(tgt, 'debug/deps/*.ll'))
        b = sysroot_bin()
        raw = os.path.join(BUILD, kind + '.raw.ll')
        _run([os.path.join(b, 'llvm-link'), '-S', '-o', raw] + sorted(lls))
        pre = os.path.join(BUILD, kind + '.pre.ll')
        preprocess(raw, pre)
        out = os.path.join(BUILD, kind + '.ll')
        _run([os.path.join(b, 'opt'), '-S', '-passes=always-inline,function(sroa,early-cse,%sadce)' % ('' if kind == 'ct' else 'simplifycfg,'), '-o', out, pre])
        return out


def preprocess(src, dst):
    """Functions of `core` (slice/iterator plumbing) are marked always-inline; functions of the crate
    keep their boundaries."""
    txt = open(src).read()
    # attribute groups
    groups = dict(re.findall(r'^attributes (#\d+) = \{(.*)\}$', txt, re.M))
    out = []
    newg = {}
    nmax = max([int(k[1:]) for k in groups] or [0])

    def variant(g, inline):
        key = (g, inline)
        if key not in newg:
            nonlocal nmax
            nmax += 1
            a = groups.get(g, '') if g else ''
            a = re.sub(r'\b(noinline|inlinehint|alwaysinline|optnone|optsize|minsize|cold)\b', '', a)
            a += ' alwaysinline' if inline else ' noinline'
            newg[key] = ('#%d' % nmax, a)
        return newg[key][0]

    names = re.findall(r'^define [^\n]*?@"?([\w.$]+)"?\(', txt, re.M)
    dem = subprocess.run(['c++filt'], input='\n'.join(names), stdout=subprocess.PIPE, text=True).stdout.split('\n')
    dem = dict(zip(names, dem))
    for line in txt.split('\n'):
        if line.startswith('define '):
            name = re.search(r'@"?([\w.$]+)"?\(', line).group(1)
            d = dem.get(name, name)
            d0 = re.sub(r'^(<|&|mut |\*const |\*mut )*', '', d)
            inl = not (d0.startswith('crypto_pure') or d0.startswith('vharness') or name.startswith('vh_'))
            if '{closure' in d:
                inl = True
            g = re.search(r'\) (?:[^()]*?)(#\d+)', line)
            if g and line.rfind(')') < g.start(1):
                line = line[:g.start(1)] + variant(g.group(1), inl) + line[g.end(1):]
            else:
                i = line.rfind(')') + 1
                line = line[:i] + ' ' + variant(None, inl) + line[i:]
        out.append(line)
    for n, a in newg.values():
        out.append('attributes %s = {%s }' % (n, a))
    open(dst, 'w').write('\n'.join(out) + '\n')


def build_native(kind='debug'):
    with lock():
        tgt = os.path.join(BUILD, 'native')
        e = env0()
        e.pop('RUSTC_BOOTSTRAP')
        e['CARGO_TARGET_DIR'] = tgt
        e['CARGO_INCREMENTAL'] = '0'
        for prof in ('debug', 'release'):
            for pat in ('crypto-pure-*', 'vharness-*'):
                for d in glob.glob(os.path.join(tgt, prof, '.fingerprint', pat)):
                    shutil.rmtree(d)
        cmd = ['cargo', 'build', '--offline', '--bin', 'vreplay', '--manifest-path', os.path.join(HARNESS, 'Cargo.toml')]
        if kind == 'release':
            cmd.append('--release')
        _cargo(cmd, e, [])
        return os.path.join(tgt, kind, 'vreplay')


if __name__ == '__main__':
    import time
    t = time.time()
    for k in sys.argv[1:] or ['chk', 'rel', 'native']:
        print(k, build_native() if k == 'native' else build_native('release') if k == 'release' else build_ir(k), '%.1fs' % (time.time() - t))
