"""Generates the verification crate from /repo/src: the same text with the path root `std::`
redirected to the contract stand-ins, plus the harness modules."""
import os, re, shutil
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SHIMS = 'xworld xstd polling slab concurrent-queue parking async-lock tracing rustix futures-io'.split()

PLACES = '''
#[cfg(all(kani, not(test)))]
unsafe impl xworld::Place for crate::reactor::Reactor {
    fn place() -> *mut Self {
        extern "C" { static mut VERIF_PLACE_REACTOR: crate::reactor::Reactor; }
        &raw mut VERIF_PLACE_REACTOR
    }
}
#[cfg(all(kani, not(test)))]
unsafe impl xstd::sync::ArcPool for crate::reactor::Source {
    fn alloc() -> *mut xstd::sync::ArcInner<Self> {
        const N: usize = 4;
        extern "C" { static mut VERIF_POOL_SOURCE: [xstd::sync::ArcInner<crate::reactor::Source>; N]; }
        static mut NEXT: usize = 0;
        unsafe {
            let mut p = &raw mut VERIF_POOL_SOURCE[0];
            let mut i = 0;
            while i < N { if i == NEXT { p = &raw mut VERIF_POOL_SOURCE[i]; } i += 1; }
            xworld::bound!(NEXT < N, "BOUND arcs");
            NEXT += 1;
            p
        }
    }
}
'''

def sequential(t):
    """`async fn` bodies and `async` blocks as straight-line code, `.await` as a call of `vawait`.

    Comments and literals are left alone; braces are matched outside them."""
    mask = blank(t)
    out, last, closers = [], 0, []
    depth, i = 0, 0
    pat = re.compile(r'\basync\s+(?=(?:unsafe\s+)?fn\b)|\basync\s+(move\s*)?\{|\.\s*await\b|[{}]')
    for m in pat.finditer(mask):
        s = m.group(0)
        if s == '{': depth += 1
        elif s == '}':
            depth -= 1
            if closers and closers[-1] == depth:
                closers.pop(); out.append(t[last:m.end()] + ')'); last = m.end()
        elif s.startswith('.'):
            out.append(t[last:m.start()] + '.vawait()'); last = m.end()
        elif s.endswith('{'):
            out.append(t[last:m.start()] + '::xstd::vawait::now(%s|| {' % ('move ' if m.group(1) else '')); last = m.end()
            closers.append(depth); depth += 1
        else:
            out.append(t[last:m.start()]); last = m.end()
    return ''.join(out) + t[last:]

def blank(t):
    """`t` with comments and literals blanked out (same length)."""
    out = list(t)
    pat = re.compile(r'''//[^\n]*|/\*.*?\*/|r(\#*)".*?"\1|b?"(?:\\.|[^"\\])*"|b?\'(?:\\.[^\']*|[^\'\\])\'''', re.S)
    for m in pat.finditer(t):
        for i in range(m.start(), m.end()):
            if out[i] != '\n': out[i] = ' '
    return ''.join(out)

def generate(repo, dst, harness_files, features=()):
    """`features`: 'noplaces' / 'novec' / 'async' switch one of the adaptations off (used when the source
    no longer fits it)."""
    src = os.path.join(repo, 'src')
    hdir = os.path.join(dst, 'harness')
    shutil.rmtree(hdir, ignore_errors=True)
    os.makedirs(hdir)
    harness_files = [os.path.join(VERIF, 'harness', 'common.rs')] + list(harness_files)
    for h in harness_files: shutil.copy(h, hdir)
    out = os.path.join(dst, 'src')
    shutil.rmtree(out, ignore_errors=True)
    for root, _, files in os.walk(src):
        for f in files:
            p = os.path.join(root, f)
            q = os.path.join(out, os.path.relpath(p, src))
            os.makedirs(os.path.dirname(q), exist_ok=True)
            if not f.endswith('.rs'):
                shutil.copy(p, q); continue
            t = open(p, encoding='utf-8').read()
            t = re.sub(r'\bstd::', 'xstd::', t)
            if 'async' not in features and re.search(r'\basync\b', t):
                t = sequential(t)
                t += '\n#[allow(unused_imports)] use xstd::vawait::{AwaitFuture as _, AwaitNow as _};\n'
            if 'novec' not in features and re.search(r'\bVec\b', t):
                t += '\n#[allow(unused_imports)] use xstd::vec::Vec;\n'
            if os.path.relpath(p, src) == 'lib.rs':
                t = '#![cfg_attr(kani, feature(min_specialization, arbitrary_self_types))]\n' + t
                t += '\n#[macro_use%s] extern crate xstd;\n#[cfg(kani)] extern crate kani;\n' % ('(thread_local)' if 'novec' in features else '')
                t += '#[cfg(kani)] impl<T> xstd::vawait::AwaitNow for crate::Async<T> {}\n'
                if 'noplaces' not in features: t += PLACES
                for h in harness_files:
                    t += '#[cfg(kani)] #[path = "%s"] pub(crate) mod vh_%s;\n' % (os.path.join(hdir, os.path.basename(h)), os.path.splitext(os.path.basename(h))[0])
            open(q, 'w', encoding='utf-8').write(t)
    deps = '\n'.join('%s = { path = "%s/shims/%s" }' % (c, VERIF, c) for c in SHIMS)
    open(os.path.join(dst, 'Cargo.toml'), 'w').write('''[package]
name = "async-io"
version = "2.4.0"
edition = "2021"
[dependencies]
%s
cfg-if = "1"
futures-lite = { version = "2.0.0", default-features = false }
[workspace]
[lints.rust]
unexpected_cfgs = "allow"
''' % deps)
    lock = os.path.join(VERIF, 'bin', 'Cargo.lock')
    if os.path.exists(lock):
        shutil.copy(lock, os.path.join(dst, 'Cargo.lock'))

if __name__ == '__main__':
    import sys
    generate(sys.argv[1], sys.argv[2], sys.argv[3:])
