"""Front end: /repo's current sources -> LLVM IR -> parsed module.  Nothing is executed."""
import os
import shutil
import subprocess
import sys
import tempfile

import ir

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
CLANG = next((x for x in ('/usr/lib/llvm-18/bin/clang++', '/usr/bin/clang++-18', '/usr/bin/clang++') if os.path.exists(x)), None) or shutil.which('clang++')
OPT = shutil.which('opt-18') or '/usr/lib/llvm-18/bin/opt'
if not os.path.exists(OPT):
    OPT = shutil.which('opt') or OPT
LINK = os.path.join(os.path.dirname(os.path.realpath(OPT)), 'llvm-link')
if not os.path.exists(LINK):
    LINK = shutil.which('llvm-link-18') or shutil.which('llvm-link') or 'llvm-link'

PASSES = ('internalize,globaldce,function(sroa,early-cse,simplifycfg),cgscc(inline,function-attrs),'
          'function(sroa,early-cse,simplifycfg,instsimplify,adce),cgscc(function-attrs),globaldce')


class FrontError(Exception):
    pass


class Unit:
    pass


def scratch():
    d = tempfile.mkdtemp(prefix='verif-')
    return d


def compile_ir(harness, entries, defs=(), model=True, std='c++17', text=None, extra=()):
    """compile a harness (file under /verif/harness, or text) against /repo/include and flatten it"""
    d = scratch()
    try:
        src = os.path.join(VERIF, 'harness', harness) if text is None else os.path.join(d, harness)
        if text is not None:
            with open(src, 'w') as f:
                f.write(text)
        ll = os.path.join(d, 'h.ll')
        fl = os.path.join(d, 'f.ll')
        inc = (['-I' + os.path.join(VERIF, 'model')] if model else []) + ['-I' + os.path.join(REPO, 'include')]
        cmd = [CLANG, '-std=' + std] + inc + list(extra) + ['-D' + x for x in defs] + \
            ['-fno-access-control', '-w', '-Wno-c++11-narrowing', '-S', '-emit-llvm', '-g', '-O1', '-Xclang', '-disable-llvm-passes', src, '-o', ll]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            raise FrontError('clang failed on %s:\n%s' % (harness, r.stderr[:4000]))
        # functions of the C library that are analysed like the library's own
        lk = [LINK, '-S', '--only-needed', ll, os.path.join(d, 'rt.ll'), '-o', ll]
        for c in ([CLANG.replace('clang++', 'clang'), '-w', '-S', '-emit-llvm', '-O1', '-fno-builtin', '-Xclang', '-disable-llvm-passes', '-x', 'c', os.path.join(VERIF, 'harness', 'rt.c'), '-o', os.path.join(d, 'rt.ll')], lk):
            r = subprocess.run(c, capture_output=True, text=True)
            if r.returncode:
                raise FrontError('%s failed:\n%s' % (c[0], r.stderr[:4000]))
        cmd2 = [OPT, '-S', ll, '-o', fl, '-passes=' + PASSES, '-internalize-public-api-list=' + ','.join(entries),
                '-inline-threshold=1000000', '-inlinecold-threshold=0']
        r = subprocess.run(cmd2, capture_output=True, text=True)
        if r.returncode:
            raise FrontError('opt failed:\n%s' % r.stderr[:4000])
        with open(fl) as f:
            text = f.read()
        u = Unit()
        u.mod = ir.Module(text)
        u.cmd = ' '.join(cmd).replace(d, '$TMP') + ' && ' + ' '.join(cmd2).replace(d, '$TMP')
        for e in entries:
            if '@' + e not in u.mod.funcs:
                raise FrontError('entry %s vanished' % e)
        return u
    finally:
        shutil.rmtree(d, ignore_errors=True)
