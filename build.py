#!/usr/bin/env python3
"""Builds simulator binaries from /repo's working tree (into /verif/build, cached by content)."""
import hashlib, os, subprocess, sys, shutil, concurrent.futures as cf, fcntl, time
ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = REPO + '/c-impl/PQCrypto-SIDH/src'
SIM = ROOT + '/sim'
BUILD = ROOT + '/build'

COMMON = '-std=gnu11 -w -g1 -march=x86-64-v3 -madx -maes -D _AMD64_ -D __NIX__ -fno-pie -fno-stack-protector -U_FORTIFY_SOURCE'.split()
FAST = '-D _FAST_ -D _MULX_ -D _ADX_'.split()
GENERIC = '-D _GENERIC_'.split()
TSAN = '-fsanitize=thread -mllvm -tsan-instrument-func-entry-exit=1'.split()
TRAP = '-fsanitize=bounds,null,unreachable,return,vla-bound,object-size,integer-divide-by-zero -fsanitize-trap=all -fstack-protector-all'.split()

def V(bits, reps=None, w=None, h=None, generic=False, debug=False, threads=True, tsan=True, trap=False, opt='-O2'):
    return dict(bits=bits, reps=reps, w=w, h=h, generic=generic, debug=debug, threads=threads, tsan=tsan, trap=trap, opt=opt)

POIK = {
    'p434t': V(434, 6, 2, 2), 'p434c': V(434, 5, 3, 3),
    'p503c': V(503, 5, 2, 2), 'p610c': V(610, 5, 2, 2), 'p751c': V(751, 5, 2, 2),
    'p434g': V(434, 5, 1, 1, generic=True), 'p434d': V(434, 4, 3, 2, debug=True), 'p610d': V(610, 3, 2, 3, debug=True),
    'p434s': V(434, 5, 2, 2, threads=False), 'p434h': V(434, 4, 2, 2, trap=True), 'p610h': V(610, 3, 2, 2, trap=True),
    'p434w': V(434, 4, 4, 7), 'p751w': V(751, 3, 4, 7), 'p434m': V(434, 16, 1, 1), 'p434o': V(434, 3, 1, 1), 'p434l': V(434, 219, 1, 1), 'p751l': V(751, 438, 1, 1),
    'p434F': V(434, tsan=False, opt='-O3'), 'p503F': V(503, tsan=False, opt='-O3'), 'p610F': V(610, tsan=False, opt='-O3'), 'p751F': V(751, tsan=False, opt='-O3'),
}

def run(cmd, cwd=None):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode: raise RuntimeError('command failed: %s\n%s' % (' '.join(cmd), r.stdout[-4000:]))
    return r.stdout

def tree_hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode()); h.update(open(p, 'rb').read())
    return h.hexdigest()[:24]

def repo_files():
    out = []
    for d, ds, fs in os.walk(SRC):
        if '/ARM64' in d: continue
        out += [os.path.join(d, f) for f in fs]
    for f in ('prove.c', 'verify.c'): out.append(REPO + '/c-impl/' + f)
    return out

def sim_files(): return [os.path.join(SIM, f) for f in os.listdir(SIM) if f.endswith(('.cpp', '.h', '.c', '.inc', '.txt'))] + [ROOT + '/build.py']

def flags(v):
    f = COMMON + (GENERIC if v['generic'] else FAST) + [v['opt']]
    if not v['debug']: f.append('-DNDEBUG')
    if v['threads']: f.append('-DTHREADING')
    if v['tsan']: f += TSAN
    if v['trap']: f = [x for x in f if x != '-fno-stack-protector'] + TRAP
    if v['reps']: f += ['-DPOIK_SIM_PARAMS', '-DPOIK_SIM_REPS=%d' % v['reps'], '-DPOIK_SIM_WIDTH=%d' % v['w'], '-DPOIK_SIM_HEIGHT=%d' % v['h']]
    return f

def pack(objs, out, keep, d, tap=None):
    """link the variant's objects, redirect its libc seams, hide everything but the glue"""
    if tap:
        for o, names in tap.items():
            for n in names: run(['objcopy', '--redefine-sym', '%s=sim_tap_%s' % (n, n), o])
    r = out + '.r'
    run(['ld', '-r', '-o', r] + objs)
    args = ['objcopy', '--redefine-syms=' + SIM + '/seams.txt']
    for k in keep: args.append('--keep-global-symbol=' + k)
    args += ['--rename-section', '.data=vdata', '--rename-section', '.bss=vbss', r, out]
    run(args)
    os.unlink(r)

def build_poik(name, v, d):
    w = os.path.join(d, name + '.d'); os.makedirs(w, exist_ok=True)
    b = str(v['bits']); f = flags(v); P = SRC + '/P' + b
    jobs = [('poik.o', [P + '/P%s_poik.c' % b]), ('random.o', [SRC + '/random/random.c']), ('fips202.o', [SRC + '/sha3/fips202.c'])]
    if v['generic']: jobs.append(('fp.o', [P + '/generic/fp_generic.c']))
    else: jobs += [('fp.o', [P + '/AMD64/fp_x64.c']), ('fpasm.o', [P + '/AMD64/fp_x64_asm.S'])]
    cli = ['-I', SRC, '-DPOIK_BITS=' + b]
    jobs += [('prove.o', cli + ['-Dmain=sim_prove_main', REPO + '/c-impl/prove.c']), ('verify.o', cli + ['-Dmain=sim_verify_main', REPO + '/c-impl/verify.c'])]
    jobs.append(('glue.o', cli + [SIM + '/glue_poik.c']))
    for o, src in jobs:
        ff = f if o != 'glue.o' else [x for x in f if not x.startswith(('-fsanitize', '-mllvm', '-tsan'))]
        run(['clang'] + ff + ['-c'] + src + ['-o', os.path.join(w, o)])
    objs = [os.path.join(w, o) for o, _ in jobs]
    # observation point: calls of the hash function made by the proof code
    tapsrc = os.path.join(w, 'tap.c')
    open(tapsrc, 'w').write('#include <stddef.h>\nvoid shake256(unsigned char*,unsigned long long,const unsigned char*,unsigned long long);\nvoid sim_shake_observed(const void*,size_t,const void*,size_t);\n'
        'void sim_tap_shake256(unsigned char*o,unsigned long long ol,const unsigned char*i,unsigned long long il){shake256(o,ol,i,il);sim_shake_observed(i,il,o,ol);}\n')
    run(['clang', '-O2', '-w', '-fno-pie', '-c', tapsrc, '-o', os.path.join(w, 'tap.o')])
    pack(objs + [os.path.join(w, 'tap.o')], os.path.join(d, name + '.v.o'), ['sim_variant_poik'], w, {objs[0]: ['shake256']})
    simobjs = [os.path.join(d, 'sim', o) for o in POIK_SIM]
    run(['clang++', '-no-pie', '-Wl,-z,noexecstack', '@' + SIM + '/seams_ld.txt', '-o', os.path.join(d, name + '.tmp'), os.path.join(d, name + '.v.o')] + simobjs + ['-lm', '-ldl'])
    os.rename(os.path.join(d, name + '.tmp'), os.path.join(d, name))
    shutil.rmtree(w, ignore_errors=True)

KEMS = [(b, c, g) for b in (434, 503, 610, 751) for c in (False, True) for g in (False, True)]
def kem_name(b, c, g): return 'k%d%s%s' % (b, 'c' if c else '', 'g' if g else '')
def build_kem_variant(b, c, g, d, tsan=True):
    n = kem_name(b, c, g); w = os.path.join(d, n + '.d'); os.makedirs(w, exist_ok=True); P = SRC + '/P%d' % b
    f = COMMON + (GENERIC if g else FAST) + ['-O3'] + (TSAN if tsan else [])
    jobs = [('main.o', [P + ('/P%d_compressed.c' if c else '/P%d.c') % b]), ('random.o', [SRC + '/random/random.c']), ('fips202.o', [SRC + '/sha3/fips202.c'])]
    if g: jobs.append(('fp.o', [P + '/generic/fp_generic.c']))
    else: jobs += [('fp.o', [P + '/AMD64/fp_x64.c']), ('fpasm.o', [P + '/AMD64/fp_x64_asm.S'])]
    jobs.append(('glue.o', ['-I', SRC, '-DKEM_BITS=%d' % b, '-DKEM_COMP=%d' % c, '-DKEM_GEN=%d' % g, '-DKEM_SYM=sim_kem_%s' % n, SIM + '/glue_kem.c']))
    for o, src in jobs:
        ff = f if o != 'glue.o' else [x for x in f if not x.startswith(('-fsanitize', '-mllvm', '-tsan'))]
        run(['clang'] + ff + ['-c'] + src + ['-o', os.path.join(w, o)])
    pack([os.path.join(w, o) for o, _ in jobs], os.path.join(d, n + '.v.o'), ['sim_kem_' + n], w)
    shutil.rmtree(w, ignore_errors=True)

POIK_SIM = ['core.o', 'ref.o', 'poik_common.o', 'fam_poik.o', 'fam_poik2.o', 'main_poik.o']
KEM_SIM = ['core.o', 'ref.o', 'fam_kem.o']
CXX = ['clang++', '-std=c++17', '-O2', '-g1', '-w', '-fno-pie', '-march=x86-64-v3', '-madx']

def key(): return tree_hash(repo_files() + sim_files())
def refkey(): return tree_hash([SIM + '/ref.cpp', SIM + '/ref.h'])

def ensure(names):
    """build the named binaries; returns the directory holding them"""
    os.makedirs(BUILD, exist_ok=True)
    lock = open(BUILD + '/.lock', 'w'); fcntl.flock(lock, fcntl.LOCK_EX)
    d = os.path.join(BUILD, key())
    if not os.path.isdir(d):
        for e in os.listdir(BUILD):        # keep the disk small: drop builds of other trees
            if len(e) == 24: shutil.rmtree(os.path.join(BUILD, e), ignore_errors=True)
        os.makedirs(d + '/sim')
    missing = [n for n in names if not os.path.exists(os.path.join(d, n))]
    if missing:
        need = set()
        for n in missing: need.update(KEM_SIM if n == 'kem' else POIK_SIM)
        with cf.ThreadPoolExecutor(8) as ex:
            fs = []
            sims = [ex.submit(run, CXX + ['-c', SIM + '/' + o[:-2] + '.cpp', '-o', os.path.join(d, 'sim', o)]) for o in sorted(need) if not os.path.exists(os.path.join(d, 'sim', o))]
            if 'kem' in missing: fs += [ex.submit(build_kem_variant, b, c, g, d) for b, c, g in KEMS]
            for s in sims: s.result()
            fs += [ex.submit(build_poik, n, POIK[n], d) for n in missing if n in POIK]
            for f_ in fs: f_.result()
            if 'kem' in missing:
                run(['clang++', '-no-pie', '-Wl,-z,noexecstack', '@' + SIM + '/seams_ld.txt', '-o', d + '/kem.tmp'] + [os.path.join(d, kem_name(*k) + '.v.o') for k in KEMS] + [os.path.join(d, 'sim', o) for o in KEM_SIM] + ['-lm', '-ldl'])
                os.rename(d + '/kem.tmp', d + '/kem')
    fcntl.flock(lock, fcntl.LOCK_UN)
    return d

if __name__ == '__main__':
    t = time.time(); names = sys.argv[1:] or list(POIK) + ['kem']
    try: print(ensure(names), '%.1fs' % (time.time() - t))
    except RuntimeError as e: print(e); sys.exit(3)
