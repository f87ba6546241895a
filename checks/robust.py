"""R01: sanitizer-instrumented engine in every mode."""
import os, random, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, common, htn
from common import Check, Ref, run
import prog_util as U
SAN = {'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0', 'UBSAN_OPTIONS': 'print_stacktrace=1:exitcode=99',
       'IPASIR_MAXSOLVE': 4, 'IPASIR_MAXCONF': 3000}
MODES = ['progression', 'progression', 'sat', 'sat', 'bdd', 'translation', 'translation', 'hddl', 'interactive']
def sanreport(r):
    t = r.err + r.out
    m = re.search(r'(ERROR: AddressSanitizer: [\w-]+|runtime error: [^\n]*)', t)
    if not m: return None
    loc = ''
    for fr in re.findall(r'#\d+ 0x[0-9a-f]+ in (\S+)[^\n]* (\S+?):(\d+)', t):
        if '/repo/src' in fr[1] or 'SearchEngine' in fr[1]: loc = fr[0] + '@' + os.path.basename(fr[1]); break
    m2 = re.search(r'(\S+):(\d+):(\d+): runtime error', t)
    if m2: loc = os.path.basename(m2.group(1)) + ' ' + loc
    return m.group(1)[:120], loc
def r01(c, i, seed, ctx):
    rng = random.Random(seed); path = U.mkpath(ctx); mode = MODES[i % len(MODES)]
    prof = U.PROFS
    if mode == 'bdd': prof = U.TOPROFS
    I, q = U.make(rng, ctx['ref'], path, profs=prof, tries=3)
    if mode == 'bdd': I = htn.binarise(I, rng); htn.write(I, path)
    stdin = None
    if i % 27 == 0: I, q = htn.explode(rng); htn.write(I, path)
    if mode == 'progression':
        o = U.config(rng)
        if i % 27 == 0: o = ['-H', 'rc2(%s;%s%s)' % (rng.choice(['add', 'add', 'ff', 'lmc']), rng.choice(['distance', 'cost', 'mixed']), rng.choice(['', ';no'])), '-w', str(rng.choice([1, 2, 1000]))] + o
    elif mode == 'sat': o = U.satopts(rng)
    elif mode == 'bdd': o = ['-b']
    elif mode == 'translation': o = U.transopts(rng, path)
    elif mode == 'hddl': o = ['--writeInputToHDDL']
    else: o = ['-I']; stdin = ''.join('%d\n' % rng.choice([0, 0, 0, 1, 1, 2, 3]) for _ in range(40))
    env = dict(SAN); env['IPASIR_SEED'] = rng.randint(0, 5)
    r = run([ctx['exe']] + o + [path], cpu=12, mem_gb=None, env=env, stdin=stdin, cwd=ctx['tmp']); c.evals += 1
    for x in ('.d.hddl', '.p.hddl', '.sas', '.sas.plan'):
        if os.path.exists(path + x): os.remove(path + x)
    if r.timeout: c.n('stopped_by_cpu_limit_' + mode); return
    rep = sanreport(r)
    if rep: c.bad('sanitizer %s %s' % rep, '%s: %s at %s' % (mode, rep[0], rep[1]), U.save(I, o, r), ' '.join(o)); return
    if r.rc < 0: c.bad('signal', '%s: terminated by signal %d' % (mode, -r.rc), U.save(I, o, r), ' '.join(o)); return
    c.n('clean_runs_' + mode); c.nontrivial.append(hash((htn.text(I), tuple(o)))); c.seen('configs', tuple(x for x in o if x != path))
    if i % 23 == 0 and mode != 'bdd': memcheck(c, o, path, I, ctx, env, stdin, mode)
    if i < 4: c.sample = dict(mode=mode, options=' '.join(o), rc=r.rc)
def memcheck(c, o, path, I, ctx, env, stdin, mode):
    "uses of uninitialised memory, which the sanitizers above do not see"
    r = run(['valgrind', '-q', '--error-exitcode=55', '--undef-value-errors=yes', ctx['plain']] + o + [path], cpu=60, mem_gb=None, env=env, stdin=stdin, cwd=ctx['tmp'], wall=120); c.evals += 1
    for x in ('.d.hddl', '.p.hddl', '.sas', '.sas.plan'):
        if os.path.exists(path + x): os.remove(path + x)
    if r.timeout: c.n('stopped_by_cpu_limit_memcheck'); return
    if r.rc == 55:
        m = re.search(r'==\d+== ((?:Conditional|Use of|Invalid|Syscall)[^\n]*)\n==\d+==\s+at 0x\w+: ([^\n]*)', r.err)
        c.bad('memcheck %s' % (m.group(1)[:40] if m else ''), '%s: %s' % (mode, ' at '.join(m.groups()) if m else r.err[:300]), U.save(I, o, r), ' '.join(o))
    elif r.rc >= 0: c.n('clean_memcheck_runs')
def main():
    C = Check('R01', 'random problems run by the ASan+UBSan engine in all modes with random options; non-trivial = distinct (input, options) run to completion under instrumentation')
    ctx = dict(exe=build.build('engine-asan', 'asan', sat=True, bdd=True), ref=Ref(build.plain('reftool', 'lib/reftool.cpp')), tmp=C.tmp, plain=build.build('engine', 'fast', sat=True))
    C.cases(r01, C.n(560, 12000), ctx)
    C.finish(['clean_runs_' + m for m in set(MODES)] + ['clean_memcheck_runs'])
if __name__ == '__main__': common.main_guard(main)
