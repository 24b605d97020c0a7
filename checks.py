"""The checks: what each builds and runs, and how it is described in MANIFEST.json."""
import os
import shutil
import threading
import run

CHECKS = {}
NOT_CLAIMED = {}


def simple(prop, technique, note, level='exploration', **kw):
    def f(res):
        run.run_monitor(res, [run.harness_bin(prop.lower())])
    CHECKS[prop] = dict(level=level, run=f, technique=technique, note=note, **kw)


simple('C01', 'runtime monitoring: protocol runs with save/restore at every step, outcome monitor',
       'Every number length, random and special numbers, parameters and issuers; each object is randomly reloaded (native, bincode, JSON) between steps; one issuer, user and entry used 66,000 times in one process. Sampled, not exhaustive.')
simple('C02', 'runtime monitoring: adversarial presentations against an acceptance oracle computed from known secrets',
       'Bit flips, splices, simulations, degenerate points, responses adjusted with knowledge of every discrete logarithm. Sampled adversaries; soundness against unknown strategies is not shown.')
simple('C03', 'runtime monitoring: substituted entries and proofs against a commitment-equality oracle',
       'All field substitutions between pairs of sessions, users, parameters; dishonest provers with known logarithms.')
simple('C04', 'runtime monitoring: MAC operations against an algebraic reference on known logarithms',
       'Keys of 0 to 8 attributes (more in a few cases), boundary scalars, rerandomisation chains; sampled.')
simple('C05', 'runtime monitoring: adversarial issuances against an acceptance oracle, state compared before and after',
       'Bit flips, splices, other issuers and numbers, adjusted proofs, histories of accepted and rejected issuances. Two recorded findings are recognised by signature.')
simple('C06', 'runtime monitoring: all five proofs against an independent prover and verifier with known logarithms',
       'True and false statements, one changed public value or context at a time, compensating responses, Fiat-Shamir weakenings. Sampled.')
simple('C07', 'runtime monitoring: proof nonces recovered from proofs by known secrets, collision and dependence monitor with duplicated generator state (fork, stubbed entropy)',
       'Nonces are computed back from challenge and responses; forks and processes duplicate state; a stub replaces system entropy to test dependence on the statement and each secret.')


def watched_arithmetic():
    """A copy of curve25519-dalek which hands each scalar that a point is multiplied with to a hook."""
    src, dst = '/opt/vp/vendor/curve25519-dalek-0.21.0', os.path.join(run.BUILD, 'dalek-watched')
    if os.path.exists(dst):
        shutil.rmtree(dst)
    shutil.copytree(src, dst)
    os.remove(os.path.join(dst, '.cargo-checksum.json'))
    f = os.path.join(dst, 'src', 'ristretto.rs')
    s = open(f).read()
    for old, new, n in (
            ('RistrettoPoint(&self.0 * scalar)', '{ watched(scalar); RistrettoPoint(&self.0 * scalar) }', 2),
            ('RistrettoPoint(self * &point.0)', '{ watched(self); RistrettoPoint(self * &point.0) }', 1),
            ('RistrettoPoint(self * &basepoint_table.0)', '{ watched(self); RistrettoPoint(self * &basepoint_table.0) }', 1),
            ('EdwardsPoint::multiscalar_mul(scalars, extended_points)',
             'EdwardsPoint::multiscalar_mul(scalars.into_iter().map(|s| { watched(s.borrow()); s }), extended_points)', 1)):
        if s.count(old) != n:
            raise run.NoVerdict('curve25519-dalek is not the version known: %r' % old)
        s = s.replace(old, new)
    s += '''
/// What is called with each scalar a point is multiplied with, if anything.
pub static WATCH: ::core::sync::atomic::AtomicUsize = ::core::sync::atomic::ATOMIC_USIZE_INIT;

fn watched(s: &Scalar) {
    let f = WATCH.load(::core::sync::atomic::Ordering::Relaxed);
    if f != 0 {
        let f: fn(&Scalar) = unsafe { ::core::mem::transmute(f) };
        f(s)
    }
}
'''
    with open(f, 'w') as o:
        o.write(s)


def c08(res):
    def watched():
        watched_arithmetic()
        return run.harness_bin('c08w', 'harness-watched', 'target-watched')
    plain, w = in_parallel(lambda: run.harness_bin('c08'), watched)
    run.run_monitor(res, [plain])
    run.run_monitor(res, [w], label='c08-watched')


CHECKS['C08'] = dict(level='exploration', run=c08,
    technique='runtime monitoring: blinding values recovered from presentations by known logarithms and from hooked curve arithmetic, collision, dependence and bias monitors',
    note='Every group element and scalar of every presentation goes to one set; blindings and proof nonces are checked for zero, equality, shortness, biased and shared bits, and for being made from up to three others. Dependences of other forms are not found.')

simple('C09', 'runtime monitoring: openings against an algebraic oracle over known logarithms',
       'Near-miss values, openings and parameters of sampled commitments; every digit and opening bit of each.')
simple('C10', 'runtime monitoring: exhaustive short numbers and near neighbours, with an online collision monitor',
       'All numbers of up to 5 digits (6 in thorough runs) and neighbourhoods of longer ones; wrong lengths and arbitrary contents are sampled.')
simple('C11', 'runtime monitoring: round trips through native, bincode and JSON forms, compared by value and behaviour',
       'All 28 serialisable types in sampled states; bincode in both byte orders, JSON text, values and readers, alone and nested.')
simple('C12', 'runtime monitoring: decode-then-encode oracle over systematically mutated encodings',
       'Every bit, 32-byte block (non-canonical scalars and points), 8-byte prefix and length of sampled valid encodings of all types, through from_bytes, bincode and JSON.')
simple('C13', 'runtime monitoring: hostile input to all decoders and steps under panic, time and allocation monitors',
       'A counting allocator and per-thread CPU clock judge every call; a watchdog catches what does not end. Input is generated from structure, not by coverage.')


ASAN = 'handle_segv=0:handle_abort=0:handle_sigbus=0:handle_sigill=0:handle_sigfpe=0:detect_leaks=0'


def build_ffi(res):
    """Build the C interface as it is shipped, or, where only that fails, with the standard library."""
    try:
        return run.cargo('shims/ffi', [], 'ffi')
    except run.NoVerdict as e:
        t = run.cargo('shims/ffi', ['--no-default-features', '--features', 'std,nightly,u64_backend'], 'ffi-std')
        res.notes['c_interface'] = 'built with the standard library, as its default configuration does not build: ' + str(e)[-500:]
        return t


def c14(res):
    t = build_ffi(res)
    lib = os.path.join(t, 'release', 'libcredential.a')
    src = os.path.join(run.HERE, 'cdriver', 'driver.c')
    for name, flags in (('c14-asan', ['-fsanitize=address', '-DWITH_ASAN']), ('c14-memcheck', ['-DWITH_VALGRIND'])):
        run.sh(['gcc', '-g', '-O1', '-I/repo/ffi/src/include', src, lib, '-o', os.path.join(run.BUILD, name)] + flags +
               ['-lpthread', '-ldl', '-lm'], 'building the C driver')
    run.run_monitor(res, [os.path.join(run.BUILD, 'c14-asan'), '6000' if run.THOROUGH else '250'], extra={'ASAN_OPTIONS': ASAN}, label='c14-asan')
    log = os.path.join(run.BUILD, 'out', 'C14-memcheck.log')
    if os.path.exists(log):
        os.remove(log)
    rc = run.run_monitor(res, ['valgrind', '-q', '--log-file=' + log, '--error-exitcode=9', '--leak-check=full',
                               '--errors-for-leak-kinds=definite', os.path.join(run.BUILD, 'c14-memcheck'),
                               '60' if run.THOROUGH else '4'], label='c14-memcheck')
    said = open(log, errors='replace').read() if os.path.exists(log) else ''
    if rc == 9:
        res.violation('memcheck', 'valgrind reports:\n' + said[:3000])


CHECKS['C14'] = dict(level='exploration', run=c14,
    technique='sanitizers: C program with guard-page arguments under AddressSanitizer and, apart, valgrind memcheck; monitors for buffer life, content and balance of allocations',
    note='The C interface in its default configuration (64-bit backend). Rust code itself is not compiled with AddressSanitizer: guards, the interposed allocator and memcheck watch it.')


def ffi_and(res, name):
    """Build the C interface and a monitor at the same time."""
    out = {}

    def build():
        try:
            out['ffi'] = build_ffi(res)
        except run.NoVerdict as e:
            out['error'] = e
    t = threading.Thread(target=build)
    t.start()
    try:
        b = run.harness_bin(name)
    finally:
        t.join()
    if 'error' in out:
        raise out['error']
    return os.path.join(out['ffi'], 'release'), b


def header_lengths():
    """The lengths the C header documents, as a C compiler sees them."""
    names = ['SEED', 'SYSTEM_PARAMETERS', 'ISSUER', 'ISSUER_PARAMETERS', 'ISSUER_KEYPAIR', 'USER', 'CREDENTIAL_ISSUANCE',
             'CREDENTIAL_PRESENTATION', 'VERIFIED_CREDENTIAL', 'ROSTER_ENTRY_COMMITMENT', 'ROSTER_ENTRY_COMMITMENT_SANS_OPENING']
    src = os.path.join(run.BUILD, 'lengths.c')
    with open(src, 'w') as f:
        f.write('#include <sys/types.h>\n#include <stdio.h>\n#include "credential.h"\nint main(void) {\n')
        for n in names:
            f.write('printf("LENGTH_%s=%%lu\\n", (unsigned long)(LENGTH_%s));\n' % (n, n))
        f.write('return 0; }\n')
    exe = os.path.join(run.BUILD, 'lengths')
    run.sh(['gcc', '-I/repo/ffi/src/include', src, '-o', exe], 'compiling the C header')
    return ' '.join(run.sh([exe], 'printing lengths')[1].split())


def c15(res):
    lib, b = ffi_and(res, 'c15')
    run.run_monitor(res, [b], extra={'VH_CDYLIB': os.path.join(lib, 'libcredential.so'), 'VH_LENGTHS': header_lengths()})


CHECKS['C15'] = dict(level='exploration', run=c15,
    technique='runtime monitoring: online differential oracle, every C call against the library operation on the same bytes',
    note='The shared library built from /repo/ffi in its default configuration, against the std configuration of the library. Proof bytes are not functions of the seed: they are verified instead of compared.')


def c16(res):
    lib, b = ffi_and(res, 'c16')
    run.run_monitor(res, [b], extra={'VH_CDYLIB': os.path.join(lib, 'libcredential.so')})


CHECKS['C16'] = dict(level='exploration', run=c16,
    technique='runtime monitoring: equality and collision monitors over seeded operations, again in other threads and processes',
    note='Every one-bit neighbour and some hundred other close variations of sampled seeds, through the library and the C interface. The proofs are not covered: they take entropy of their own.')


simple('C19', 'runtime monitoring: parameter generation from written-down generator output, against a scan of that output for the first usable block',
       'Hostile blocks in random order and streaks of up to 300000; every decoder of parameters, alone and inside issuers and users.')
simple('C20', 'runtime monitoring: encryption, decryption and sums against points computed from the scalars',
       'Random and special keys, messages and nonces; wrong keys and altered encryptions; sampled.')


TARGET = 'x86_64-unknown-linux-gnu'


def in_parallel(*jobs):
    """Run functions at the same time; their results, or the first error."""
    out = [None] * len(jobs)

    def go(i, f):
        try:
            out[i] = (f(), None)
        except Exception as e:
            out[i] = (None, e)
    ts = [threading.Thread(target=go, args=(i, f)) for i, f in enumerate(jobs)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    for _, e in out:
        if e:
            raise e
    return [r for r, _ in out]


def c17(res):
    plain, whole = in_parallel(lambda: run.harness_bin('c17'), lambda: run.harness_bin('c17', 'harness-lto', 'target-lto'))
    run.run_monitor(res, [plain])
    run.run_monitor(res, [whole], label='c17-whole')


CHECKS['C17'] = dict(level='exploration', run=c17,
    technique='runtime monitoring: inspecting allocator and readers of storage after drop',
    note='In code optimised by parts and as a whole (link-time optimisation), as erasing may be optimised away. Copies made elsewhere while a value is moved or serialised are not its storage and are not judged.')


SUPPRESS = '# The standard library is not instrumented: what it orders itself is not seen.\nrace:std::sync::once\n'


def c21(res):
    try:
        lib, plain, tsan = in_parallel(
            lambda: build_ffi(res),
            lambda: run.harness_bin('c21'),
            lambda: run.harness_bin('c21', target='tsan', triple=TARGET, extra={'RUSTFLAGS': '-Z sanitizer=thread'}))
    except run.NoVerdict as e:
        said = str(e)
        if 'E0277' in said and ('cannot be shared between threads safely' in said or 'cannot be sent between threads safely' in said):
            res.violation('not-shareable', 'objects can no longer be shared between threads: ' + said[-3000:])
            res.count('builds which share objects between threads', 1, 1)
            return
        raise
    run.run_monitor(res, [plain], extra={'VH_CDYLIB': os.path.join(lib, 'release', 'libcredential.so')})
    sup = os.path.join(run.BUILD, 'tsan.supp')
    with open(sup, 'w') as f:
        f.write(SUPPRESS)
    log = os.path.join(run.BUILD, 'out', 'C21-tsan')
    for n in os.listdir(os.path.dirname(log)):
        if n.startswith('C21-tsan.') and not n.endswith(('.jsonl', '.err')):
            os.remove(os.path.join(os.path.dirname(log), n))
    run.run_monitor(res, [tsan], label='tsan', extra={'VH_TSAN': '1', 'TSAN_OPTIONS': 'log_path=%s suppressions=%s exitcode=0 history_size=5' % (log, sup)})
    for n in sorted(os.listdir(os.path.dirname(log))):
        if n.startswith('C21-tsan.') and not n.endswith(('.jsonl', '.err')):
            said = open(os.path.join(os.path.dirname(log), n), errors='replace').read()
            if 'WARNING: ThreadSanitizer: data race' in said:
                res.violation('data-race', said[:3500])
            elif 'ThreadSanitizer' in said:
                res.errors.append('the thread sanitizer says: ' + said[:1500])


CHECKS['C21'] = dict(level='exploration', run=c21,
    technique='thread sanitizer, and runtime monitoring of concurrent histories against the same operations run alone',
    note='Up to 32 threads on two issuers and four users, in lockstep and freely; up to 300, held by signals in the middle of the same operation. The sanitizer sees the library and its dependencies but not the standard library. Interleavings are the scheduler\'s, with random delays.')


def c22(res):
    b = run.harness_bin('c22', 'harness-wasm', 'target32')
    run.run_monitor(res, [b])
    run.run_monitor(res, ['node', os.path.join(run.HERE, 'js', 'c22.js'), b, os.path.join(run.REPO, 'wasm/src/credential.js')], label='js', timeout=240)


CHECKS['C22'] = dict(level='exploration', run=c22,
    technique='runtime monitoring: online differential oracle, every JavaScript function against the library operation on the same bytes, in Rust and through credential.js in Node',
    note='Compiled for this machine with the 32-bit backend; a stand-in for wasm-bindgen passes values as the JSON text the real one passes. The bindings in credential.js run in Node with a stand-in for the compiled module, which hands calls to the Rust functions.')


def c23(res):
    try:
        b = run.harness_bin('c23', 'harness-buildtest', 'buildtest')
    except run.NoVerdict as e:
        b = os.path.join(run.cargo('harness-buildtest', ['--bin', 'c23', '--no-default-features'], 'buildtest'), 'release', 'c23')
        res.notes['ios'] = 'left out, as it does not build: ' + str(e)[-500:]
    run.run_monitor(res, [b])


CHECKS['C23'] = dict(level='exploration', run=c23,
    technique='runtime monitoring: interposed malloc and free with guard pages and injected failures, content oracle',
    note='build-test/alloc and maths as they are, ios under a shim that corrects a crate name; electron and aos have nothing more to run.')


simple('C24', 'runtime monitoring: random histories with an online reference model deciding each outcome',
       'Sampled histories of 150 operations with replay, misdirection, splicing, alteration, restart from old state. Which operations may fail is decided by the model, not by the library.')

simple('C25', 'runtime monitoring: recorded artefacts of the published version put to use, and protocol runs against an independent implementation of every role',
       'About 200 recorded artefacts, for every number length; proofs and messages are exchanged both ways with a reference prover, verifier, issuer and user.')


# Name, features of the harness, compiler flags, what the processor must have.
CONFIGURATIONS = [
    ('std-u32', 'std_lib,nightly_lib,u32_backend', '', None),
    ('std-u64-stable-release', 'std_lib,u64_backend', '-C debug-assertions=off -C overflow-checks=off', None),
    ('alloc-u64', 'alloc_lib,nightly_lib,u64_backend', '', None),
    ('alloc-u32-stable', 'alloc_lib,u32_backend', '', None),
    ('std-u64-asm', 'std_lib,nightly_lib,u64_backend,asm_lib', '', None),
    ('std-avx2', 'std_lib,nightly_lib,avx2_backend', '-C target-feature=+avx2', 'avx2'),
]


def c26(res):
    cpu = open('/proc/cpuinfo').read().split() if os.path.exists('/proc/cpuinfo') else []
    built, left = [], []

    def build(name, features, flags):
        def f():
            try:
                t = run.cargo('harness', ['--bin', 'c26node', '--no-default-features', '--features', features], 'cfg-' + name,
                              {'RUSTFLAGS': flags} if flags else None)
                built.append((name, os.path.join(t, 'release', 'c26node')))
            except run.NoVerdict as e:
                left.append('%s does not build: %s' % (name, str(e)[-400:]))
        return f
    jobs = [build(n, f, flags) for n, f, flags, needs in CONFIGURATIONS if needs is None or needs in cpu]
    left += ['%s: the processor has no %s' % (n, needs) for n, f, flags, needs in CONFIGURATIONS if not (needs is None or needs in cpu)]
    b = in_parallel(lambda: run.harness_bin('c26'), *jobs)[0]
    built.sort()
    res.notes['configurations'] = ', '.join(['std-u64'] + [n for n, _ in built])
    if left:
        res.notes['left_out'] = '; '.join(sorted(left))
    if not built:
        raise run.NoVerdict('no other configuration builds: ' + '; '.join(left))
    run.run_monitor(res, [b], extra={'VH_NODES': ';'.join('%s=%s' % x for x in built)})


CHECKS['C26'] = dict(level='exploration', run=c26,
    technique='runtime monitoring: online differential oracle between processes running the library in seven configurations',
    note='std and alloc, 32-bit, 64-bit and AVX2 backends, with and without nightly, assembly and overflow checks, on one machine; a configuration which does not build is left out and named in the evidence.')


def c18(res):
    flags = '-C debug-assertions=off -C overflow-checks=off -C opt-level=2 -C debuginfo=1'
    b = run.harness_bin('c18', target='valgrind', extra={'RUSTFLAGS': flags})
    so = os.path.join(run.BUILD, 'taint.so')
    run.sh(['gcc', '-O1', '-shared', '-fPIC', '-o', so, os.path.join(run.HERE, 'cdriver', 'taint.c')], 'building the client requests')
    log = os.path.join(run.BUILD, 'out', 'C18-valgrind.log')
    if os.path.exists(log):
        os.remove(log)
    before = len(res.viol)
    run.run_monitor(res, ['valgrind', '--error-limit=no', '--undef-value-errors=yes', '--num-callers=24', '--log-file=' + log, b], extra={'VH_TAINT': so})
    said = open(log, errors='replace').read() if os.path.exists(log) else ''
    if len(res.viol) > before:
        # The reports follow the name of the operation during which they were made.
        for v in res.viol[before:]:
            name = v['detail'].split(': ')[0]
            for part in said.split('OPERATION ')[1:]:
                if part.startswith(name + '\n') and 'depends on uninit' in part or part.startswith(name + '\n') and 'Use of uninit' in part:
                    v['detail'] += '\n' + part[:2500]
                    break


CHECKS['C18'] = dict(level='exploration', run=c18,
    technique='valgrind memcheck as a taint monitor: secrets and random numbers are marked undefined, every dependent jump or address is reported',
    note='Optimised code of the 64-bit backend without overflow checks, on the paths executed. Instructions whose time depends on operands are not seen. The length of a phone number counts as public.')

simple('C27', 'runtime monitoring: comparisons, copies, conversions and operators of every value type against encodings and points computed from the scalars',
       'Pairs which differ in one point, scalar, bit or list element, in every type; points in several in-memory forms; sampled.')
