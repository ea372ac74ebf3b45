"""What each check runs: targets (code under test + harness) and jobs (harness parameters = bounds).
Most jobs finish (exhaustive within their parameters); the per-job verdict is in the evidence."""
COMMON_ASSUMPTIONS = [
    'the clang LLVM IR of the sources (-O1, or for some checks unoptimised) stands for the shipped gcc build (same C/C++ semantics, different optimiser)',
    'heap allocation succeeds; objects do not overlap; uninitialised heap bytes read as a fixed fill byte',
    'one multiplication by a large odd constant (hash) is abstracted to a functionally consistent unknown; counterexamples are re-solved exactly and replayed natively before they are reported',
    'the engine (verif/engine) and Z3 are trusted for "no counterexample"; every reported violation is replayed against a native ASan build, and sampled finished paths are replayed to validate the encoding',
]
SW = ['src/serial/*.c', 'src/serial_optimized/*.cpp']
HASH = ('-DHASH_FUNCTION(k,l,h)=(h)=0',)
HASHNOTE = 'uthash HASH_FUNCTION is replaced by a constant when encoding (hash collisions everywhere, same map semantics); native replay uses the real hash'
TARGETS = {
    'comp': {'harness': ['h_comp.c'], 'src': SW, 'bcflags': HASH},
    'dec': {'harness': ['h_dec.c'], 'src': SW, 'bcflags': HASH},
    'safe': {'harness': ['h_safe.c'], 'src': SW, 'bcflags': HASH},
    'crc': {'harness': ['h_crc.c'], 'src': SW, 'bcflags': HASH},
    'chunk': {'harness': ['h_chunk.c'], 'src': SW, 'bcflags': HASH},
}
CLF = ('-DCL842_CHUNK_SIZE=64', '-DCL842_CHUNK_STRIDE=96', '-DEINVAL=22', '-DENOSPC=28')
CLM = ('-DCL842_CHUNK_SIZE=64', '-DCL842_CHUNK_STRIDE=64', '-DEINVAL=22', '-DENOSPC=28', '-DUSE_MAYBE_COMPRESSED_CHUNKS=1')
TARGETS['ocl'] = {'harness': ['h_ocl.c'], 'src': [('src/ocl/decompress.cl', CLF, 'cl')]}
TARGETS['compx'] = {'harness': [('h_comp.c', ('-DWITH_OCL',))], 'src': SW + [('src/ocl/decompress.cl', CLF, 'cl')], 'bcflags': HASH}
TARGETS['oclm'] = {'harness': [('h_ocl.c', ('-DMAYBE', '-DCHUNK=64', '-DSTRIDE=64'))], 'src': [('src/ocl/decompress.cl', CLM, 'cl')]}
TH = {'nflags': ('-DSX_THREADS', '-fsanitize=thread'), 'nharness': ['nthreads.cpp']}
TARGETS['sync'] = {'harness': ['h_sync.cpp'], 'src': [], **TH}
TARGETS['stream'] = {'harness': ['h_stream.cpp'], 'src': ['src/stream/*.cpp'], **TH}
import os as _os
import re
FAKE = ('-I' + _os.path.join(_os.path.dirname(_os.path.abspath(__file__)), 'harness', 'fake'), '-DLIB842_HAVE_CRYPTODEV_LINUX_COMP', '-DLIB842_HAVE_AIX_HWCOMPRESSION')
TARGETS['hw'] = {'harness': ['h_hw.c'], 'flags': FAKE, 'src': [('src/cryptodev/842_interface.c', tuple('-D%s=sxk_%s' % (f, f) for f in 'open fcntl close access sysconf call_once tss_create tss_set tss_get ioctl'.split())), 'src/aix/aix.c']}
CLH = ('-DWITH_CL', '-DCL_TARGET_OPENCL_VERSION=120', '-DCL_HPP_MINIMUM_OPENCL_VERSION=120', '-DCL_HPP_TARGET_OPENCL_VERSION=120', '-DCL_HPP_ENABLE_EXCEPTIONS')
TARGETS['clhost'] = {'harness': [('h_clhost.cpp', CLH)], 'src': [('src/ocl/cl842decompress.cpp', CLH + ('-include', 'iosim.h'))] + [('src/ocl/decompress.cl', ('-DCL842_CHUNK_SIZE=64', '-DCL842_CHUNK_STRIDE=%d' % st, '-DEINVAL=22', '-DENOSPC=28', '-Ddecompress=' + nm) + fl, 'cl') for nm, st, fl in (('kern_always', 96, ()), ('kern_maybe', 64, ('-DUSE_MAYBE_COMPRESSED_CHUNKS=1',)), ('kern_inplace', 64, ('-DUSE_INPLACE_COMPRESSED_CHUNKS=1',)))]}
TARGETS['cl2c'] = {'harness': ['h_cl2c.cpp'], 'src': [('src/tools/cl2c.cpp', ('-include', 'iosim.h', '-Dmain=cl2c_main'))]}
TARGETS['hls'] = {'harness': [('h_hls.cpp', ('-I' + _os.path.join(_os.path.dirname(_os.path.abspath(__file__)), 'harness', 'fake', 'hls'), '-w'))], 'src': []}
TARGETS['cap'] = {'harness': ['h_cap.c'], 'src': SW, 'bcflags': HASH}
TARGETS['indep'] = {'harness': ['h_indep.cpp'], 'src': SW, 'bcflags': HASH, **TH}
NUMA = ('-DLIB842_HAVE_NUMA', '-I' + _os.path.join('/repo', 'src')) + tuple('-D%s=nk_%s' % (f, f) for f in 'numa_bitmask_alloc numa_allocate_cpumask numa_allocate_nodemask numa_bitmask_free numa_free_cpumask numa_free_nodemask numa_bitmask_isbitset numa_bitmask_weight numa_bitmask_clearall numa_bitmask_nbytes numa_available numa_max_node numa_max_possible_node numa_num_configured_nodes numa_num_possible_nodes numa_num_possible_cpus numa_num_configured_cpus get_nprocs get_nprocs_conf numa_get_mems_allowed numa_node_to_cpus pthread_setaffinity_np'.split()) + ('-D__sched_cpucount=nk_sched_cpucount',)
TARGETS['numa'] = {'harness': [('h_numa.cpp', ('-I/repo/src',))], 'src': [('src/stream/*.cpp', NUMA)], **TH}
TARGETS['compnh'] = dict(TARGETS['comp'], bcflags=())  # with uthash's own hash function: long concrete histories
TARGETS['cuda'] = {'harness': ['h_cuda.cpp'], 'src': [('src/cuda/842_decompress.cu', (), 'cu')]}
# the same with only local variables promoted to registers: every memory access of the source is executed, none optimised away
# (full: local variables stay in memory too, so uninitialised ones hold the chosen fill byte)
for _t in list(TARGETS):
    TARGETS['full' + _t] = dict(TARGETS[_t], raw='full')
    TARGETS['raw' + _t] = dict(TARGETS[_t], raw=True)
CHECKS = {}
BIG = ['--max-inst', '60000000000']


def J(name, target, t=30, j=1, tiers='qt', need=(), bound='', args=(), **params):
    o = {k: params.pop(k) for k in ('first', 'samples', 'max_viol', 'replay_t') if k in params}
    return dict(name=name, target=target, t=t, j=j, tiers={'q': ('quick',), 't': ('thorough',), 'qt': ('quick', 'thorough')}[tiers], need=list(need), bound=bound, args=list(args), params=params, **o)


def raw(jobs):
    return [dict(j, target='raw' + j['target']) for j in jobs]


def check(pid, level, bounds, jobs, **kw):
    names = [j['name'] for j in jobs]
    assert len(set(names)) == len(names), (pid, names)
    CHECKS[pid] = dict(level=level, bounds=bounds, jobs=jobs, **kw)


KIND = ['all blocks different', 'zeros', 'one repeated block', 'few distinct 2-byte words', 'pairs sharing 4 bytes', 'mix with zeros', 'a run longer than 64 after the rings filled', 'zero runs and pairs', 'long runs']


def comp_jobs(impl, chk, kinds=range(6), tails=True, big=True, mis=0, target='comp'):
    """Compressor jobs: symbolic blocks after a concrete prefix of each kind and of sizes around every ring/table boundary."""
    nm = 'opt' if impl else 'sw'
    c = dict(impl=impl, chk=chk)
    if mis:
        c['mis'] = mis
    js = [J('%s empty' % nm, target, t=10, pre=0, nsym=0, bound='empty input', **c),
          J('%s 1 block' % nm, target, t=30, pre=0, nsym=1, bound='every 8-byte input', **c)]
    if not impl:
        if tails:
            for tl in (1, 2, 3, 4, 5, 6, 7):
                js.append(J('sw tail%d' % tl, target, t=20, pre=0, nsym=0, tail=tl, bound='every %d-byte input' % tl, **c))
            js.append(J('sw 1 block tail3', target, t=20, pre=0, nsym=1, tail=3, bound='every 11-byte input', **c))
            js.append(J('sw 1 block tail7', target, t=20, tiers='t', pre=0, nsym=1, tail=7, bound='every 15-byte input', **c))
            js.append(J('sw pre5 tail7', target, t=20, pre=5, kind=3, nsym=1, free=2, tail=7, **c))
        js.append(J('sw 2 blocks f4', target, t=30, pre=0, nsym=2, free=4, bound='every 16-byte input with the high half of each block fixed', **c))
        js.append(J('sw 2 blocks', target, t=600, j=6, tiers='t', pre=0, nsym=2, bound='every 16-byte input', **c))
        js.append(J('sw 3 blocks f2', target, t=40, tiers='t', j=2, pre=2, kind=3, nsym=3, free=2, **c))
    else:
        js.append(J('opt pre1 f4', target, t=20, pre=1, kind=0, nsym=1, free=4, **c))
        js.append(J('opt pre4 f2', target, t=20, pre=4, kind=3, nsym=1, free=2, **c))
        js.append(J('opt pre4 f4', target, t=200, j=4, tiers='t', pre=4, kind=3, nsym=1, free=4, **c))
        js.append(J('opt pre2 f8', target, t=200, j=4, tiers='t', pre=2, kind=0, nsym=1, free=8, **c))
    f = 1 if impl else 2
    for k in kinds:
        js.append(J('%s pre40 k%d' % (nm, k), target, t=30, pre=40, kind=k, nsym=1, free=f, bound='40 blocks (%s) then one block with %d free bytes' % (KIND[k], f), **c))
        js.append(J('%s pre66 k%d n2' % (nm, k), target, t=60, tiers='t', pre=66, kind=k, nsym=2, free=1, **c))
        js.append(J('%s pre300 k%d' % (nm, k), target, t=60, pre=300, kind=k, nsym=1, free=f, args=BIG, tiers='qt' if k in (0, 2, 3) else 't', **c))
    if big:
        for pre, k, ti in ((64, 0, 'qt'), (256, 0, 'qt'), (513, 4, 't'), (1100, 3, 'qt')):
            js.append(J('%s pre%d k%d' % (nm, pre, k), target, t=60, pre=pre, kind=k, nsym=1, free=f, args=BIG, tiers=ti, **c))
        js.append(J('%s 64K' % nm, target, t=90, pre=8200, kind=0, nsym=1, free=1, args=BIG, tiers='qt' if impl else 't', **c))
    # the symbolic block repeats (parts of) earlier blocks chosen by the solver: ring turn-over, stale table entries, reference choice
    def R(name, tiers='qt', **k):
        js.append(J('%s recall %s' % (nm, name), target, args=BIG, tiers=tiers, **{**dict(t=100, nsym=1, free=0, bound='%d blocks (%s), then a block made of earlier blocks chosen by the solver' % (k['pre'], KIND[k['kind']])), **k, **c}))
    R('templates', t=30, pre=4, kind=0, recall=2, parts=4, pmask=256, fresh=1, fork=1, bound='a block each of whose 2-byte words either occurred in any of 4 earlier blocks or is new: every template')
    R('template twice', t=30, pre=4, kind=0, recall=2, parts=4, pmask=9, fresh=1, fork=1, nsym=2, bound='two such blocks, the outer words known, the inner ones new')
    if impl:
        for k, ti in ((0, 'qt'), (5, 'qt'), (6, 't'), (7, 'qt'), (8, 't')):
            R('600 k%d' % k, ti, pre=600, kind=k, recall=10)
        R('i4', pre=340, kind=0, recall=9, parts=2, pmask=2)
        R('i2', pre=150, kind=0, recall=8, parts=4, pmask=2)
        R('i2 first', 't', pre=150, kind=0, recall=8, parts=4, pmask=1)
        R('halves', pre=60, kind=7, recall=5, parts=2)
        R('halves 340', 't', pre=340, kind=0, recall=9, parts=2, t=400)
        R('two', 't', pre=60, kind=0, recall=5, nsym=2, t=300)
        R('8200', 't', pre=8200, kind=0, recall=8, base=7900, t=300)
    else:
        R('i8 run', pre=340, kind=6, recall=4, base=64, fork=1)
        R('i8', pre=340, kind=0, recall=4, base=76, fork=1)
        R('i4', pre=340, kind=0, recall=4, base=76, fork=1, parts=2, pmask=1)
        R('i2', pre=150, kind=0, recall=5, base=70, fork=1, parts=4, pmask=4)
        R('halves', pre=60, kind=7, recall=5, parts=2)
        for k in (0, 4, 6, 7, 8):
            R('all k%d' % k, 't', pre=340, kind=k, recall=9, fork=1, t=300)
        R('i4 all', 't', pre=340, kind=0, recall=9, fork=1, parts=2, pmask=2, t=300)
        R('two', 't', pre=60, kind=0, recall=4, base=10, fork=1, nsym=2, t=300)
    if big and chk in (9, 17) and target == 'comp':   # beyond 2^16 blocks
        if impl:
            for k, ti in ((0, 'qt'), (7, 't')):
                js.append(J('opt 300000 k%d' % k, target, t=120, pre=300000, kind=k, nsym=1, free=1, args=BIG, tiers=ti, bound='2.4 MB (%s), then a block with one free byte' % KIND[k], **c))
        else:
            for k, ti in ((0, 't'), (7, 'qt')):
                js.append(J('sw 66000 k%d' % k, 'compnh', t=120, pre=66000, kind=k, nsym=1, free=0, args=BIG, tiers=ti, bound='528 KB (%s)' % KIND[k], **c))
            js.append(J('sw 66000 recall', 'compnh', t=200, pre=66000, kind=0, nsym=1, free=0, recall=2, base=65533, fork=1, args=BIG, tiers='t', bound='528 KB, then a block made of earlier blocks around 2^16', **c))
    js.append(J('%s hi' % nm, target, t=40, pre=100, kind=4, nsym=1, free=f, hi=1, bound='100 blocks, then a block with its high %d bytes free' % f, **c))
    js.append(J('%s runs' % nm, target, t=40, pre=300, kind=8, nsym=1, free=f, args=BIG, **c))
    return js


def dec_jobs(impl, deep=True):
    """Decoder-versus-reference jobs over arbitrary streams."""
    nm = 'opt' if impl else 'sw'
    c = dict(impl=impl)
    js = []
    for tl in ((0, 1, 5, 8, 12) if not impl else (0, 4, 8, 12)):
        js.append(J('%s t%d' % (nm, tl), 'dec', t=30, tail=tl, capx=16, bound='every stream of %d bytes, 16 bytes of output' % tl, **c))
    js.append(J('%s t16' % nm, 'dec', t=40, j=2, tail=16, capx=16, bound='every stream of 16 bytes, 16 bytes of output', **c))
    for cap in (0, 7, 8, 15):
        js.append(J('%s t12 cap%d' % (nm, cap), 'dec', t=20, tail=12, capx=cap, bound='every stream of 12 bytes, %d bytes of output' % cap, **c))
    js.append(J('%s 2op' % nm, 'dec', t=30, tail=24, capx=24, nop=2, bound='every stream of at most 2 operations within 24 bytes', **c))
    js.append(J('%s long repeat' % nm, 'dec', t=40, tail=16, capx=8 * 66, nop=2, pre=1, op0=27, round=impl, bound='a block, a repeat of any count, any operation', **c))
    js.append(J('%s any repeat' % nm, 'dec', t=40, tail=16, capx=8 * 66, nop=1, pre=1, op0=27, round=impl, bound='a block and a repeat of any count', **c))
    js.append(J('%s t24 3op' % nm, 'dec', t=300, j=4, tiers='t', tail=32, capx=32, nop=3, **c))
    js.append(J('%s t20' % nm, 'dec', t=300, j=4, tiers='t', tail=20, capx=24, **c))
    for pre in (1, 2, 63, 64, 65, 127, 128, 255, 256, 257, 512, 8191, 8192, 8193):
        js.append(J('%s pre%d' % (nm, pre), 'dec', t=60, pre=pre, tail=16, capx=16, nop=1, round=impl, tiers='qt' if pre in (1, 64, 65, 255, 256, 257, 8192) else 't', bound='%d literal blocks then every single operation' % pre, **c))
    for pre in (63, 255):
        js.append(J('%s pre%d 2op' % (nm, pre), 'dec', t=150, j=2, tiers='t', pre=pre, tail=24, capx=16, nop=2, round=impl, **c))
    return js


def safe_jobs(impl):
    nm = 'opt' if impl else 'sw'
    c = dict(impl=impl)
    js = [J('%s t%d' % (nm, t), 'safe', t=40, tail=t, cap=24, bound='every input of %d bytes, 24 bytes of output' % t, **c) for t in (0, 1, 4, 7, 8)]
    for cap in (0, 1, 7, 8, 9, 16):
        js.append(J('%s t12 cap%d' % (nm, cap), 'safe', t=45, tail=12, cap=cap, bound='every input of 12 bytes, %d bytes of output' % cap, **c))
    js.append(J('%s t16' % nm, 'safe', t=30, j=2, tail=16, cap=24, **c))
    js.append(J('%s t24' % nm, 'safe', t=30, j=2, tail=24, cap=32, **c))
    js.append(J('%s t40' % nm, 'safe', t=200, j=4, tail=40, cap=48, tiers='t', **c))
    js.append(J('%s rep' % nm, 'safe', t=60, tail=8, cap=520, pre=1, nop=2, **c))
    for pre in (64, 255, 256, 257, 8192):
        js.append(J('%s pre%d' % (nm, pre), 'safe', t=30, pre=pre, tail=12, cap=9, nop=1, tiers='qt' if pre in (64, 256) else 't', **c))
    for m in (1, 4, 7):
        js.append(J('%s mis%d' % (nm, m), 'safe', t=45, tail=8, cap=24, mis=m, omis=(m * 3) % 8, tiers='qt' if m == 1 else 't', **c))
    return js


C1_TXT = 'inputs of 0..8 symbolic bytes (all values), 2 blocks with half of the bytes symbolic, and a symbolic block (1-2 free bytes) after concrete prefixes of six kinds and 4..8200 blocks, crossing the 64-, 256- and 8192-block table and ring boundaries'
check('C01', 'model_checking', C1_TXT, comp_jobs(0, 9), assumptions=[HASHNOTE], outside='several fully symbolic blocks at once (thorough explores two), inputs above 2.4 MB')
check('C02', 'model_checking', C1_TXT, comp_jobs(1, 17), outside='two or more fully symbolic blocks, inputs above 2.4 MB')
check('C03', 'model_checking', C1_TXT + '; each finished stream is decoded by every other decoder', comp_jobs(0, 48, tails=False, target='compx') + comp_jobs(1, 40, target='compx'), assumptions=[HASHNOTE, 'the OpenCL kernel is compiled for the host with clang OpenCL C 1.2; vendor compilers are outside'], outside='AIX, Linux cryptodev hardware and CUDA implementations')
check('C04', 'model_checking', 'every stream of up to 8 bytes and (time-limited search) up to 24 bytes; output buffers of 0..32 bytes; single operations after 64..8192 literal blocks; exact-size heap buffers', raw(safe_jobs(0) + safe_jobs(1)), assumptions=[HASHNOTE], outside='longer symbolic streams')
CAPB = 'any capacity (and, after the end marker, any input length) below 2^46 bytes beyond the real one'
def cap_jobs(impl, op):
    n = ('sw', 'opt')[impl]
    if op: return [J('%s any size pre%d' % (n, p), 'cap', t=60, impl=impl, op=1, pre=p, bound=CAPB, tiers=ti) for p, ti in ((0, 'qt'), (5, 'qt'), (64, 't'), (257, 't'))] + ([J('opt any size 2op', 'cap', t=60, impl=1, op=1, pre=0, nop=2, tail=24, bound=CAPB)] if impl else [])
    return [J('%s any capacity pre%d' % (n, p), 'cap', t=60, impl=impl, op=0, pre=p, free=f, bound=CAPB, tiers=ti) for p, f, ti in ((0, 8, 'qt'), (5, 2, 'qt'), (3, 4, 'qt' if not impl else 't'), (70, 1, 't'))] + ([J('sw any capacity tail%d' % t, 'cap', t=60, impl=0, op=0, pre=2, free=8 - t, cut=t, bound=CAPB) for t in (1, 5)] if not impl else [])
check('C05', 'model_checking', 'every stream of up to 16 bytes; up to 2 operations in 24 bytes; every single operation after 1..8193 literal blocks; output capacities 0..24 beyond the prefix; any larger capacity', dec_jobs(0) + cap_jobs(0, 1), assumptions=[HASHNOTE], outside='three or more symbolic operations after a long prefix')
check('C06', 'model_checking', 'every stream of up to 16 bytes; up to 2 operations in 24 bytes; every single operation after 1..8193 literal blocks; output capacities 0..24 beyond the prefix; any larger capacity', dec_jobs(1) + cap_jobs(1, 1), assumptions=[HASHNOTE], outside='three or more symbolic operations after a long prefix')
crc = []
for impl in (0, 1):
    nm = 'opt' if impl else 'sw'
    for n in (0, 1, 2, 8, 32):
        crc.append(J('%s n%d' % (nm, n), 'crc', t=40, impl=impl, n=n, need=['accept', 'mismatch'], bound='%d symbolic blocks, any stored CRC' % n))
    for pre, rep in ((3, 1), (300, 60), (8190, 5)):
        crc.append(J('%s pre%d rep%d' % (nm, pre, rep), 'crc', t=60, impl=impl, n=1, pre=pre, rep=rep, tiers='t' if pre > 1000 else 'qt'))
    for n, rep in ((1, 0), (2, 3), (6, 64)):
        crc.append(J('%s burst n%d' % (nm, n), 'crc', t=60, impl=impl, n=n, rep=rep, mode=1, tiers='t' if n > 2 else 'qt', bound='any burst of up to 32 bits inside a literal or the CRC'))
for sh in (1, 4, 7):
    crc.append(J('sw short%d' % sh, 'crc', t=40, impl=0, n=1, short=sh))
    crc.append(J('sw short%d burst' % sh, 'crc', t=40, impl=0, n=1, short=sh, span=8, mode=1, tiers='qt' if sh == 4 else 't'))
check('C07', 'model_checking', 'streams of 0..32 symbolic literal blocks (plus up to 8190 concrete blocks, repeats, short data) with an arbitrary stored CRC; all 32-bit bursts', crc, assumptions=[HASHNOTE])
check('C08', 'model_checking', 'capacities 0..7 and olen-24..olen+7 around the true compressed size of symbolic inputs, and any larger capacity below 2^46 (see jobs)',
      cap_jobs(0, 0) + cap_jobs(1, 0) + raw([J('%s 1 block' % n, 'comp', t=40, j=2, impl=i, chk=2, pre=0, nsym=1, bound='every 8-byte input, every listed capacity') for i, n in ((0, 'sw'), (1, 'opt'))] +
      [J('%s empty' % n, 'comp', t=20, impl=i, chk=2, pre=0, nsym=0) for i, n in ((0, 'sw'), (1, 'opt'))] +
      [J('%s pre%d k%d' % (n, pre, k), 'comp', t=60, impl=i, chk=2, pre=pre, kind=k, nsym=1, free=1 if i else 2, tiers='qt' if pre < 9 else 't') for i, n in ((0, 'sw'), (1, 'opt')) for k in (0, 1, 2, 3, 4) for pre in (2, 5, 8, 40)] +
      [J('%s pre70 repeats' % n, 'comp', t=60, impl=i, chk=2, pre=70, kind=2, nsym=1, free=1) for i, n in ((0, 'sw'), (1, 'opt'))] +
      [J('sw tail%d' % t, 'comp', t=40, impl=0, chk=2, pre=0, nsym=0, tail=t) for t in (1, 4, 7)] +
      [J('sw 1 block tail5', 'comp', t=60, impl=0, chk=2, pre=0, nsym=1, tail=5, tiers='qt')] +
      [J('opt pre4 f2', 'comp', t=60, j=2, impl=1, chk=2, pre=4, kind=3, nsym=1, free=2, tiers='t')]),
      assumptions=[HASHNOTE])
check('C09', 'model_checking', 'decoders: every stream of up to 8 bytes (12 bytes with each small capacity); compressors: every 8-byte input with each capacity around its compressed size, and every length that optsw must reject',
      [J('%s dec t%d cap%d' % (n, t, cap), 'dec', t=40, impl=i, tail=t, capx=cap, need=['reject']) for i, n in ((0, 'sw'), (1, 'opt')) for t, cap in ((3, 16), (8, 16), (12, 8), (12, 15))] +
      [J('%s dec 2op' % n, 'dec', t=30, impl=i, tail=24, capx=16, nop=2) for i, n in ((0, 'sw'), (1, 'opt'))] +
      [J('%s comp' % n, 'comp', t=40, impl=i, chk=2, pre=0, nsym=1, need=['nospace']) for i, n in ((0, 'sw'), (1, 'opt'))] +
      [J('%s comp pre5' % n, 'comp', t=40, impl=i, chk=2, pre=5, kind=3, nsym=1, free=1) for i, n in ((0, 'sw'), (1, 'opt'))] +
      [J('opt tail%d n%d' % (t, n), 'comp', t=20, impl=1, pre=0, nsym=n, tail=t, need=['reject']) for t in (1, 4, 7) for n in (0, 1)] +
      [J('%s dec pre64' % n, 'dec', t=30, impl=i, pre=64, tail=16, capx=16, nop=1, round=i) for i, n in ((0, 'sw'), (1, 'opt'))],
      assumptions=[HASHNOTE])
check('C11', 'model_checking', C1_TXT, comp_jobs(0, 1) + comp_jobs(1, 1), assumptions=[HASHNOTE])
mis = []
for i, n in ((0, 'sw'), (1, 'opt')):
    for m in (1, 3, 4, 7):
        mis.append(J('%s dec mis%d' % (n, m), 'dec', t=40, impl=i, tail=12, capx=16, mis=m, tiers='qt' if m in (1, 4) else 't'))
        mis.append(J('%s comp mis%d' % (n, m), 'comp', t=30, impl=i, chk=27, pre=0, nsym=1, mis=m, tiers='qt' if m in (1, 4) else 't'))
        mis.append(J('%s comp pre40 mis%d' % (n, m), 'comp', t=30, impl=i, chk=25, pre=40, kind=3, nsym=1, free=1, mis=m, tiers='qt' if m in (1, 7) else 't'))
    mis.append(J('%s dec in only' % n, 'dec', t=40, impl=i, tail=12, capx=16, mis=2, omis=0))
    mis.append(J('%s dec out only' % n, 'dec', t=40, impl=i, tail=12, capx=16, mis=0, omis=5))
    mis.append(J('%s comp in only' % n, 'comp', t=30, impl=i, chk=27, pre=0, nsym=1, mis=5, omis=0))
    mis.append(J('%s comp out only' % n, 'comp', t=30, impl=i, chk=27, pre=0, nsym=1, mis=0, omis=6))
    mis.append(J('%s tail5 mis' % n, 'comp', t=30, impl=i, chk=27, pre=0, nsym=1, tail=5, mis=3))
    mis.append(J('%s tail5 mis in' % n, 'comp', t=30, impl=i, chk=27, pre=0, nsym=1, tail=5, mis=1, omis=0))
    mis.append(J('%s tail5 mis out' % n, 'comp', t=30, impl=i, chk=27, pre=0, nsym=1, tail=5, mis=0, omis=1))
    mis.append(J('%s dec pre256 mis5' % n, 'dec', t=40, impl=i, pre=256, tail=16, capx=16, nop=1, mis=5))
check('C12', 'model_checking', 'misalignments 1,3,4,7 of both buffers; every stream of 12 bytes; every 8-byte input; one free byte after 40 blocks', raw(mis), assumptions=[HASHNOTE])
OPN = ('swc', 'swd', 'optc', 'optd')
indep = [J('%s %s %s again' % (OPN[y], OPN[x], OPN[y]), 'indep', t=60, x=x, y=y, sym=1, tiers='qt', bound='y symbolic, x each of several fixed calls, failing ones included') for x in range(4) for y in range(4)]
indep += [J('%s %s %s again x' % (OPN[y], OPN[x], OPN[y]), 'indep', t=60, x=x, y=y, sym=0, tiers='t') for x in range(4) for y in range(4) if x != y]
indep += [J('%s %s %s again pre300' % (OPN[y], OPN[x], OPN[y]), 'indep', t=120, j=2, x=x, y=y, sym=1, pre=300, free=1, kind=1, args=BIG, tiers='t') for x in range(4) for y in range(4)]
indep += [J('%s with %s s%d' % (OPN[x], OPN[y], sy), 'indep', t=200, j=2, x=x, y=y, sym=sy, thr=1, race=1, tiers='qt' if (x, y, sy) in ((0, 0, 1), (1, 1, 1), (2, 2, 1), (3, 3, 1), (2, 3, 1)) else 't', bound='two concurrent calls, every access checked for races') for x in range(4) for y in range(x, 4) for sy in ((0, 1) if x != y else (1,))]
indep += [J('%s %s every operation' % (OPN[x], l), 'indep', t=150, j=2, x=x, y=x, sym=1, thr=t, race=t, shape=1, pre=p, kind=k, bound='last block encoded by each operation, one byte symbolic') for x, p, k in ((0, 3, 1), (2, 1, 0)) for t, l in ((0, 'again'), (1, 'with itself'))]
check('C18', 'model_checking', 'two calls in one process with different heap fill (unoptimised encodings: also stack) and different output content, for the symbolic inputs listed; every pair of the four operations: y, x, y again and x, y concurrently in two threads; heap balance on every path',
      [J('%s 1 block' % n, 'comp', t=40, impl=i, chk=4, pre=0, nsym=1) for i, n in ((0, 'sw'), (1, 'opt'))] +
      [J('%s pre%d k%d' % (n, pre, k), 'comp', t=60, impl=i, chk=4, pre=pre, kind=k, nsym=1, free=1, tiers=ti, args=BIG) for i, n in ((0, 'sw'), (1, 'opt')) for pre, k, ti in ((2, 3, 'qt'), (40, 0, 'qt'), (40, 3, 'qt'), (70, 2, 'qt'), (300, 4, 'qt'), (1100, 3, 't'))] +
      [J('sw tail5', 'comp', t=30, impl=0, chk=4, pre=1, kind=0, nsym=0, tail=5), J('opt tail5', 'comp', t=30, impl=1, chk=4, pre=1, kind=0, nsym=0, tail=5)] +
      [J('%s nospace' % n, 'comp', t=40, impl=i, chk=2, pre=3, kind=3, nsym=1, free=1) for i, n in ((0, 'sw'), (1, 'opt'))] +
      [J('%s dec t8' % n, 'safe', t=30, impl=i, tail=8, cap=16) for i, n in ((0, 'sw'), (1, 'opt'))] +
      [J('%s fill %s' % (n, l), 'fullcomp', t=60, impl=i, chk=4, fill=1, args=BIG, bound='uninitialised heap and stack bytes hold any one value in the first call, 0 in the second', **kw) for i, n in ((0, 'sw'), (1, 'opt')) for l, kw in (('1 block', dict(pre=0, nsym=1)), ('pre2', dict(pre=2, kind=3, nsym=1, free=4)), ('pre40 k3', dict(pre=40, kind=3, nsym=1, free=1)), ('pre40 k0', dict(pre=40, kind=0, nsym=1, free=1)), ('pre70 k2', dict(pre=70, kind=2, nsym=1, free=1)), ('pre300 k4', dict(pre=300, kind=4, nsym=1, free=1)))] + [J('sw fill tail5', 'fullcomp', t=60, impl=0, chk=4, fill=1, pre=1, kind=0, nsym=0, tail=5)] +
      [J('%s dec fill %s' % (n, l), 'fulldec', t=60, impl=i, fill=1, bound='uninitialised memory holds any one value', **kw) for i, n in ((0, 'sw'), (1, 'opt')) for l, kw in (('t12', dict(tail=12, capx=16)), ('pre40', dict(pre=40, tail=16, capx=16, nop=1)), ('pre256', dict(pre=256, tail=16, capx=16, nop=1)))] + indep,
      assumptions=[HASHNOTE])

check('C10', 'model_checking', 'shared chunk loop: up to 6 chunks, all 64-bit strides, lengths and capacities; real entry points: 3 chunks, one with arbitrary content, every skip position, gaps of 8 bytes',
      raw([J('loop', 'chunk', t=40, n=4, need=['skip', 'done'], bound='0..4 chunks, any 64-bit strides/lengths/capacities/results'), J('loop6', 'chunk', t=200, tiers='t', n=6)] +
      [J('%s' % nm, 'chunk', t=40, mode=1, op=op, n=3, il=8 if op == 0 else 16, cap=32, nop=1, need=['done']) for op, nm in enumerate(('sw compress', 'sw decompress', 'opt compress', 'opt decompress')) if op != 2] +
      [J('opt compress', 'chunk', t=40, mode=1, op=2, n=3, il=8, cap=32)] +
      [J('%s via implementation' % nm, 'chunk', t=40, mode=1, op=op, impl=1, n=4, sym=3, il=8 if not op & 1 else 16, cap=24, gap=16, nop=1) for op, nm in enumerate(('sw compress', 'sw decompress', 'opt compress', 'opt decompress'))]),
      assumptions=[HASHNOTE], outside='more than 6 chunks')
ocl = []
for tl, cap in ((0, 8), (8, 16), (16, 0), (16, 8), (16, 16)):
    ocl.append(J('t%d cap%d' % (tl, cap), 'ocl', t=30, tail=tl, capx=cap, bound='every stream of %d bytes, %d bytes of output' % (tl, cap)))
ocl.append(J('t24 2op', 'ocl', t=30, tail=24, capx=24, nop=2))
ocl.append(J('t32 3op', 'ocl', t=300, j=4, tiers='t', tail=32, capx=32, nop=3))
ocl.append(J('any repeat', 'ocl', t=40, tail=16, capx=8 * 66, nop=1, pre=1, op0=27, bound='a block and a repeat of any count'))
ocl.append(J('long repeat', 'ocl', t=40, tail=16, capx=8 * 66, nop=2, pre=1))
for pre in (1, 6, 63, 64, 65, 255, 256, 257, 8192):
    ocl.append(J('pre%d' % pre, 'ocl', t=60, pre=pre, tail=16, capx=16, nop=1, tiers='qt' if pre in (6, 64, 65, 256, 257) else 't'))
    if pre in (64, 256):
        ocl.append(J('pre%d full' % pre, 'ocl', t=60, pre=pre, tail=16, capx=0, nop=1))
        ocl.append(J('pre%d 2op' % pre, 'ocl', t=200, j=2, tiers='t', pre=pre, tail=24, capx=16, nop=2))
ocl += [J('chunks', 'ocl', t=40, mode=1, nop=2, need=['done']), J('chunks offsets', 'ocl', t=40, mode=1, nop=2, ioff=8, ooff=16, useol=0, user=0, usemap=0), J('chunks no ilen', 'ocl', t=40, mode=1, nop=1, useil=0, c=2, usemap=0),
        J('chunks small cap', 'ocl', t=40, mode=1, nop=2, cap=16, c=0, user=1), J('chunks no rets', 'ocl', t=40, mode=1, nop=1, user=0, ioff=16, ooff=8),
        J('maybe', 'oclm', t=60, mode=2, nop=1, n=5, c=3, need=['done', 'bad size']), J('maybe first', 'oclm', t=60, mode=2, nop=1, n=4, c=0, usemap=0, ioff=8, ooff=24)]
check('C13', 'model_checking', 'kernel, one chunk: every stream of up to 16 bytes, up to 2 operations in 24 bytes, every single operation after 1..8192 literal blocks; chunk handling: 3-5 chunks, any transposition as shuffle map, offsets, optional arrays, marker formats', raw(ocl),
      assumptions=['the kernel is compiled for the host by clang (OpenCL C 1.2, little endian), get_global_id stubbed, work items run one after another', 'compressed buffers are whole 64-bit words, as the kernel interface says'],
      outside='the stored CRC (the kernel documents that it does not check it), in-place mode (documented as broken for some inputs), vendor OpenCL compilers, the host-side OpenCL calls')


def S(name, t=60, tiers='qt', **k):
    return J(name, 'stream', t=t, tiers=tiers, race=1, **k)


THR = ['scheduling points are mutex, condition variable, atomic and thread operations (plus marked points in callbacks); at most the stated number of preemptions of a running thread, blocking switches are free', 'sequentially consistent atomics; data races on everything else are themselves reported as violations', 'std::thread, mutex and condition variable are modelled by the engine (natively: a baton scheduler that replays the same schedule)']
NDB = 'bound: threads, blocks and preemptions per job'
cs = [S('n1 chunks', mode=0, n=1, nb=1, chunks=1, need=['compressed chunk', 'incompressible chunk'], bound='1 thread, any chunk with any result and compressed size, other chunks all good/bad/over the threshold')]
cs += [S('align', mode=2, need=['rejected', 'accepted'], bound='every alignment up to 2*CHUNK_SIZE'), S('n1 nb3', mode=0, n=1, nb=3, preempt=2, bound='1 thread, any size below 4 blocks, 2 preemptions'), S('n1 nb3 e1', mode=0, n=1, nb=3, preempt=2, epoch=1), S('n1 nb3 e2', mode=0, n=1, nb=3, preempt=2, epoch=2),
       S('n2 nb2', mode=0, n=2, nb=2, preempt=2, bound='2 threads, any size below 3 blocks, 2 preemptions'), S('n2 nb3', mode=0, n=2, nb=3, preempt=2), S('n2 nb3 e1', mode=0, n=2, nb=3, preempt=2, epoch=1), S('n2 nb3 e2', mode=0, n=2, nb=3, preempt=2, epoch=2), S('n3 nb3', mode=0, n=3, nb=3, preempt=1),
       S('n3 nb2 e1', mode=0, n=3, nb=2, preempt=1, epoch=1, symsize=0), S('n1 chunks p1', mode=0, n=1, nb=1, chunks=1, preempt=1), S('n2 chunks', mode=0, n=2, nb=1, chunks=1, preempt=0, symsize=0),
       S('n1 nb3 err', mode=0, n=1, nb=3, preempt=2, fail=1, need=['error'], bound='any set of failing blocks'), S('n2 nb2 err', mode=0, n=2, nb=2, preempt=2, fail=1, need=['error']), S('n2 nb3 err', mode=0, n=2, nb=3, preempt=1, fail=1, need=['error']), S('n2 nb3 e1 err', mode=0, n=2, nb=3, preempt=1, fail=1, epoch=1, need=['error']),
       S('n1 nb3 cancel', mode=0, n=1, nb=3, preempt=2, fin=1), S('n2 nb2 cancel', mode=0, n=2, nb=2, preempt=2, fin=1), S('n2 nb3 cancel', mode=0, n=2, nb=3, preempt=1, fin=1), S('n2 e1 cancel', mode=0, n=2, nb=2, preempt=2, fin=1, epoch=1),
       S('n2 ops2', mode=0, n=2, nb=2, preempt=1, ops=2, bound='two operations one after another'), S('n1 ops2 err', mode=0, n=1, nb=2, preempt=2, ops=2, fail=1), S('n2 ops2 err', mode=0, n=2, nb=2, preempt=1, ops=2, symsize=0, fail=1), S('n2 ops2 cancel', mode=0, n=2, nb=2, preempt=1, ops=2, fin=1), S('n2 ops2 e1', mode=0, n=2, nb=2, preempt=1, ops=2, epoch=1)]
cs += [S('n3 nb3 p2', t=700, tiers='t', mode=0, n=3, nb=3, preempt=2, symsize=0), S('n2 nb3 p3', t=300, tiers='t', mode=0, n=2, nb=3, preempt=3), S('n2 nb3 e1 p3', t=300, tiers='t', mode=0, n=2, nb=3, preempt=3, epoch=1), S('n2 err p3', t=300, tiers='t', mode=0, n=2, nb=2, preempt=3, fail=1), S('n2 ops2 err p2', t=300, tiers='t', mode=0, n=2, nb=2, preempt=2, ops=2, fail=1), S('n2 cancel p3', t=300, tiers='t', mode=0, n=2, nb=3, preempt=3, fin=1), S('n3 nb3 e1 p1', t=300, tiers='t', mode=0, n=3, nb=3, preempt=1, epoch=1), S('n3 err', t=300, tiers='t', mode=0, n=3, nb=3, preempt=1, fail=1)]
cs += [S('large cancel', mode=3, kind=1, n=1, preempt=1, need=['finished'], bound='any input size from 2 MiB to 64 TiB, cancelled during the first block'), S('large fail', mode=3, kind=2, n=1, preempt=1, need=['finished'], bound='any input size from 2 MiB to 64 TiB, the first block fails'),
       S('large all', t=90, mode=3, kind=0, n=1, preempt=0, need=['finished'], bound='any size from 4 GiB to 4 GiB + 3 MiB, every block'), S('large all e32', mode=3, kind=0, n=1, preempt=0, epochlog=32, conc=1, need=['finished']), S('large all e34', mode=3, kind=0, n=1, preempt=0, epochlog=34, conc=1, tiers='t', need=['finished'])]
check('C14', 'model_checking', 'the real stream code with a stub 842 implementation whose results are symbolic: 1-3 threads, up to 3 blocks (any input size, also not a multiple of the block), 1-2 operations, up to 2 preemptions per schedule (thorough 3), every set of failing blocks, cancellation, epochs of 1 and 2 blocks; with 1 thread also input sizes beyond 4 GiB', cs, assumptions=THR, outside='more threads, blocks or preemptions; NUMA thread placement; block content beyond its first and last byte per chunk')
ds = [S('n1 chunks', mode=1, n=1, nb=1, chunks=1, need=['finished', 'error'], bound='1 thread, any chunk absent/raw/compressed of any size, any result, other chunks absent/raw/compressed'), S('n1 chunks p1', mode=1, n=1, nb=1, chunks=1, preempt=1), S('n2 chunks', mode=1, n=2, nb=2, chunks=1, preempt=0),
      S('n1 nb3', mode=1, n=1, nb=3, preempt=2), S('n2 nb2', mode=1, n=2, nb=2, preempt=2, bound='2 threads, 2 blocks, 2 preemptions'), S('n2 nb3 rot', mode=1, n=2, nb=3, preempt=2, rot=1), S('n3 nb3', mode=1, n=3, nb=3, preempt=1), S('align', mode=2, need=['rejected', 'accepted']),
      S('n1 nb3 err', mode=1, n=1, nb=3, preempt=2, fail=1, need=['error'], bound='any set of failing blocks'), S('n2 nb2 err', mode=1, n=2, nb=2, preempt=2, fail=1, need=['error']), S('n2 nb3 err', mode=1, n=2, nb=3, preempt=1, fail=1, need=['error']), S('n1 nb3 cancel', mode=1, n=1, nb=3, preempt=2, fin=1), S('n2 nb2 cancel', mode=1, n=2, nb=2, preempt=2, fin=1), S('n2 nb3 cancel', mode=1, n=2, nb=3, preempt=1, fin=1),
      S('n2 ops2', mode=1, n=2, nb=2, preempt=1, ops=2), S('n1 ops2 err', mode=1, n=1, nb=2, preempt=2, ops=2, fail=1), S('n2 ops2 err', mode=1, n=2, nb=2, preempt=1, ops=2, fail=1), S('n2 ops2 cancel', mode=1, n=2, nb=2, preempt=1, ops=2, fin=1),
      S('n2 nb3 p3', t=300, tiers='t', mode=1, n=2, nb=3, preempt=3), S('n2 err p3', t=300, tiers='t', mode=1, n=2, nb=2, preempt=3, fail=1), S('n3 nb3 p2', t=700, tiers='t', mode=1, n=3, nb=3, preempt=2), S('n3 err', t=300, tiers='t', mode=1, n=3, nb=3, preempt=1, fail=1), S('n2 ops2 err p2', t=300, tiers='t', mode=1, n=2, nb=2, preempt=2, ops=2, fail=1), S('n2 cancel p3', t=300, tiers='t', mode=1, n=2, nb=3, preempt=3, fin=1)]
ds.append(S('large offset', mode=4, n=1, preempt=1, need=['finished'], bound='a block at any offset below 64 TiB, any chunk'))
check('C15', 'model_checking', 'the real stream code with a stub 842 implementation whose results are symbolic: 1-3 threads, up to 3 blocks, every kind of chunk at every position, 1-2 operations, up to 2 preemptions per schedule (thorough 3), every set of failing blocks, cancellation', ds, assumptions=THR, outside='more threads, blocks or preemptions; chunk content beyond its first and last byte')


def B(name, t=60, tiers='qt', **k):
    return J(name, 'sync', t=t, tiers=tiers, race=1, **k)


sy = [B('barrier n1', mode=0, n=1, rounds=2), B('barrier n2 r1', mode=0, n=2, rounds=1), B('barrier n2 r2', mode=0, n=2, rounds=2), B('barrier n3', mode=0, n=3, rounds=1), B('interrupt n1', mode=1, n=1), B('interrupt n2', mode=1, n=2, rounds=2), B('latch n1', mode=2, n=1), B('latch n2 spurious', mode=2, n=2, spurious=1), B('latch n2', mode=2, n=2)]
sy += [S('comp destroy', mode=0, n=2, nb=2, preempt=2, fin=2), S('comp destroy e1', mode=0, n=2, nb=2, preempt=2, fin=2, epoch=1), S('comp destroy err', mode=0, n=2, nb=2, preempt=1, fin=2, fail=1), S('comp destroy second op', mode=0, n=2, nb=1, preempt=1, fin=2, ops=2, symsize=0), S('comp spurious', mode=0, n=2, nb=1, preempt=1, spurious=1), S('comp ready', mode=0, n=2, nb=1, preempt=1, ready=1), S('comp destroy n3', mode=0, n=3, nb=1, preempt=1, fin=2, symsize=0),
       S('dec destroy', mode=1, n=2, nb=2, preempt=2, fin=2), S('dec destroy err', mode=1, n=2, nb=2, preempt=1, fin=2, fail=1), S('dec destroy second op', mode=1, n=2, nb=1, preempt=1, fin=2, ops=2), S('dec spurious', mode=1, n=2, nb=1, preempt=1, spurious=1), S('dec ready', mode=1, n=2, nb=1, preempt=1, ready=1), S('dec destroy n3', mode=1, n=3, nb=1, preempt=1, fin=2),
       S('comp all', mode=0, n=2, nb=2, preempt=1, epoch=1), S('dec all', mode=1, n=2, nb=2, preempt=1)]
sy += [S('comp destroy p3', t=300, tiers='t', mode=0, n=2, nb=2, preempt=3, fin=2), S('dec destroy p3', t=300, tiers='t', mode=1, n=2, nb=2, preempt=3, fin=2), S('comp spurious2', t=300, tiers='t', mode=0, n=2, nb=2, preempt=1, spurious=2), S('dec spurious2', t=300, tiers='t', mode=1, n=2, nb=2, preempt=1, spurious=2), B('barrier n3 r2', t=600, tiers='t', mode=0, n=3, rounds=2), B('barrier n3 spurious', t=600, tiers='t', mode=0, n=3, rounds=1, spurious=1), B('latch n3', t=300, tiers='t', mode=2, n=3)]
check('C16', 'model_checking', 'barrier: 1-3 threads, up to 2 rounds, every interleaving at synchronisation operations; latch: 1-2 threads; streams: 2-3 threads, 1-2 blocks, up to 2 preemptions (thorough 3), up to 1 spurious wake-up (thorough 2), destruction at every point', sy, assumptions=THR, outside='more threads or preemptions')
check('C17', 'model_checking', 'every 64-bit stride, length and capacity for 0-3 chunks (and one more chunk than the kernel takes), every combination of failing system calls over up to 3 requests by 2 threads',
      [J('requests', 'hw', t=60, mode=0, n=2, need=['done', 'rejected', 'kernel error']), J('requests n3', 'hw', t=120, j=2, mode=0, n=3), J('life cycle', 'hw', t=60, mode=1, calls=2, need=['done', 'setup failure', 'request']), J('life cycle 3', 'hw', t=600, j=4, tiers='t', mode=1, calls=3), J('teardown failures', 'hw', t=60, mode=1, calls=1, dtorfail=1), J('aix', 'hw', t=20, mode=2, need=['done'])],
      assumptions=['the kernel interface is a model: stubs for open, fcntl, ioctl, close, call_once and thread-specific storage; <crypto/cryptodev.h> and <sys/vminfo.h> are stand-ins written from their use in the code (not installed here)'], outside='the kernel driver and the hardware; real threads (two threads are modelled as alternating calls)')

clh = [J('chunks', 'clhost', t=60, mode=0, f=0, n=9, need=['done', 'error'], bound='0-3 chunks, one of any 16 bytes (single operation), every set of optional arrays, any transposition as shuffle map'), J('chunks maybe', 'clhost', t=60, mode=0, f=1, n=9, need=['done']), J('chunks inplace', 'clhost', t=60, mode=0, f=2, n=9, need=['done']), J('chunks small cap', 'clhost', t=60, mode=0, f=0, n=2, cap=8, c=0, opt=7), J('chunks first', 'clhost', t=60, mode=0, f=0, n=3, c=0, opt=15, nop=2), J('chunks profile', 'clhost', t=60, mode=0, f=1, n=2, c=0, opt=7, profile=1, verbose=0), J('chunks twice', 'clhost', t=60, mode=0, f=0, n=2, opt=3, times=2),
        J('many chunks', 'clhost', t=60, mode=5, f=0, opt=15, verbose=0, need=['done'], bound='255, 256, 257, 511, 512, 513 chunks'), J('many chunks maybe', 'clhost', t=60, mode=5, f=1, opt=7, verbose=0, need=['done'])]
for k, (f, dv, wm, pr) in enumerate(((0, 1, 0, 1), (0, 1, 1, 0), (1, 2, 0, 0), (1, 1, 1, 1), (2, 2, 1, 1))):
    clh.append(J('faults %d' % k, 'clhost', t=60, mode=1, f=f, n=2, opt=15 if k < 4 else 5, devs=dv, warm=wm, profile=pr, need=['error', 'done', 'constructor error'], bound='any one OpenCL call fails'))
clh += [J('cache f%d d%d' % (f, d), 'clhost', t=100, tiers=ti, mode=2, f=f, devs=d, opt=0, need=['first', 'second'], bound='cache file missing, matching, of another configuration/library/device set, truncated anywhere, 8 bytes anywhere replaced by anything; cache not writable at any point') for f, d, ti in ((0, 1, 'qt'), (1, 2, 'qt'), (2, 1, 't'))]
clh += [J('devices', 'clhost', t=60, mode=3, need=['device', 'no device'], bound='0-2 platforms of 0-2 devices, each GPU or CPU, available or not'), J('devices maybe', 'clhost', t=60, mode=3, f=1, tiers='t'),
        J('C interface', 'clhost', t=90, mode=4, need=['ok', 'failed'], bound='8 input sizes up to 200000 bytes, any single operation, cache not writable'), J('C interface faults', 'clhost', t=60, mode=4, len=0, sym=0, calls=3, faults=2, need=['ok', 'failed'], bound='any two OpenCL calls fail over three calls')]
clh += [J('embed %d' % n, 'cl2c', t=60, n=n, tiers='qt' if n < 5 else 't', need=['done'], bound='every file of %d bytes' % n) for n in (0, 1, 2, 3, 4, 5, 6)] + [J('embed after text', 'cl2c', t=60, n=3, pre=20, need=['done'])]
check('C19', 'model_checking', '0-3 chunks of 64 bytes in each input format, every set of optional arrays; any one OpenCL call failing; every cache state listed per job; 0-2 platforms of up to 2 devices; files of up to 4 bytes (thorough 6) for the embedding tool', clh,
      assumptions=['OpenCL is a model of its C API (27 functions: objects with reference counts, argument checks, kernel launches that run the real kernel compiled for the host); the C++ bindings are the real ones', 'standard streams are stand-ins: one in-memory file with controllable failures'],
      outside='vendor OpenCL implementations; more than 3 chunks; concurrent use of the cache file; OpenCL calls from several threads')
c20 = []
for impl in (0, 1):
    nm, c = 'opt' if impl else 'sw', dict(impl=impl, chk=64, need=['economy'])
    c20 += [J('%s 1 block' % nm, 'comp', t=30, nsym=1, bound='every 8-byte input', **c),
            J('%s 2 blocks' % nm, 'comp', t=45, nsym=2, free=1 if impl else 3, bound='two blocks, the low bytes free', **c),
            J('%s 2 blocks all' % nm, 'comp', t=300, j=3, nsym=2, tiers='t', bound='every 16-byte input (search)', **c),
            J('%s letters' % nm, 'comp', t=60, nsym=2 if impl else 3, letters=3, free=1, allblocks=1, bound='%s blocks, each one of three contents with the last byte free' % ('two' if impl else 'three'), **c),
            J('%s orders' % nm, 'comp', t=40, nsym=6 if impl else 5, letters=4, free=0, allblocks=1, bound='%d blocks over four contents (data, other data, mixed halves, zeros)' % (6 if impl else 5), **c),
            J('%s after 130 equal blocks' % nm, 'comp', t=40, pre=130, kind=2, nsym=3, letters=3, free=0, bound='three blocks after a run of 130 equal ones', **c)]
    for pre in (4, 70, 340):
        for k in (range(9) if pre == 340 else (3, 5, 7)):
            c20.append(J('%s pre%d k%d' % (nm, pre, k), 'comp', t=40, pre=pre, kind=k, nsym=1, free=1 if impl else 2, args=BIG, tiers='qt' if pre == 340 or k == 5 else 't', bound='%d concrete blocks of kind %d, then a block with its low byte(s) free' % (pre, k), **c))
    for k in (0, 2, 5, 7, 8):
        c20.append(J('%s every block k%d' % (nm, k), 'comp', t=40, pre=600, kind=k, nsym=1, free=0, allblocks=1, args=BIG, tiers="qt" if k in (2, 5, 8) else "t", bound='each of 600 concrete blocks', **c))
    f = {} if impl else dict(base=70)
    c20 += [J('%s recall 8' % nm, 'comp', t=60, pre=340, kind=0, nsym=1, recall=9 if impl else 4, fork=1, free=0, args=BIG, bound='any (sw: one of 16) earlier blocks repeated', **f, **c),
            J('%s recall 4' % nm, 'comp', t=60, pre=340, kind=0, nsym=1, recall=9 if impl else 4, fork=1, parts=2, pmask=2, free=0, args=BIG, bound='a half of an earlier block', **f, **c),
            J('%s recall 2' % nm, 'comp', t=60, pre=150, kind=0, nsym=1, recall=8 if impl else 4, fork=1, parts=4, pmask=2, free=0, args=BIG, bound='a quarter of an earlier block', **f, **c),
            J('%s recall mixed' % nm, 'comp', t=60, pre=40, kind=7, nsym=1, recall=4, base=20, fork=1, parts=2, free=0, args=BIG, bound='two halves of earlier blocks', **c),
            J('%s recall edges' % nm, 'comp', t=60, pre=340, kind=0, nsym=1, recall=3, base=80, fork=1, free=0, args=BIG, bound='blocks at a distance around 256', **c)]
check('C20', 'model_checking', 'every 8-byte input; two blocks with 1-3 free bytes; short sequences over four contents; after 4..600 blocks of nine kinds a block with 1-2 free bytes, or made of earlier blocks or parts of them', c20,
      assumptions=[HASHNOTE, "for optsw a word counts as tracked unless a later word of the same size has the same hash under the code's multiplicative hash (10, 11, 10 bits)"], outside='several fully symbolic blocks at once; inputs above 5 KB')
c21 = [J('%d words, %d x op %x, %d ops' % (w, p, o, n), 'hls', t=60, words=w, pre=p, preop=o, nop=n, need=['tokens'], tiers=ti, bound='%d words of 128 bits: %d operations %02x, then every sequence of %d operations, END, anything (or cut)' % (w, p, o, n))
       for w, p, o, n, ti in ((1, 0, 0, 1, 'qt'), (1, 0, 0, 2, 'qt'), (2, 0, 0, 2, 'qt'), (3, 0, 0, 1, 'qt'), (3, 3, 0, 2, 'qt'), (4, 5, 0, 2, 'qt'), (6, 8, 0, 1, 'qt'), (8, 12, 0, 1, 'qt'),
                              (1, 9, 0x19, 2, 'qt'), (1, 24, 0x1c, 2, 'qt'), (2, 10, 0x18, 2, 'qt'), (2, 22, 0x1b, 2, 'qt'), (4, 13, 9, 2, 'qt'), (3, 5, 5, 2, 'qt'), (5, 40, 0x1b, 1, 'qt'), (6, 40, 0x18, 1, 't'))]
c21 += [J('%d words, 3 ops' % w, 'hls', t=600, j=4, words=w, nop=3, need=['tokens'], tiers='t', bound='every sequence of 3 operations') for w in (1, 2)]
c21 += [J('2 words, %d x %x, 2 ops' % (p, o), 'hls', t=60, words=2, pre=p, preop=o, nop=2, need=['tokens'], tiers='t', bound='every position of a word boundary') for p in range(1, 20) for o in (0x19,)]
for _t in range(12, 256):  # every distance from a word boundary: 13 and 5 bits per operation
    _p = next(p for p in range(5) if (_t - 13 * p) % 5 == 0 and 13 * p <= _t) if _t >= 52 or any((_t - 13 * p) % 5 == 0 and 13 * p <= _t for p in range(5)) else None
    if _p is not None:
        c21.append(J('after %d bits' % _t, 'hls', t=60, words=3 if _t < 200 else 4, pre=_p, preop=0x19, pre2=(_t - 13 * _p) // 5, nop=2, need=['tokens'], tiers='qt' if 48 <= _t < 66 or 108 <= _t < 130 or 180 <= _t < 190 else 't', bound='every sequence of 2 operations after %d bits' % _t))
check('C21', 'model_checking', 'streams of 1..8 words: up to 40 equal operations (six kinds) followed by every sequence of up to 2 operations with all parameters, complete or cut, any bits after the end', c21,
      assumptions=['the Xilinx ap_uint and hls::stream types are stand-ins written for this check (harness/fake/hls)'], outside='the unfinished hw842_decompress (never compiled), timing and pipelining of the synthesised circuit')

cu = [J('%d ops' % o, 'fullcuda', t=600, j=jj, tiers=ti, nop=o, need=['done'], bound='every valid stream of up to %d operations' % o) for o, jj, ti in ((1, 1, 'qt'), (2, 1, 'qt'), (3, 4, 't'))]
cu += [J('pre%d %d ops%s' % (p, o, ' of %x' % po if po else ''), 'fullcuda', t=600 if o > 1 else 120, j=2 if o > 1 else 1, pre=p, nop=o, preop=po, fill=p >= 64, tiers=ti, need=['done'] + ([] if p + o < 128 else ['full chunk']), bound='%d operations %02x, then every valid sequence of up to %d operations' % (p, po, o))
       for p, o, po, ti in ((1, 2, 0, 'qt'), (7, 1, 0, 'qt'), (8, 1, 0, 'qt'), (63, 1, 0, 'qt'), (64, 1, 0, 'qt'), (65, 1, 0, 'qt'), (66, 2, 0, 't'), (126, 1, 0, 'qt'), (90, 1, 0, 'qt'), (126, 2, 0, 't'), (127, 1, 0, 'qt'), (128, 1, 0, 'qt'), (40, 1, 25, 'qt'), (100, 1, 28, 'qt'), (127, 1, 25, 'qt'), (3, 2, 25, 't'), (12, 2, 28, 'qt'))]
cu += [J('pre%d of %x, every offset' % (p, po), 'fullcuda', t=60, pre=p, preop=po, nop=1, tiers='t', need=['done']) for po in (0, 25, 28) for p in range(2, 128, 5)]
cu += [J('%d chunks, %d per block, chunk %d' % (n, bd, c), 'fullcuda', t=60, n=n, bd=bd, c=c, nop=1, pre=2, need=['done'], bound='%d chunks in blocks of %d threads' % (n, bd)) for n, bd, c in ((3, 1, 1), (4, 2, 3), (6, 3, 4), (2, 2, 0))]
check('C22', 'model_checking', 'one chunk: every valid stream of up to 2 operations (3 thorough), and every valid operation after 1..128 fixed ones (2 operations at some positions); 2-6 chunks in blocks of 1-3 threads', cu, assumptions=['inline PTX is translated instruction by instruction to C++ with the semantics of the PTX ISA (ptx.py); the C++ part is executed unoptimised', 'registers start with a fixed pattern'], outside='nvcc and GPU execution (memory ordering between an inline PTX load and earlier stores of the same thread); invalid streams; LIB842_CUDA_STRICT off')

nu = [J('%d nodes %d cpus %d threads' % (n, c, nt), 'numa', t=tt, j=jj, tiers=ti, nodes=n, cpus=c, nt=nt, stride=st, rounds=r, need=['spread', 'no usable node'], bound='%d threads, every assignment of %d CPUs (numbered 0, %d, ...) to %d nodes or offline, every set of usable nodes, %d call(s)' % (nt, c, st, n, r))
      for n, c, nt, st, r, tt, jj, ti in ((1, 3, 3, 1, 1, 30, 1, 'qt'), (2, 4, 3, 1, 2, 60, 1, 'qt'), (2, 3, 5, 8, 1, 60, 1, 'qt'), (3, 4, 7, 1, 1, 60, 1, 'qt'), (3, 4, 2, 100, 1, 60, 1, 'qt'), (3, 3, 8, 400, 2, 60, 1, 'qt'), (4, 4, 8, 3, 1, 120, 2, 'qt'), (3, 5, 4, 1, 1, 120, 2, 'qt'), (4, 5, 6, 60, 1, 300, 2, 't'), (3, 6, 8, 1, 2, 300, 2, 't'), (2, 8, 5, 100, 1, 300, 2, 't'), (4, 6, 3, 8, 1, 600, 4, 't'))]
nu += [J('%d nodes %d apart' % (n, ns), 'numa', t=60, nodes=n, nstride=ns, cpus=cp, nt=4, stride=5, need=['spread', 'no usable node'], bound='nodes numbered 0, %d, ...' % ns) for n, ns, cp in ((2, 63, 3), (3, 64, 3), (3, 450, 3))]
nu += [J('no threads', 'numa', t=30, nodes=3, cpus=3, nt=0, need=['spread', 'no usable node'], bound='no threads at all'), J('no NUMA', 'numa', t=30, nodes=2, cpus=3, nt=3, rounds=2, avail=0, need=['no NUMA'], bound='numa_available() fails')]
nu += [J('pinning %d fails' % f, 'numa', t=60, nodes=3, cpus=3, nt=5, failat=f, need=['pinning fails'], bound='the %d. pinning call fails' % f) for f in (1, 2, 3, 5)]
nu += [J('%s stream, %d threads, %d cpus' % ('decompression' if d else 'compression', nt, c), 'numa', t=120, j=2, tiers=ti, nodes=2, cpus=c, nt=nt, mode=1, dec=d, need=['spread', 'default policy'], bound='constructor of the stream with either thread policy, %d threads, %d CPUs on 2 nodes, every schedule within the preemption bound' % (nt, c)) for d in (0, 1) for nt, c, ti in ((1, 2, 'qt'), (2, 2, 'qt'), (2, 3, 't'))]
check('C23', 'model_checking', 'up to 8 threads on machines with 1-4 NUMA nodes and 1-5 CPUs (8 thorough) in any arrangement, with gaps of up to 400 between CPU and 450 between node numbers', nu,
      assumptions=['the kernel and libnuma are the stand-ins in harness/h_numa.cpp: a set without an online CPU is refused with EINVAL, nodes and masks are reported as libnuma documents', 'the file is compiled with LIB842_HAVE_NUMA'], outside='more than 1024 CPUs; a process restricted by a CPU set to a part of a node; CPUs going on- or offline while the program runs')

# C24: the switches in the sources, set in a private copy of the tree (run.py: cfg:NAME=VALUE, NAME= for undefined)
def cfg(spec, ocl=False):
    return [('src/ocl/decompress.cl', CLF, 'cfg:%s;cl' % spec)] if ocl else ['src/serial/*.c', ('src/serial_optimized/*.cpp', (), 'cfg:' + spec)]


for _n, _s in (('bf', 'BRANCH_FREE=1'), ('bfn', 'BRANCH_FREE=1,ENABLE_ERROR_HANDLING='), ('ne', 'ENABLE_ERROR_HANDLING='), ('ns', 'LIB842_CUDA_STRICT='), ('nc', 'DISABLE_CRC=1')):
    _f = ('-DREF_CRCLESS',) if _n == 'nc' else ()
    TARGETS['dec_' + _n] = {'harness': [('h_dec.c', _f)], 'src': cfg(_s), 'bcflags': HASH}
    TARGETS['comp_' + _n] = {'harness': [('h_comp.c', _f)], 'src': cfg(_s), 'bcflags': HASH}
    for _t in ('dec_', 'comp_'):
        TARGETS['raw' + _t + _n] = dict(TARGETS[_t + _n], raw=True)
TARGETS['ocl_ne'] = {'harness': [('h_ocl.c', ('-DREF_CRCLESS',))], 'src': cfg('ENABLE_ERROR_HANDLING=,USE_LOOKAHEAD_BUFFER=,DISABLE_CRC=1', True)}
TARGETS['ocl_nl'] = {'harness': ['h_ocl.c'], 'src': cfg('USE_LOOKAHEAD_BUFFER=', True)}
TARGETS['stream_tr'] = dict(TARGETS['stream'], flags=tuple(TARGETS['stream'].get('flags', ())) + ('-DLIB842_STREAM_INDEPTH_TRACE',))


for _t in ('ocl_ne', 'ocl_nl'):
    TARGETS['raw' + _t] = dict(TARGETS[_t], raw=True)


def variant(js, nm, pick, drop=(), **extra):
    return [dict(j, name=nm + ' ' + j['name'], target=j['target'] + '_' + nm, params=dict(j['params'], **extra)) for j in js if re.search(pick, j['name']) and not re.search('^(%s)$' % '|'.join(drop or ['-']), j['name'])]


_d, _c, _o = dec_jobs(1), [j for j in comp_jobs(1, 16) if 'quick' in j['tiers']], CHECKS['C13']['jobs']
b24 = [dict(j, t=min(j['t'], 30) if 'quick' in j['tiers'] else j['t']) for j in variant(_d, 'bf', '.', ('opt pre255', 'opt t12 cap0'))] + [dict(j, name=j['name'] + ' raw', t=30) for j in raw(variant(_d, 'bf', 't8$|pre1$|pre65$'))]
for _n in ('ne', 'bfn'):
    b24 += [dict(j, t=30) for j in variant([j for j in _d if j['params'].get('tail', 0) % 8 == 0], _n, 'opt (t8|t16|2op|any repeat|pre(1|64|257|8192))$', mode=1)]
b24 += variant(_d, 'nc', 'opt (t4|t8|t12|t16|2op|any repeat|pre(1|64|257))$')
b24 += variant(_c, 'bf', '.', ('opt pre1 f4',))
for _n in ('ns', 'nc'):
    b24 += variant(_c, _n, 'opt (empty|1 block|pre4 f2|pre40 k.|pre300 k3|pre256 k0|64K|recall i4|recall halves|recall templates|recall template twice|runs)$', **({'plain': 1} if _n == 'ns' else {}))
b24 = [dict(j, params=dict(j['params'], chk=j['params']['chk'] | 1)) if 'chk' in j['params'] else j for j in b24]
_o = [j for j in _o if j['target'] == 'rawocl' and 'quick' in j['tiers']]
b24 += [dict(j, need=[]) for j in variant([j for j in _o if not j['params'].get('mode')], 'ne', '.', valid=1)] + variant(_o, 'nl', '.')
for _p, _q in (('comp', 'C14'), ('dec', 'C15')):
    b24 += [dict(j, name='%s %s' % (_p, j['name'])) for j in variant(CHECKS[_q]['jobs'], 'tr', '^(n1 nb3|n2 nb2|n2 nb3 err|n2 nb2 cancel|n2 ops2|n1 ops2 err|n1 chunks)$')]
b24 += [j for j in variant(CHECKS['C16']['jobs'], 'tr', '^(comp|dec) (destroy|destroy second op|spurious|ready)$')]
check('C24', 'model_checking', 'one switch changed at a time; per switch: every stream of up to 16 bytes, of 2 operations, of one operation after 1..8192 literal blocks and around a repeat of 64 blocks; compressor inputs as in C02 (empty, a symbolic block after up to 300 blocks, recalled words, runs, 64 KiB); OpenCL kernel streams as in C13; traced streams with 1-2 threads and up to 3 blocks', b24, assumptions=[HASHNOTE, 'without error handling only valid streams are asserted'], outside='other combinations of switches; the non-strict CUDA format; the kernel without error handling but with look-ahead (it does not compile); the texts the tracing prints')
