from engine import Harness as H, VERIF, REPO, DEFS
ENV = ["arch clock, memory, CPU and OS randomness replaced by stubs returning any value their contract allows"]
CHECKS = {}
KISSAT = ["--external-sat-solver", "kissat"]

HEALTH = ["src/jitterentropy-health.c", "arch/jitterentropy-arch-atomic.c"]


def health(pid, part, extra):
    hs = [H("step", "health.c", "h_step", HEALTH, defines=["PART=" + part], unwind=12, solver=KISSAT)]
    if part != "P_STUCK":
        hs.append(H("cutoffs", "health.c", "h_cutoffs", HEALTH, defines=["PART=" + part], unwind=12, solver=KISSAT))
        if part == "P_APT":
            hs.append(H("stepdup", "health.c", "h_stepdup", HEALTH, defines=["PART=" + part], unwind=12, solver=KISSAT))
        hs.append(H("dup", "health.c", "h_dup", HEALTH, defines=["PART=" + part], unwind=12, solver=KISSAT))
    else:
        hs.append(H("two", "health.c", "h_two", HEALTH, defines=["PART=" + part], unwind=12, solver=KISSAT))
        hs.append(H("timestamp", "health.c", "h_timestamp", HEALTH, defines=["PART=" + part], unwind=12, solver=KISSAT))
    CHECKS[pid] = dict(harnesses=hs, **extra)


for _i, _p in (("C04", "P_RCT"), ("C05", "P_APT"), ("C06", "P_LAG"), ("C07", "P_MEM"), ("C08", "P_STUCK")):
    health(_i, _p, dict(functions=["jent_stuck", "jent_health_init"], bounds="one sample, any state"))
SHA3 = ["src/jitterentropy-sha3.c"]


def blist(a):
    """second lengths: nothing, a little, around the end of the block in progress and of the next ones"""
    return sorted({b for b in (0, 1, 135 - a, 136 - a, 137 - a, 136, 271 - a, 272 - a, 272) if b >= 0})


CHECKS["C11"] = dict(harnesses=[
    H("perm", "keccak.c", "h_perm", SHA3, unwind=30, hunwind=300, solver=KISSAT, stdchecks=False, replay="native"),
] + [
    H("sponge-%d" % a, "keccak.c", "h_sponge", SHA3, unwind=30, hunwind=500, stdchecks=False, soft_drop=["jent_keccakp_1600"],
      defines=["A_LIST=%d" % a, "B_LIST=" + ",".join(map(str, blist(a)))], tier="quick" if a in (0, 1, 3, 8, 12, 65, 71, 100, 127, 128, 134, 135, 136, 137) else "thorough",
      bounds="first update of %d bytes, second of %s bytes, any content" % (a, ", ".join(map(str, blist(a))))) for a in range(0, 138)
])
CHECKS["C12"] = dict(harnesses=[H("drbg", "drbg.c", "h_drbg", SHA3, drop=["jent_sha3_update", "jent_sha3_final"], unwind=30, hunwind=110)])

BASE = ["src/jitterentropy-base.c", "src/jitterentropy-timer.c", "src/jitterentropy-health.c", "src/jitterentropy-noise.c", "arch/jitterentropy-arch-atomic.c"]
READ = dict(srcs=BASE, drop=["jent_random_data"], unwind=6, max_unwind=12, hunwind=110)
CHECKS["C01"] = dict(harnesses=[H("read", "read.c", "h_read", defines=["PART=P_READ"], **READ)])
CHECKS["C02"] = dict(harnesses=[H("health", "read.c", "h_health", defines=["PART=P_HEALTH"], **READ)])
CHECKS["C03"] = dict(harnesses=[H("self", "read.c", "h_self", defines=["PART=P_SELF"], **READ), H("selftest", "read.c", "h_selftest", defines=["PART=P_SELF"], **READ)])
CHECKS["C02"]["harnesses"] += [H("step", "health.c", "h_step", HEALTH, defines=["PART=P_STUCK"], unwind=12, solver=KISSAT),
                               H("cutoffs", "health.c", "h_cutoffs", HEALTH, defines=["PART=P_STUCK"], unwind=12, solver=KISSAT)]
GEN = dict(srcs=["src/jitterentropy-noise.c", "src/jitterentropy-health.c", "arch/jitterentropy-arch-atomic.c"],
           drop=["jent_measure_jitter", "jent_measure_jitter_ntg1_memaccess", "jent_measure_jitter_ntg1_sha3"])
CHECKS["C02"]["harnesses"].append(H("genfail", "gen.c", "h_fail", unwind=9, max_unwind=20, **GEN))


def cnt(f, s, lo, hi, bits, tier, uw):
    return H("count-fips%d-stage%d-osr%d-%d-bits%d" % (f, s, lo, hi, bits), "gen.c", "h_count", unwind=uw, max_unwind=uw * 2, hunwind=20, tier=tier, stdchecks=False, objbits=18,
             defines=["FIPS=%d" % f, "ST=%d" % s, "OSRLO=%d" % lo, "OSRHI=%d" % hi, "NBITS=%d" % bits], timeout=3000,
             bounds="oversampling rate %d to %d, stuck results at %d positions" % (lo, hi, bits), **GEN)


CHECKS["C09"] = dict(harnesses=[cnt(f, s, 3, 3, 1 if f and s == 2 else 2, "quick", 985) for f in (0, 1) for s in (0, 1, 2)] +
                     [cnt(f, s, o, o, 0, "quick", 330 * o) for f, s, o in ((0, 0, 4), (1, 0, 4))] +
                     [cnt(f, s, 3, 3, 4, "thorough", 985) for f in (0, 1) for s in (0, 1, 2)] +
                     [cnt(f, s, o, o, 1, "thorough", 330 * o) for f in (0, 1) for s in (0, 1, 2) for o in range(4, 21)])
CHECKS["C09"]["harnesses"].append(H("target", "gen.c", "h_target", defines=["TARGET=1"], unwind=9, max_unwind=20, bounds="every oversampling rate, mode and stage; the target count only", **GEN))
CHECKS["C09"]["harnesses"] += [H("scaled-fips%d-stage%d" % (f, s), "gen.c", "h_scaled", base_defs=DEFS + ["-include", VERIF + "/lib/scaled.h"], defines=["SCALED=3", "FIPS=%d" % f, "ST=%d" % s], stdchecks=False,
                                 unwind=66, max_unwind=66, hunwind=20, soft_vacuous="the block size is not taken from the header", bounds="every oversampling rate, three stuck measurements anywhere; block size scaled to 2 bits (3 in FIPS mode)", **GEN) for f in (0, 1) for s in (0, 1, 2)]
NOISE = dict(srcs=["src/jitterentropy-noise.c"], drop=[], hunwind=140)
CHECKS["C10"] = dict(harnesses=[H("measure-%s-gcd%d" % (w, g), "noise.c", "h_measure", defines=["WHICH=" + w, "GCD=%d" % g], unwind=18, max_unwind=72, solver=KISSAT, **NOISE)
                                for w in ("W_JITTER", "W_SHA3", "W_MEM") for g in (1, 3)] +
                     [H("hash-loops", "noise.c", "h_hloops", defines=["NOWIPE"], stdchecks=False, unwind=400, max_unwind=800, **NOISE)] +
                     [H("measure-%s-gcd%d" % (w, g), "noise.c", "h_measure", defines=["WHICH=" + w, "GCD=%d" % g], unwind=18, max_unwind=72, solver=KISSAT, tier="thorough", **NOISE)
                      for w in ("W_JITTER", "W_SHA3", "W_MEM") for g in (7, 10, 100)])
CHECKS["C20"] = dict(harnesses=[H("mem-%s" % w, "noise.c", "h_mem", defines=["WHICH=" + w], unwind=18, max_unwind=72, **NOISE) for w in ("W_JITTER", "W_MEM")] +
                     [H("spread", "noise.c", "h_spread", defines=["LOOPS=5"], unwind=18, max_unwind=72, solver=KISSAT, **NOISE)] +
                     [H("touch", "noise.c", "h_touch", unwind=18, max_unwind=72, **NOISE)] +
                     [H("loops", "noise.c", "h_loops", unwind=400, max_unwind=800, **NOISE)])
CORE = ["src/jitterentropy-base.c", "src/jitterentropy-timer.c", "src/jitterentropy-health.c", "arch/jitterentropy-arch-atomic.c"]
ALLOC = dict(srcs=CORE, drop=["jent_entropy_init_ex", "jent_time_entropy_init"], unwind=4, max_unwind=64, hunwind=40,
             unwindset=[("jent_log2_simple", 34), ("jent_health_failure_reset", 20), ("jent_lag_duplicate", 9)])
ALLOCM = dict(ALLOC, drop=ALLOC["drop"] + ["jent_memsize"])
CHECKS["C15"] = dict(harnesses=[H("alloc", "alloc.c", "h_alloc", defines=["PART=P_ALLOC"], **ALLOCM), H("free-null", "alloc.c", "h_free_null", defines=["PART=P_ALLOC"], **ALLOCM)])
CHECKS["C13"] = dict(harnesses=[H("size", "alloc.c", "h_size", defines=["PART=P_SIZE", "MAXFAIL=0"], **ALLOC)])
SAFE = dict(ALLOC, drop=ALLOCM["drop"] + ["jent_read_entropy"])


def safe(name, defs, tier="quick", nec=2):
    return H("safe-" + name, "alloc.c", "h_safe", defines=["PART=P_SAFE", "MAXFAIL=0", "RDMAX=%d" % (nec - 1), "W_NEC=%d" % nec] + defs, tier=tier, **SAFE)


for _p, _n in (("C04", 1), ("C05", 2), ("C06", 3), ("C07", 4), ("C03", 5)):
    CHECKS[_p]["harnesses"].append(safe("carried", ["ONLY=%d" % _n]))
    if _n < 5:
        CHECKS[_p]["harnesses"].append(H("mode-alloc", "alloc.c", "h_alloc", defines=["PART=P_ALLOC", "MAXFAIL=0", "ONLY=%d" % _n], **ALLOCM))
        CHECKS[_p]["harnesses"].append(H("mode-startup", "gen.c", "h_mode", defines=["ONLY=%d" % _n], unwind=9, max_unwind=20, **GEN))
CHECKS["C14"] = dict(harnesses=[
    safe("served", []), safe("served-timer", ["TIMER=1"]), safe("served-nomem", ["NOMEM=1"]), safe("permanent", ["LATER=JENT_ERR_RCT_PERMANENT"]),
    safe("selftest", ["LATER=JENT_ERR_SELFTEST"]),
    safe("twice", ["LATER=JENT_ERR_APT,5"], "thorough", 3),
    H("safe-args", "alloc.c", "h_safe_args", defines=["PART=P_SAFE"], **SAFE)])
INIT = dict(srcs=CORE, drop=["jent_time_entropy_init", "jent_memsize"], unwind=4, max_unwind=64, hunwind=40,
            unwindset=[("jent_log2_simple", 34), ("jent_health_failure_reset", 20), ("jent_lag_duplicate", 9)])
CHECKS["C17"] = dict(harnesses=[H("init", "init.c", "h_init", **INIT),
                                H("gate2", "init.c", "h_gate", defines=["NOPS=2"], **INIT),
                                H("gate3", "init.c", "h_gate", defines=["NOPS=3"], **INIT),
                                H("gate5", "init.c", "h_gate", defines=["NOPS=5"], tier="thorough", timeout=3000, **INIT)])
CHECKS["C28"] = dict(harnesses=[H("latch", "init.c", "h_latch", defines=["NOPS=3"], **INIT),
                                H("latch5", "init.c", "h_latch", defines=["NOPS=5"], tier="thorough", **INIT)])


def tinit(name, defs, tier="quick"):
    return H("tinit-" + name, "tinit.c", "h_tinit", srcs=CORE, drop=["jent_memsize"], unwind=4, max_unwind=2500, hunwind=40, tier=tier, stdchecks=False,
             unwindset=[("jent_log2_simple", 34), ("jent_time_entropy_init", 4 if "FAULTS=1" in defs else 1130)], defines=list(defs))


CHECKS["C18"] = dict(harnesses=[tinit("stuck", ["BASE=919"]), tinit("backwards", ["BACK=2"]), tinit("plain", []), tinit("internal", ["INTERNAL=1", "BASE=921", "BACK=1"]),
                                tinit("fips", ["FLAGS=JENT_FORCE_FIPS", "OSR=7", "BASE=920", "BACK=3"]),
                                tinit("ntg1", ["FLAGS=JENT_NTG1", "OSR=20", "BASE=890", "BACK=1"], "thorough"),
                                tinit("nomem", ["FLAGS=JENT_DISABLE_MEMORY_ACCESS", "OSR=3", "BASE=10", "BACK=4"], "thorough"),
                                tinit("faults", ["FAULTS=1"]), tinit("faults-internal", ["FAULTS=1", "INTERNAL=1"])])
GCD = dict(srcs=["src/jitterentropy-gcd.c", "arch/jitterentropy-arch-atomic.c"], unwind=14, max_unwind=56, hunwind=40)


def gcd(n, shift, maxk, twice=0, tier="quick"):
    return H("analyze-n%d-shift%d-max%d%s" % (n, shift, maxk, "-twice" if twice else ""), "gcd.c", "h_analyze", solver=KISSAT, tier=tier,
             defines=["N=%d" % n, "SHIFT=%d" % shift, "MAXK=%d" % maxk, "TWICE=%d" % twice], **GCD)


CHECKS["C19"] = dict(harnesses=[gcd(3, 0, 15), gcd(2, 0, 31), gcd(2, 27, 15), gcd(2, 30, 7), gcd(2, 31, 3), gcd(2, 40, 7), gcd(2, 0, 7, 1), H("limit", "gcd.c", "h_limit", **GCD), H("selftest", "gcd.c", "h_selftest", **GCD)])
CHECKS["C27"] = dict(harnesses=[H("gcd", "gcd.c", "h_threads", defines=["THREADS=1"], **dict(GCD, srcs=["src/jitterentropy-gcd.c"]))])
MEMDEF = ["-D%s=vp_%s" % (f, f) for f in ("mmap", "munmap", "mprotect", "mlock", "munlock", "madvise", "sysconf", "memset")]
MEM = dict(srcs=["arch/jitterentropy-arch-memory.c"], unwind=8, max_unwind=512, hunwind=100)
CRY = ["-I" + VERIF + "/lib/crypto"]
MEMB = [("posix", 0, dict(base_defs=MEMDEF)), ("gcrypt", 1, dict(base_defs=["-DLIBGCRYPT", "-Dmemset=vp_memset"], inc=CRY)),
        ("openssl", 2, dict(base_defs=["-DOPENSSL", "-Dmemset=vp_memset"], inc=CRY)), ("awslc", 3, dict(base_defs=["-DAWSLC", "-Dmemset=vp_memset"], inc=CRY)),
        ("baremetal", 4, dict(base_defs=["-DJENT_BAREMETAL", "-Dmalloc=vp_malloc", "-Dfree=vp_free", "-Dmemset=vp_memset"]))]
# the wiping itself is decided by wipe-*, the others abstract it
CHECKS["C16"] = dict(harnesses=[H("%s%s" % (n, "-page%d" % g if g else ""), "mem.c", "h_mem", defines=["BACKEND=%d" % b] + (["PAGE=%d" % g] if g else []), drop=["jent_memset_secure"], **dict(MEM, **k))
                                for n, b, k in MEMB for g in ((64, 4096) if not b else (0,))] +
                     [H("wipe-" + n, "mem.c", "h_wipe", defines=["BACKEND=%d" % b, "WIPE=1"], **dict(MEM, unwind=90, max_unwind=180, **k)) for n, b, k in MEMB])
RND = dict(srcs=["arch/jitterentropy-arch-random.c"], unwind=16, hunwind=40)
RNDDEF = ["-D%s=vp_%s" % (f, f) for f in ("open", "read", "close", "getrandom")]
CHECKS["C24"] = dict(harnesses=[
    H("getrandom", "rnd.c", "h_random", base_defs=RNDDEF, defines=["POSIX=1", "NCALLS=8", "ONLYDEV=0"], **RND),
    H("device", "rnd.c", "h_random", base_defs=RNDDEF + ["-D__ANDROID__=1", "-D__ANDROID_API__=21"], defines=["POSIX=1", "NCALLS=8", "ONLYDEV=1"], **RND),
    H("none", "rnd.c", "h_none", base_defs=["-DJENT_BAREMETAL"], **RND)])
CHECKS["C22"] = dict(harnesses=[H("generate", "uuid.c", "h_uuid", srcs=["src/jitterentropy-uuid.c"], unwind=40, hunwind=50),
                                H("get", "uuid.c", "h_uuid_get", srcs=["src/jitterentropy-status.c"], unwind=40, hunwind=50)])
STAT = dict(srcs=["src/jitterentropy-status.c"], base_defs=DEFS + ["-Dsnprintf=vp_snprintf", "-Dvsnprintf=vp_vsnprintf", "-Dstrlen=vp_strlen"],
            unwind=2400, max_unwind=2400, hunwind=2400, stdchecks=False, opts=["--max-field-sensitivity-array-size", "400"])
CHECKS["C21"] = dict(harnesses=[H("values", "status.c", "h_values", defines=["SIZE=200"], **STAT)] +
                     [H("room-%d" % l, "status.c", "h_room", defines=["LO=%d" % l, "HI=%d" % h, "SIZE=380"], **STAT) for l, h in ((1, 8), (46, 49), (50, 53))] +
                     [H("room-null", "status.c", "h_room_null", **STAT)])
DISCDEF = DEFS + ["-D%s=vp_%s" % (f, f) for f in ("snprintf", "vsnprintf", "open", "read", "close", "sysconf", "strstr", "strchr", "strncmp", "memset", "strtol")]
DISC = dict(srcs=["arch/jitterentropy-arch-cache.c", "arch/jitterentropy-arch-fips.c", "arch/jitterentropy-arch-atomic.c"], base_defs=DISCDEF, unwind=5, max_unwind=40, hunwind=70, opts=["--max-field-sensitivity-array-size", "1300"])


def walk(c, i, intr, tier="quick"):
    return H("cache-walk-%dx%d-intr%d" % (c, i, intr), "disc.c", "h_walk", defines=["NCPU=%d" % c, "NIDX=%d" % i, "INTR=%d" % intr, "ZEROS=0"], tier=tier, stdchecks=False, unwindset=[("vp_strtol", 5), ("__isoc23_strtol", 5), ("vp_strstr", 6)], **DISC)


CHECKS["C23"] = dict(harnesses=[walk(1, 1, 2), walk(2, 2, 0), walk(1, 4, 0), walk(3, 2, 0, "thorough"),
                                H("cache-size", "disc.c", "h_size", defines=["INTR=0", "ZEROS=0"], stdchecks=False, unwindset=[("vp_strtol", 8), ("__isoc23_strtol", 8), ("vp_strstr", 9), ("wellformed", 8)], **DISC), H("cache-level", "disc.c", "h_level", defines=["INTR=0", "ZEROS=0"], stdchecks=False, **DISC),
                                H("cache-type", "disc.c", "h_type", defines=["INTR=0", "ZEROS=0"], stdchecks=False, **DISC)] +
                     [H("cache-long-%d" % z, "disc.c", "h_long", defines=["INTR=0", "ZEROS=%d" % z], stdchecks=False, **DISC) for z in (0, 1)] +
                     [H("cache-huge", "disc.c", "h_huge", defines=["INTR=0", "ZEROS=0"], stdchecks=False, **DISC)] +
                     [H("fips", "disc.c", "h_fips", defines=["INTR=0", "ZEROS=0"], stdchecks=False, **DISC)])
CPUDEF = DEFS + ["-D%s=vp_%s" % (f, f) for f in ("sched_getaffinity", "sched_setaffinity", "sysconf", "open", "read", "close", "strtol",
                 "pthread_attr_init", "pthread_attr_destroy", "pthread_create", "pthread_join")]
SYSH = ["-I" + VERIF + "/lib/sys"]


def ncpu(mode, high, kw=1, sysfs=0, tier="quick"):
    return H("ncpu-%s-%s-%dwords%s" % ("highest" if high else "count", ("mask", "error", "toolarge", "nomem")[mode], kw, "-sysfs" if sysfs else ""), "cpu.c", "h_ncpu", srcs=["arch/jitterentropy-arch-ncpu.c"],
             base_defs=CPUDEF + (["-DVP_NOGLIBC"] if sysfs else []), inc=SYSH, unwind=16, max_unwind=600, hunwind=70, defines=["KW=%d" % kw, "SYSFS=%d" % sysfs, "MODE=%d" % mode, "HIGH=%d" % high] + (["MASKBITS=0xf00000018000000fULL"] if kw > 1 else []),
             stdchecks=False, unwindset=[("jent_affinity_mask", 66 if kw == 1 else 258), ("vp_strtol", 8), ("__isoc23_strtol", 8), ("list", 8), ("jent_ncpu_parse_online", 5)], tier=tier)


CHECKS["C23"]["harnesses"] += [ncpu(m, h) for h in (0, 1) for m in (0, 1, 2, 3)] + [ncpu(0, h, 3) for h in (0, 1)] + [ncpu(3, h, 1, 1) for h in (0, 1)]
THR = dict(srcs=["arch/jitterentropy-arch-thread.c"], base_defs=CPUDEF, inc=SYSH, unwind=14, max_unwind=56, hunwind=70)
CHECKS["C29"] = dict(harnesses=[H("thread", "cpu.c", "h_thread", **THR), H("pin", "cpu.c", "h_pin", **THR)] +
                     [H("pin-%d" % c, "cpu.c", "h_pin", defines=["CPU=%d" % c], **THR) for c in (64, 127, 128, 200)] +
                     [H(n, "cpu.c", "h_" + n, defines=["TIMER=1"], **dict(THR, srcs=THR["srcs"] + ["src/jitterentropy-timer.c", "arch/jitterentropy-arch-atomic.c"])) for n in ("tick", "custom")])
KDEF = ["-DLINUX_KERNEL", "-DCONFIG_PROC_FS=1", "-DCONFIG_DEBUG_FS=1"] + ["-DCONFIG_EXTERNAL_JITTERENTROPY_%s=1" % x for x in ("CHARDEV", "HWRNG", "KCAPI", "TESTINTERFACE")]
KSRC = ["linux_kernel/jitterentropy_%s.c" % x for x in ("chardev", "hwrng", "kcapi", "selftest", "ioctl")]
KERN = dict(srcs=KSRC, base_defs=KDEF, inc=["-I" + VERIF + "/lib/k", "-I" + REPO + "/linux_kernel"], unwind=6, max_unwind=48, hunwind=80)


def kern(name, entry, iface, *defs, tier="quick", **kw):
    return H("%s-%s" % (name, iface.lower()), "kern.c", entry, defines=["IFACE=" + iface, "INTERVAL=%d" % kw.pop("interval", 7), "VERBOSE=%d" % kw.pop("verbose", 0)] + {"CHARDEV": ["DEV=1"], "HWRNG": ["NOSTART"], "KCAPI": ["NOLOCKFAIL"]}[iface] + list(defs), tier=tier, **dict(KERN, **kw))


CHECKS["C25"] = dict(harnesses=[kern("read%d" % n, "h_read", "CHARDEV", "LENS=%d" % n, "MAXN=%d" % n, stdchecks=False) for n in (1, 31, 32, 33, 64, 65)] +
                     [kern("read", "h_read", "HWRNG", "MAXN=40", "LENS=0,1,31,32,33,40"), kern("read", "h_read", "KCAPI", "MAXN=40", "LENS=0,1,31,32,33,40")])
CHECKS["C26"] = dict(harnesses=[kern("life", "h_life", i, "CALLFAIL=1") for i in ("CHARDEV", "HWRNG", "KCAPI")] + [kern("life-verbose", "h_life", "KCAPI", "CALLFAIL=1", verbose=1, interval=0)] +
                     [kern("self", "h_self", i) for i in ("CHARDEV", "HWRNG", "KCAPI")] + [kern("interval", "h_interval", "CHARDEV", "NOPANIC")])
CHECKS["C26"]["harnesses"] += [kern("module", "h_module", "CHARDEV", "WANTMOD", "WANTPROC", "CALLFAIL=1", srcs=KSRC + ["linux_kernel/jitterentropy_%s.c" % x for x in ("testing", "mod", "proc")])]
RAWS = KSRC + ["linux_kernel/jitterentropy_testing.c"]
CHECKS["C30"] = dict(harnesses=[kern(n + ("-raw" if r else ""), "h_" + e, "CHARDEV", "RAW=%d" % r, "NOPANIC", srcs=RAWS if r else KSRC, **k) for r in (0, 1)
                                for n, e, k in (("fields", "field", {}), ("status", "status", {}), ("other", "ioctl_other", {}))])
CHECKS["C31"] = dict(harnesses=[kern("read", "h_raw", "CHARDEV", "RAW=1", "NOPANIC", srcs=RAWS), kern("life", "h_rawlife", "CHARDEV", "RAW=1", "CALLFAIL=1", srcs=RAWS)])
PLATI = ["-I" + VERIF + "/lib/plat"]


def plat(name, n, *defs, entry="h_plat", tier="quick", **kw):
    return H(name, "plat.c", entry, srcs=["arch/jitterentropy-arch-atomic.c"], defines=["PLAT=%d" % n] + list(defs), inc=PLATI, tier=tier, **dict(dict(unwind=18, max_unwind=80, hunwind=330, stdchecks=False), **kw))


WINP = dict(unwind=6, max_unwind=6, stdchecks=True)
NOF = ["FW=0", "FP=0", "FL=0xfff", "FS=0"]
CHECKS["C32"] = dict(harnesses=[plat("cpuid", 1, *NOF), plat("cpuid-product", 1, "NSUB=1", "FW=3", "FP=1", "FL=3", "FS=3")] +
                     [plat("cpuid-wide%d" % i, 1, "NSUB=1", "FW=%s" % w, "FP=%s" % q, "FL=%s" % l, "FS=%s" % t) for i, (w, q, l, t) in
                      enumerate([("0x3ff", 0, 0, 0), (0, "0x3ff", 0, 0), (0, 0, "0xfff", 0), (0, 0, 0, "0x3fffffff")])] +
                     [plat("cpuid-long", 1, "NSUB=16", entry="h_long"), plat("kernel-x86", 2, "NCPU=2", "NSUB=1", *NOF), plat("kernel-arm64", 3, "NCPU=2", "FW=3", "FS=3"),
                      plat("kernel-arm64-ways", 3, "FW=0x1fffff", "FS=0", "FN=1"), plat("kernel-arm64-sets", 3, "FW=0", "FS=0xffffff", "FN=1"), plat("apple", 4), plat("windows", 5, **WINP), plat("aix", 6)] +
                     [plat("windows-malformed%d" % i, 5, "SHAPE=%d" % i, **WINP) for i in range(4)] + [plat("windows-fails%d" % i, 5, "FAILS=%d" % i) for i in (1, 2, 4)])


def other(name, n, part, entry, *defs, **kw):
    return H(name, "other.c", entry, srcs=["arch/jitterentropy-arch-atomic.c"], defines=["PLAT=%d" % n, part + "=1"] + list(defs), inc=PLATI + ["-I" + VERIF + "/lib/k"] if n == 6 else PLATI,
             **dict(dict(unwind=8, max_unwind=80, hunwind=80), **kw))


CHECKS["C16"]["harnesses"].append(other("windows", 1, "MEM", "h_mem"))
CHECKS["C24"]["harnesses"] += [other(x, n, "RND", "h_random") for x, n in (("windows", 1), ("macos", 2), ("freebsd", 3), ("kernel", 6))]
CHECKS["C29"]["harnesses"] += [other("pin-" + x, n, "PIN", "h_pin") for x, n in (("macos", 2), ("freebsd", 3), ("netbsd", 4), ("openbsd", 5))]
CHECKS["C29"]["harnesses"].append(other("thread-windows", 1, "PIN", "h_thread", "MASKBITS=0", "NGR=1", "JENT_WIN_THREADS"))
CHECKS["C33"] = dict(harnesses=[other("clock-" + x, n, "CLK", "h_clock", stdchecks=False, solver=KISSAT) for x, n in (("macos", 2), ("kernel", 6), ("generic", 7))])
