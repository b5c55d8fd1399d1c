"""Texts of the properties: the source of properties.jsonl, MANIFEST.json and of
the descriptive part of the evidence files (gen.py writes the first two)."""
P = {}
NA = {}


def prop(pid, title, statement, over, quant, why, files, mech, functions, bounds, note, assumptions=(), observe=(), state=()):
    P[pid] = dict(title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, functions=functions,
                  bounds=bounds, note=note, assumptions=list(assumptions), observe=list(observe), state=list(state))


B, H, N, S = ("src/jitterentropy-base.c", "src/jitterentropy-health.c", "src/jitterentropy-noise.c", "src/jitterentropy-sha3.c")
T = "src/jitterentropy-timer.c"

prop("C01", "A read delivers every requested byte or reports an error",
     "For every collector, buffer and length a successful read returns exactly the requested number of bytes (at most the largest signed size), each of them taken from a freshly generated block of 32 bytes, and writes nothing outside the buffer. Bad arguments are refused without touching anything, and only successful reads count in the collector's usage statistics. A timer that cannot be started makes the read fail without producing output.",
     ["inputs", "fault_sequences"], "all lengths, buffers, collector states, and every outcome of each block's noise collection",
     "the unit tests read a few fixed lengths from healthy collectors; they never vary length together with the block at which something fails",
     [B, T], [("jent_read_entropy: block loop, argument checks, accounting", B), ("jent_notime_settick/unsettick around the loop", T)],
     ["jent_read_entropy", "jent_notime_settick", "jent_notime_unsettick", "jent_health_failure"],
     "lengths up to 96 bytes byte-exact (four blocks), arguments and the refusal paths for every length; block generation stubbed with any outcome",
     "every length in the bound and every failing block; the content of a block is C09 to C12's subject",
     ["block generation is replaced by a stub that may set any health failure and fills a recognisable block"], ["return value, output buffer, status counters"])
prop("C02", "A health failure stops output in FIPS mode, permanent failures forever",
     "In FIPS (and NTG.1) mode a health failure seen during noise collection makes the read fail with the matching error code before any byte of that block is delivered; permanent failures take precedence over intermittent ones. Permanent failures persist: once set, every later read fails the same way and no code path clears them. Outside FIPS mode health failures never fail a read, and a registered callback is told about failures.",
     ["histories", "inputs", "fault_sequences"], "all combinations of failures, at any block, over sequences of reads",
     "tests inject single failures; combinations, precedence and histories of several reads are not sampled",
     [B, H, N], [("jent_health_failure and the error mapping in jent_read_entropy", B), ("failure bits in health_failure", H), ("handling in jent_random_data", N)],
     ["jent_read_entropy", "jent_health_failure", "jent_random_data", "jent_random_data_one"],
     "sequences of two reads of up to 64 bytes, every subset of the eight failure bits at every block",
     "all failure sets and positions in the bound; the tests that raise the failures are C04 to C07",
     ["noise measurements are stubs that may raise any failure"], ["error code, output buffer, callback"])
prop("C03", "A failed self test blocks every output of a collector for good",
     "Once a self test run on a collector has failed, every read of at least one byte from it returns the self test error and delivers nothing, whatever happens before or in between, also after the collector was recovered by reallocation. A passing self test does not clear the verdict, and the self test reports its own result. No other operation sets or clears it.",
     ["histories"], "all sequences of reads, self tests and recoveries",
     "tests set the latch once and read once; they do not combine it with recovery, partial reads or other state",
     [B], [("selftest_failed checked before each block", B), ("jent_selftest", B), ("jent_health_failure_reset carries it over", B)],
     ["jent_read_entropy", "jent_read_entropy_safe", "jent_selftest", "jent_health_failure_reset", "jent_stuck"],
     "two reads of up to 64 bytes; one recovery",
     "two defects found here were repaired (see DESIGN.md)", ["hash self test stubbed with either result"], ["error code of reads"])
for pid, nm, what, kw in (
    ("C04", "Repetition count test", "The repetition count test fails intermittently exactly when the run of consecutive stuck measurements reaches its cutoff (30 times the oversampling rate; an eighth of that, rounded up, in NTG.1 mode), and permanently from the permanent cutoff (twice as much) on; a measurement that is not stuck restarts the count. After a recovery the count continues at the cutoff of the new rate.", "rct"),
    ("C05", "Adaptive proportion test", "The adaptive proportion test counts in each window of 512 measurements how often the first measurement of the window recurs; it fails intermittently when the count reaches the tabulated cutoff for the oversampling rate and permanently from the permanent cutoff on. Windows neither overlap nor skip measurements, a new window starts with the measurement after the last one of the old, and after a recovery the window continues at the cutoff.", "apt"),
    ("C06", "Lag predictor test", "The lag predictor compares each measurement with the one of the last eight that predicted best so far in the window of 131072 measurements, and fails when the successes in the window or the run of consecutive successes reach their tabulated cutoffs, intermittently or permanently. Scores and history are exact for every measurement, the window restarts with nothing carried over, and after a recovery all counters and the history continue.", "lag"),
    ("C07", "Memory repetition test", "In each block of measurements the stuck ones among every third measurement are counted; at the tabulated cutoff the collector gathers ten extra blocks in normal operation before it goes on where it was, exceeding the cutoff during this recovery is an intermittent failure, and reaching the permanent cutoff is a permanent failure. Measurements after the end of the block raise no failure of this test, and the count starts anew with each block.", "mem")):
    prop(pid, nm + " fails exactly at its cutoffs", what, ["inputs", "histories"], "every state of the test and every measurement: one step from any state, hence every history",
         "a test can drive a few sequences of some hundred measurements; the counters, windows and 20 oversampling rates span a state space no suite samples",
         [H], [("jent_stuck and the %s functions" % kw, H), ("jent_health_init: cutoffs", H)], ["jent_stuck", "jent_health_init", "jent_%s_duplicate" % {"mem": "rct_mem"}.get(kw, kw)],
         "one measurement from any state (inductive step); all oversampling rates 3 to 20 for the cutoffs, as in force after allocation, startup stages and recovery",
         "an arbitrary state and one step cover every history of measurements", ["states satisfy the counters' range invariants stated in h/health.c"], ["health failure word, stuck verdict"])
prop("C08", "A measurement is stuck exactly when its first, second or third delta is zero",
     "A measurement counts as stuck exactly when the time delta, or the change of the delta, or the change of that change is zero, for every 64-bit value including wrap-around. An externally supplied time stamp is judged exactly as the equal delta would be, for every timer divisor.",
     ["inputs", "histories"], "all 64-bit deltas and time stamps in any history state",
     "tests try a handful of small deltas, never wrap-around", [H], [("jent_stuck, jent_delta", H), ("jent_health_insert_timestamp", H)], ["jent_stuck", "jent_health_insert_timestamp"],
     "one measurement from any state; divisors 0 and powers of two for time stamps", "complete for the step; division by other divisors is outside (bit-blasted division)", [], ["stuck verdict"])
prop("C09", "Each block is made of enough non-stuck measurements",
     "Every block of output is generated from at least 256 times the oversampling rate non-stuck measurements (plus the 64-bit safety margin in FIPS mode) that all enter the pool. In FIPS/NTG.1 mode startup collects the memory-access noise first, then the hash noise, and only then normal blocks, each with the full number of measurements; a health failure never shortens the count silently.",
     ["inputs", "histories"], "all positions of stuck measurements, oversampling rates and startup states",
     "tests cannot see how many measurements went into a block, and stuck measurements are rare on real hardware",
     [N], [("jent_random_data, jent_random_data_one", N)], ["jent_random_data", "jent_random_data_one"],
     "oversampling rate 3 to 8 quick, to 20 thorough; stuck results at up to 4 symbolic positions", "every pattern in the bound",
     ["measurements are stubs with a symbolic stuck verdict"], ["number and kind of measurements per block"])
prop("C10", "Every measurement enters the entropy pool, and its credit follows the stuck test",
     "Each measurement reads the clock, divides the time delta by the timer's common divisor, hands exactly this delta to the health tests, and absorbs the delta together with the hash loop's intermediate result into the pool. A stuck measurement is absorbed too but reported as not contributing. The hash loop runs as often as configured.",
     ["inputs"], "all clock values, previous states and timer divisors in the bound",
     "the pool content is not observable from tests, and clock values are those of the machine",
     [N], [("jent_measure_jitter, jent_hash_time", N)], ["jent_measure_jitter", "jent_measure_jitter_ntg1_sha3", "jent_measure_jitter_ntg1_memaccess", "jent_hash_time"],
     "any clock value; divisors 1 and 3 (thorough 7, 10, 100)", "the sponge is replaced by a recorder; the sponge itself is C11",
     ["clock stub returns any value"], ["data absorbed, delta tested, return value"])
prop("C11", "The conditioning hash is SHA-3/SHAKE for every message",
     "The hash used for conditioning computes the Keccak permutation of the standard on every 1600-bit state, and its absorption, padding and squeezing produce, for every message and every way of splitting it into updates, what the standard's sponge construction defines for SHA3-256 and for SHAKE256 with the output lengths used. Results do not depend on alignment or on earlier uses of the same state.",
     ["inputs"], "all states of the permutation; all message contents and splits in the bound",
     "known-answer tests sample three messages; an error that depends on a length or a split stays unseen",
     [S], [("jent_keccakp_1600", S), ("jent_sha3_update/_final", S)], ["jent_keccakp_1600", "jent_sha3_update", "jent_sha3_final", "jent_shake256_init"],
     "permutation: every state, round by round; sponge: two updates, the first of selected lengths (thorough: every length) from 0 to 137 bytes, the second nothing, one byte, to the end of the block in progress and of the next ones, one byte off either way, whole blocks", "equivalence with an independent reference",
     [], ["digest"])
prop("C12", "Output is generated by the XDRBG construction, never from raw pool state",
     "Every output block is the generator's output squeezed from a state that is overwritten with fresh generator state before delivery, so that delivered bytes never reveal the state that later output is made from. The generator follows the published XDRBG-256 order: the pool is reseeded (the very first time marked as seeding), the new state is absorbed again with the generation mark, next state and output are squeezed together, and the next state alone opens the pool for later noise. At most 32 bytes are delivered per block, nothing else of the caller's buffer changes, and intermediate state is erased.",
     ["inputs"], "all pool contents and request lengths", "back-tracking resistance is not visible in any output a test inspects",
     [S], [("jent_drbg_generate_block and helpers", S)], ["jent_drbg_generate_block", "jent_xdrbg256_*"], "one block, every length", "hash calls recorded; the hash itself is C11", [], ["sequence of hash operations, output"])
prop("C13", "Memory size and hash loop count follow the flags",
     "For every flag word the memory used for the memory noise source has the requested size (a power of two from 1 kB to 512 MB, larger requests capped), or, when none is requested, one derived from the cache size (at least four times the L1 cache, or the whole cache hierarchy when asked for, 256 kB when unknown) and never beyond the maximum. The hash loop count is the requested power of two from 1 to 128. The flags a collector reports describe what it actually uses.",
     ["inputs", "configurations"], "all 2^32 flag words and all power-of-two cache sizes", "tests pick a few flag values on one machine's cache",
     [B], [("jent_memsize, jent_update_memsize, jent_hashloop_cnt, jent_update_hashloop", B)], ["jent_memsize", "jent_hashloop_cnt", "jent_entropy_collector_alloc"],
     "none but one allocation", "all flag words", ["cache sizes are zero or powers of two, as their provider guarantees"], ["memory allocated, status"])
prop("C14", "Recovery replaces a failing collector without losing state or memory",
     "The recovering read repeats the whole request on a replacement collector after an intermittent health failure, and only then: permanent and other failures are returned as they are. The replacement has passed startup, has a higher oversampling rate, twice the memory (unless its size was requested) and hash loops up to the maximum, and keeps mode, flags, identifier, usage counters, recovery count, self test verdict and the health tests' progress; the old collector is released completely. When recovery is impossible the caller keeps the old collector and gets the error.",
     ["fault_sequences", "inputs", "histories"], "all outcomes of reads, startup tests and allocations during recovery; all flags and oversampling rates",
     "intermittent failures do not occur on a healthy machine, and failures during recovery even less", [B, H], [("jent_read_entropy_safe, jent_health_failure_reset", B), ("jent_*_duplicate", H)],
     ["jent_read_entropy_safe", "jent_health_failure_reset", "jent_entropy_collector_alloc_internal", "jent_entropy_collector_free", "jent_apt_duplicate", "jent_lag_duplicate", "jent_rct_duplicate", "jent_rct_mem_duplicate", "jent_health_init"],
     "one recovery (thorough: two) within a read of fixed length; every allocation failure point, every startup test outcome", "plain read and startup stubbed with any outcome", ["jent_read_entropy and jent_random_data are stubs"], ["return value, replacement collector, live allocations"])
prop("C15", "Allocation yields a complete collector or nothing, under every failure",
     "For every oversampling rate and flag word, and whichever allocation, thread start, startup test or startup block fails, allocation returns either no collector and leaves no memory or thread behind, or a collector that passed the startup test and startup blocks and has every part it needs. Contradicting timer flags, excessive oversampling rates and a disabled memory noise source in FIPS mode are refused. Releasing a collector frees every part once, at its full size, and stops its timer thread.",
     ["fault_sequences", "inputs", "configurations"], "all flags, rates, and each single failure point",
     "tests do not make allocations fail one by one for each flag combination", [B, T], [("jent_entropy_collector_alloc_internal, _jent_entropy_collector_alloc, jent_entropy_collector_free", B), ("jent_notime_enable", T)],
     ["jent_entropy_collector_alloc", "jent_entropy_collector_free", "jent_health_init", "jent_notime_enable", "jent_notime_settick", "jent_notime_disable"],
     "one allocation with at most one startup health failure", "every flag word and failure point", ["memory, threads, startup test are stubs"], ["return value, live allocations, running threads"])
prop("C20", "The memory noise source stays inside its memory and touches all of it",
     "For every memory size, access count and random index value the memory walk reads and writes only inside the collector's memory, performs the configured number of accesses (three times as many while only this noise source is collected during NTG.1 startup), each adding one to one byte, and the deterministic walk continues where it stopped, in steps that eventually visit every byte. The pseudo-random walk draws its locations, over the whole memory, from the xoshiro128** generator whose fixed initial state is mixed with the low bytes of sixteen fresh clock readings.",
     ["inputs"], "all index values and clock values; memory sizes in the bound", "an out-of-bounds index depends on values no test steers", [N], [("jent_memaccess and variants", N)],
     ["jent_memaccess"], "every memory size from 1 kB to 512 MB, with up to five accesses and any clock values; default access counts up to 384", "all pseudo-random index values", ["the random index generator's state is arbitrary"], ["memory accesses"])
A = "arch/jitterentropy-arch-"
prop("C16", "Secure memory is locked, hidden and wiped, or not handed out",
     "Whichever system call of the memory backend fails, an allocation for a collector either yields zeroed memory of the requested size that does not overlap anything else, or fails and leaves nothing behind. Where secure memory is demanded it is handed out only when it is locked against swapping; a refused lock is tolerated only when secure memory is optional and the environment forbids locking. The system is asked to keep it out of core dumps (it may decline). Memory is surrounded by inaccessible guard pages, stays locked while it holds data, is wiped completely, and only then given back, exactly once. The cryptographic library backends return memory to where it came from.",
     ["fault_sequences", "inputs", "configurations"], "every outcome of each system call, every length in the bound, each backend",
     "mlock, madvise and mprotect do not fail in the test environment, and wiping is not visible to tests",
     [A + "memory.c"], [("jent_zalloc, jent_zfree and the backends", A + "memory.c"), ("jent_memset_secure", A + "memory.c")],
     ["jent_zalloc", "jent_zfree", "jent_memset_secure", "jent_secure_memory_supported"],
     "lengths up to a few pages of 64 bytes (and 4096 for selected lengths); one allocation and release", "every outcome of every call; the Windows backend over a model of its headers",
     ["mmap, mprotect, mlock, madvise, the crypto libraries' allocators are models"], ["memory returned, calls made"])
prop("C17", "No collector without a successful initialization",
     "An initialization runs the hash self test and the divisor self test and, only when both passed, the timer test, at the oversampling rate and in the mode asked for; a failure of any of them is reported. The hardware timer is tested first and the internal timer is used as a fallback only where neither the flags nor NTG.1 mode exclude it. A collector is handed out only when the most recent initialization succeeded, whatever the history of successful and failed initializations and allocations; an allocation without a preceding initialization initializes first.",
     ["histories", "inputs", "fault_sequences"], "all sequences of initializations and allocations in the bound, all flags, every outcome of each self test",
     "self tests do not fail on a healthy machine, so tests cannot order failing and passing initializations",
     [B, T], [("jent_entropy_init, jent_entropy_init_ex, jent_entropy_init_common_pre/_post", B), ("the self-tested mark checked by jent_entropy_collector_alloc", B), ("jent_notime_force", T)],
     ["jent_entropy_init", "jent_entropy_init_ex", "jent_entropy_init_common_pre", "jent_entropy_init_common_post", "jent_entropy_collector_alloc", "_jent_entropy_collector_alloc"],
     "up to 3 operations (thorough 5)", "one defect found here was repaired (see DESIGN.md)", ["self tests and timer test are stubs with any outcome"], ["return values, order of the tests"])
prop("C18", "The timer test accepts a timer exactly when it meets every criterion",
     "The timer test measures its timer as in operation at the requested oversampling rate, and passes exactly when the time stamps are never zero, no delta is zero, the health tests raise no failure, at most 90% of the measurements are stuck, the timer ran backwards at most three times and the deltas vary enough; otherwise it names the criterion that failed. All measurements after the warm-up enter the history the divisor is computed from. It leaves no memory and no thread behind, whatever fails.",
     ["inputs", "fault_sequences"], "all verdicts of the measurements, numbers of stuck and backward steps around their limits, every allocation failure",
     "a test runs on the machine's own good timer; boundary counts and failing allocations never occur",
     [B], [("jent_time_entropy_init", B)], ["jent_time_entropy_init", "jent_entropy_collector_alloc_internal", "jent_entropy_collector_free"],
     "the full 1024 measurements and warm-up, with stuck and backward counts around their limits symbolic", "counts away from the limits are covered by a base count that is fixed per harness", ["measurements and divisor analysis are stubs"], ["return value, live allocations, threads"])
prop("C19", "The timer divisor is the greatest common divisor of the deltas, set once",
     "The analysis of a history of deltas computes exactly their greatest common divisor and accepts the timer exactly when the deltas vary enough and the divisor is not too coarse. The divisor is published only by an accepted analysis, the first accepted one fixes it for good, and rejected or later ones never change or withdraw it. The divisor's self test passes and changes nothing.",
     ["inputs", "histories"], "all histories in the bound, any order of analyses",
     "tests use a handful of histories", ["src/jitterentropy-gcd.c"], [("jent_gcd_analyze, jent_gcd_analyze_internal, jent_gcd64", "src/jitterentropy-gcd.c"), ("jent_gcd_get", "src/jitterentropy-gcd.c")],
     ["jent_gcd_analyze", "jent_gcd_analyze_internal", "jent_gcd64", "jent_gcd_get", "jent_gcd_selftest"],
     "2 or 3 deltas up to 31, shifted by 0 to 40 bits; two analyses in sequence", "division chains make longer histories expensive", [], ["verdict, published divisor"])
prop("C21", "The status report is valid JSON and tells the collector's state",
     "The status report of any collector is a well-formed JSON document whose fields show the collector's actual configuration, counters and health state. It is delivered completely or the call fails; for every buffer size nothing is written beyond the buffer, what was written is terminated and is the beginning of the complete document.",
     ["inputs", "configurations"], "all collector states, all buffer sizes in the bound",
     "tests parse the report of one collector with a large buffer and try few sizes", ["src/jitterentropy-status.c"], [("jent_status, jent_status_json helpers", "src/jitterentropy-status.c")],
     ["jent_status"], "values: any collector state field by field; room: buffer sizes 1 to 8 and 46 to 53 and every size that fits", "formatting is a model of snprintf", ["snprintf is a model that implements the conversions used"], ["text in the buffer, return value"])
prop("C22", "A collector's identifier is a random version 4 UUID",
     "The identifier of a collector is the canonical text of a version 4, variant 1 UUID whose 122 other bits are the system's random bits, or the nil UUID when the system has no randomness; it is delivered only into a buffer with room for the text and its end, and nothing is written outside.",
     ["inputs", "fault_sequences"], "all 128 random bits, failure of the randomness, all buffer sizes",
     "tests look at the format of a few identifiers", ["src/jitterentropy-uuid.c", "src/jitterentropy-status.c"], [("jent_uuid_*", "src/jitterentropy-uuid.c"), ("identifier getter", "src/jitterentropy-status.c")],
     ["jent_uuid"], "none", "complete", ["OS randomness is a stub"], ["text"])
prop("C23", "Cache sizes, CPU counts and FIPS mode are what the system reports",
     "The cache size used for dimensioning is computed exactly from the system's description of each CPU's data and unified caches, whichever files exist and whatever they contain: well-formed sizes with their unit are honoured, malformed, truncated or absent ones ignored, and unknown means zero. The result is a power of two above the cache size, or zero. The number of CPUs is that of the calling thread's affinity mask (the highest one is in the mask), falling back to the online CPUs, and is never zero. FIPS mode is on exactly when the kernel says so. Interrupted system calls are repeated and no descriptor is left open.",
     ["inputs", "fault_sequences", "configurations"], "all file contents, presence and read outcomes in the bound; all affinity masks",
     "a test machine has one topology and well-formed files", [A + "cache.c", A + "ncpu.c", A + "fips.c"], [("jent_cache_size_roundup and the sysfs parser", A + "cache.c"), ("jent_ncpu, jent_cpu_highest", A + "ncpu.c"), ("jent_fips_enabled", A + "fips.c")],
     ["jent_cache_size_roundup", "jent_ncpu", "jent_cpu_highest", "jent_fips_enabled"], "topologies of up to 2 CPUs with 2 caches or 1 with 4 (thorough 3 with 2), file texts of up to 7 bytes, masks of up to 192 CPUs",
     "the Linux paths; the macOS, Windows and CPUID paths are outside", ["open, read, sched_getaffinity, sysconf are models"], ["sizes and counts returned"])
prop("C24", "The system's randomness is delivered completely or not at all",
     "A request for the system's randomness succeeds only when every byte of the buffer came from the system's seeded generator, across short reads and interruptions; anything else is reported as failure. Only the given buffer is written and no descriptor is left open.",
     ["fault_sequences", "inputs"], "every sequence of short reads, interruptions and errors in the bound",
     "the kernel's generator does not fail or interrupt in a test", [A + "random.c"], [("jent_os_random_bytes: getrandom and /dev/urandom paths", A + "random.c")], ["jent_os_random_bytes"],
     "8 system calls per request", "Linux, Windows, BSD, macOS and kernel paths, and the bare-metal stub", ["getrandom, open, read are models"], ["buffer, return value"])
prop("C27", "Concurrent timer analyses publish one complete divisor",
     "When threads analyze timers concurrently, a reader sees either no divisor or the complete divisor of one accepted analysis; once seen it never changes or disappears, and each analysis's own verdict is unaffected by the others.",
     ["schedules"], "all interleavings of three threads under sequential consistency", "schedules are not under a test's control",
     ["src/jitterentropy-gcd.c", A + "atomic.h"], [("publication of jent_common_timer_gcd", "src/jitterentropy-gcd.c")], ["jent_gcd_analyze", "jent_gcd_get"], "two analyzing threads and one reader that looks twice; two deltas each",
     "atomic accessors modelled as sequentially consistent", ["atomic accessors are atomic"], ["divisor seen"])
prop("C28", "Configuration hooks take effect before the first initialization only",
     "The failure callback, the timer thread's implementation and its CPU can be set any number of times before the library is first initialized; the last accepted setting is the one in force. From the first initialization on, successful or not, every attempt is refused and changes nothing. Incomplete thread implementations are refused.",
     ["histories"], "all sequences of settings and initializations in the bound", "tests try each setter once before and once after",
     [B, T, H], [("jent_set_fips_failure_callback", H), ("jent_entropy_switch_notime_impl, jent_entropy_set_notime_cpu", T)], ["jent_entropy_switch_notime_impl", "jent_entropy_set_notime_cpu", "jent_set_fips_failure_callback", "jent_notime_enable"],
     "3 operations (thorough 5)", "all sequences in the bound", ["self tests and timer test are stubs"], ["return values, callback called, thread started"])
prop("C29", "The internal timer's thread lives exactly as long as it is needed",
     "The internal timer's thread is started on its CPU when a timer is needed and chosen, never otherwise, and requires a second CPU; a failed start leaves nothing behind. Stopping it waits for its end before its memory is released, and it can be started again. Every time stamp taken while it runs differs from the previous one. Pinning selects exactly the requested CPU or reports the system's error.",
     ["fault_sequences", "inputs", "histories"], "all outcomes of thread and affinity calls, all CPU numbers",
     "thread creation does not fail in tests and CPU numbers are small", [A + "thread.c", T], [("jent_thread_*", A + "thread.c"), ("jent_notime_*", T)],
     ["jent_notime_enable", "jent_notime_settick", "jent_notime_unsettick", "jent_notime_disable", "jent_get_nstime_internal"], "one start, stop and restart; CPU numbers in sets of up to 1024 CPUs", "pthread and Win32 threads; pinning on Linux, macOS, FreeBSD, NetBSD, OpenBSD (by Windows processor groups: outside, the walk did not finish)",
     ["pthread calls and the scheduler are models"], ["calls made, return values"])
L = "linux_kernel/jitterentropy_"
KA = ["the Linux kernel's API is a model (lib/k, h/kern.c) in which allocations, locks, copies and registrations may fail", "the library below the interfaces is a stub with any outcome its contract allows"]
prop("C25", "Kernel interfaces deliver generated bytes or the error that occurred",
     "Whatever the kernel's character device, hardware RNG and crypto API interfaces hand to a caller are bytes the caller's own instance has just generated, in order, and the reported count is what was delivered. Generation happens under the instance's lock, the lock is never held across a copy to user space, and callers that must not block never sleep for it. A read that delivers nothing reports why: refused lock, signal, fault, no memory, or the generator's failure (intermittent, permanent and generic ones are told apart, and a permanent one panics in FIPS mode). Partial results are kept and reported. Buffers that held random data are cleared.",
     ["inputs", "fault_sequences"], "request lengths around the chunk size, every position at which a lock, a generation, a copy or a signal ends the read, every error code of the library",
     "the kernel module is not built by the unit tests at all", [L + "chardev.c", L + "hwrng.c", L + "kcapi.c", L + "error.h"],
     [("jent_chardev_read", L + "chardev.c"), ("jent_hwrng_read", L + "hwrng.c"), ("jent_kcapi_random", L + "kcapi.c"), ("jent_map_read_error", L + "error.h")],
     ["jent_chardev_read", "jent_hwrng_read", "jent_kcapi_random", "jent_map_read_error"],
     "lengths 1, 31, 32, 33, 64, 65 (character device) and 0, 1, 31, 32, 33, 40 (the others), one ending event at any of the first three occurrences, any content", "any content and outcome; the event that ends a read is enumerated", KA, ["return value, user buffer, locks, memory"])
prop("C26", "Kernel instances and the module come and go without a trace",
     "Opening or initialising a kernel interface either yields a complete instance - a collector with the configured parameters, its self test scheduled as configured, accounted for - or fails with nothing left behind: no memory, collector, lock, file, registration or scheduled work. Tearing down stops the self test and removes the status file before the collector they use is freed, waits for neither while holding the lock they need, and leaves nothing. The self test of an instance, periodic or on demand, runs under the instance's lock on the instance's current collector, is counted, needs administrator rights on demand, stops only that instance for good when it fails, is then neither repeated nor rescheduled, and panics in FIPS mode. Loading the module runs the start tests with the configured flags first and refuses to load when they fail; every failure while loading undoes what was done.",
     ["fault_sequences", "histories", "configurations"], "every single and combined failure of the kernel's services, sequences of up to four operations, all flags",
     "the kernel module is not built by the unit tests at all", [L + "chardev.c", L + "hwrng.c", L + "kcapi.c", L + "selftest.c", L + "mod.c", L + "proc.c", L + "testing.c"],
     [("open/release, init/exit", L + "chardev.c"), ("jent_hwrng_init, jent_hwrng_exit", L + "hwrng.c"), ("tfm init and cleanup", L + "kcapi.c"), ("jent_selftest_instance_*", L + "selftest.c"), ("jent_mod_init, jent_mod_exit", L + "mod.c")],
     ["jent_chardev_open", "jent_chardev_release", "jent_hwrng_init", "jent_hwrng_exit", "jent_selftest_instance_init", "jent_selftest_instance_run", "jent_mod_init", "jent_mod_exit"],
     "one instance, four operations on its self test, every failure of allocation, registration and file creation; interval 7 s and every interval at scheduling", "one instance at a time", KA, ["return values, what is registered, allocated, scheduled and locked"])
prop("C30", "Kernel status queries answer about the caller's own instance",
     "Every query of an open kernel instance (UUID, version, oversampling rate, flags, health failures, output counters, recoveries, status text) answers with the current value of the caller's own instance, read under its lock, or reports why not: interrupted, fault, no memory, no data, unknown query. A status buffer that is too small is reported together with the size needed and is left untouched. Nothing outside the answer is written and nothing is left behind.",
     ["inputs", "fault_sequences"], "all instance states, buffer lengths, query codes, and every failing step", "the kernel module is not built by the unit tests at all",
     [L + "ioctl.c", L + "chardev.c", L + "testing.c"], [("jent_ioctl_field_get, jent_ioctl_is_field", L + "ioctl.c"), ("ioctl handlers", L + "chardev.c"), ("ioctl handlers", L + "testing.c")],
     ["jent_ioctl_field_get", "jent_ioctl_is_field", "jent_chardev_ioctl", "jent_testing_ioctl"], "a status of four characters; every query code and value", "complete but for the status text's length", KA, ["answer, return value"])
prop("C31", "The kernel's raw noise interface records whole measured samples",
     "The debugfs interface delivers whole samples only, each the result of one measurement of the caller's instance taken in order with the routine and loop count selected for that instance, under the session lock; the first sample never spans the time before the read. The count returned is what was copied. The instance is allocated with exactly the requested parameters. Neither the file nor an open instance is available on a locked-down kernel, the file is root's alone, out-of-range loop counts are refused, and a failed open or start leaves nothing behind.",
     ["inputs", "fault_sequences"], "all flags and loop counts, requests of 0 to 24 bytes, every failing step", "the kernel module is not built by the unit tests at all",
     [L + "testing.c"], [("jent_testing_extract_user, jent_testing_open, jent_testing_init", L + "testing.c")], ["jent_testing_extract_user", "jent_testing_open", "jent_testing_release", "jent_testing_init", "jent_testing_exit"],
     "up to three samples per read", "longer reads repeat the same loop; rounds of 1000 samples are outside", KA, ["samples delivered, return values"])
prop("C32", "Cache sizes are decoded exactly wherever they come from",
     "On platforms other than Linux user space the cache size used for dimensioning is computed exactly from what the processor or system describes: the processor's cache leaves (the standard one, or the extended one where that is empty; data and unified caches only, size as ways times partitions times line size times sets), the Arm cache registers (in both formats, each register read only after its selection took effect), the largest data caches among the CPUs that are online in the kernel, each asked on that CPU itself, and the records and values of Windows, macOS and AIX. Unsupported leaves, malformed records and failing calls count as unknown, nothing is read outside what the system delivered and nothing is left behind. The result is a power of two above the cache size, or zero, and does not change.",
     ["inputs", "fault_sequences"], "all register contents, records and values within the bounds, and every failing call", "the unit tests run on one machine of one platform",
     ["arch/jitterentropy-arch-cache.c"], [("jent_cache_sizes_cpuid, jent_cache_sizes_arm64, the platforms' jent_get_cachesize_uncached", "arch/jitterentropy-arch-cache.c")],
     ["jent_cache_size_roundup", "jent_cache_sizes_cpuid", "jent_cache_sizes_cpuid_leaf", "jent_cache_sizes_arm64", "jent_get_cachesize_uncached", "jent_sysctl_cachesize"],
     "up to three caches per leaf with any line size, one cache with any single field wide and with all fields of one or two bits; all sixteen entries of a leaf; two CPUs in the kernel; three Windows records, the last one malformed in four ways",
     "products of several wide fields are outside", ["the platforms' headers and calls are models in lib/plat"], ["the size returned for the first level and for all levels"])

prop("C33", "A time stamp is exactly what the platform's clock reports",
     "On platforms whose time source is a function call, a time stamp is exactly what the source reports: all 64 bits of the counter (macOS), the kernel's entropy counter or, only when that yields nothing, its nanosecond clock, and on other POSIX systems the nanoseconds of the monotonic clock (never one that can be set), zero when the clock cannot be read.",
     ["inputs", "fault_sequences"], "every value of the clock and its failure",
     "these paths are not compiled on the machine that runs the tests",
     ["arch/jitterentropy-arch-timer.c"], [("jent_get_nstime", "arch/jitterentropy-arch-timer.c")], ["jent_get_nstime"],
     "seconds below 2^32 for the POSIX clock; everything else complete", "inline assembly (x86, ARM, s390x, RISC-V, ...) has no C semantics and is outside",
     ["the platforms' headers and clocks are models in lib/plat"], ["time stamp"])
