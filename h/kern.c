/*
 * The Linux kernel interfaces (/repo/linux_kernel) over a symbolic kernel:
 * every allocation may fail, every lock attempt may be refused or interrupted,
 * every copy to or from user space may fault half way, signals may be pending
 * at any time, and every call into the library may have any outcome its
 * contract allows. The callbacks are taken from what the module registers, as
 * the kernel does.
 */
#include "vpk.h"
#include "vp.h"
#include "jitterentropy.h"
#include "jitterentropy-internal.h"
#include "jitterentropy-noise.h"
#include "jitterentropy_uapi.h"
#include "jitterentropy_selftest.h"
#include "jitterentropy_chardev.h"
#include "jitterentropy_hwrng.h"
#include "jitterentropy_kcapi.h"
#include "jitterentropy_testing.h"
#include "jitterentropy_proc.h"

#ifdef NOSTART
# define NOHW_WITNESS_IF(c, m) (void)(c)
#else
# define NOHW_WITNESS_IF(c, m) WITNESS_IF(c, m)
#endif
#if DEV
# define DEV_WITNESS_IF(c, m) WITNESS_IF(c, m)
# define NODEV_WITNESS_IF(c, m) (void)(c)
#else
# define DEV_WITNESS_IF(c, m) (void)(c)
# define NODEV_WITNESS_IF(c, m) WITNESS_IF(c, m)
#endif
#ifdef NOLOCKFAIL
# define NOTK_WITNESS_IF(c, m) (void)(c)
#else
# define NOTK_WITNESS_IF(c, m) WITNESS_IF(c, m)
#endif
#if DEV && defined(MAXN) && MAXN > 32
# define LONG_WITNESS_IF(c, m) WITNESS_IF(c, m)
#else
# define LONG_WITNESS_IF(c, m) (void)(c)
#endif
#ifndef CALLFAIL
# define CALLFAIL 0	/* 1: setting up may fail too */
#endif
#ifndef WANTMOD
unsigned int osr, flags, verbose;
#else
extern unsigned int osr, flags, verbose;
#endif
#ifndef WANTPROC
struct proc_dir_entry *jent_proc_dir;
#endif
int fips_enabled;

/* the world */
static struct rand_data ecs[2];
static int swaps;				/* reads recover with a new collector */
static struct rand_data *cur;			/* the instance's collector, NULL: none */
static unsigned eclive, mems, procs, dbgs, opened, faulty;
/* SCHED: which call of which kind goes wrong is fixed by the harness, one at a
 * time, as each of them ends a read; otherwise any call may go wrong */
enum { EV_ANY, EV_NONE, EV_LOCK, EV_ERR, EV_FAULT, EV_PEND, EV_MEM, EV_LAST };
static int ev, evk, evv, cnt[EV_LAST];
static int happens(int what)
{
	int n = cnt[what]++;
	return ev == EV_ANY ? INBIT() : ev == what && n == evk;
}
static int locks;				/* mutexes held */
static int nonblock, lib_failed;		/* no sleeping allowed; self test has failed */
static struct delayed_work *work; static int pending;
static unsigned tests, testfails, queued;
static unsigned long delay;
static const struct file_operations *dev_fops, *raw_fops;
static struct hwrng *hw;
static struct rng_alg *alg;
static int dev_reg, hw_reg, alg_reg;
/* what happened during the call under test */
static int e_lock, e_sig, e_err, e_fault, e_pend, e_nomem, sens;
static size_t gen, done, part;
static uint8_t stream[112];
static void *dst; static size_t dstlen;

static void clear(void)
{
	e_lock = e_sig = e_err = e_fault = e_pend = e_nomem = 0;
	gen = done = part = 0;
}

void vpk_log(void) { }
void panic(const char *fmt, ...)
{
	CHECK(fips_enabled, "a panic outside FIPS mode");
	CHECK(faulty, "a panic without a permanent failure");
#ifndef NOPANIC
	WITNESS("a panic");
#endif
	ASSUME(0);
}
int __ratelimit(struct ratelimit_state *s) { return INBIT(); }
char *vpk_strsep(char **s, const char *d) { char *r = *s; *s = NULL; return r; }
int vpk_snprintf(char *b, size_t n) { if (n > 1) { b[0] = '('; b[1] = 0; } return 1; }

void mutex_init(struct mutex *m) { m->up = 1; m->held = 0; }
void mutex_destroy(struct mutex *m) { CHECK(m->up && !m->held, "a lock destroyed while it is held"); m->up = 0; }
static void got(struct mutex *m) { m->held = 1; locks++; }
static void want(struct mutex *m)
{
	CHECK(m->up, "a lock used outside its life");
	CHECK(!m->held, "a thread waits for a lock it holds");
}
void mutex_lock(struct mutex *m) { want(m); CHECK(!nonblock, "a non-blocking caller sleeps for a lock"); got(m); }
int mutex_lock_interruptible(struct mutex *m)
{
	want(m);
	CHECK(!nonblock, "a non-blocking caller sleeps for a lock");
	if (happens(EV_LOCK)) { e_sig = 1; return -EINTR; }
	got(m);
	return 0;
}
int mutex_lock_killable(struct mutex *m) { return mutex_lock_interruptible(m); }
int mutex_trylock(struct mutex *m)
{
	want(m);
	if (happens(EV_LOCK)) { e_lock = 1; return 0; }
	got(m);
	return 1;
}
void mutex_unlock(struct mutex *m) { CHECK(m->held, "a lock released that is not held"); m->held = 0; locks--; }

static int fails(void) { return CALLFAIL && INBIT(); }
static int nomem;				/* memory may run out */
void *kvmalloc(size_t n, unsigned g)
{
	if (nomem && happens(EV_MEM)) { e_nomem = 1; return NULL; }
	mems++;
	return malloc(n);
}
void *kvzalloc(size_t n, unsigned g)
{
	void *p;
	if (nomem && happens(EV_MEM)) { e_nomem = 1; return NULL; }
	mems++;
	p = malloc(n);
	memset(p, 0, n);
	return p;
}
/* what random bytes were written to is cleared before it goes back */
static void gone(const void *p)
{
	size_t i;
	if (!p)
		return;
	mems--;
	if (p == dst)
		for (i = 0; i < dstlen; i++)
			CHECK(((const uint8_t *)p)[i] == 0, "a buffer that held random data is freed uncleared");
	free((void *)p);
}
void kvfree(const void *p) { gone(p); }
void kvfree_sensitive(const void *p, size_t n)
{
	size_t i;
	if (!p)
		return;
	if (p == dst)
		for (i = 0; i < n; i++)
			((uint8_t *)p)[i] = 0;
	gone(p);
}
void kfree_sensitive(const void *p) { kvfree_sensitive(p, dstlen); }
void memzero_explicit(void *p, size_t n) { size_t i; for (i = 0; i < n; i++) ((uint8_t *)p)[i] = 0; }

static int copies, nodata;			/* copies may fault; what is copied does not matter */
static uint8_t *ubase; static size_t uoff;
unsigned long copy_to_user(void *to, const void *from, unsigned long n)
{
	unsigned long ok = n, i;
	CHECK(!locks || raw_fops, "a copy that can fault under the instance lock");
	if (copies && happens(EV_FAULT)) {
		if (ev == EV_ANY) {
			ok = IN8();
			ASSUME(ok < n);
		} else
			ok = evv ? n / 2 : 0;
		e_fault = 1;
		part += ok;
	} else
		done += n;
	for (i = 0; !nodata && i < n; i++)
		if (i < ok)
			((uint8_t *)to)[i] = ((const uint8_t *)from)[i];
	return n - ok;
}
unsigned long copy_from_user(void *to, const void *from, unsigned long n)
{
	unsigned long i;
	if (copies && happens(EV_FAULT)) { e_fault = 1; return n; }
	for (i = 0; i < n; i++)
		((uint8_t *)to)[i] = ((const uint8_t *)from)[i];
	return 0;
}
static char ustat[16]; static uint64_t ustat_a;
void *vpk_user(u64 a) { CHECK(a == ustat_a, "status written to an address the caller did not give"); return ustat; }
int signal_pending(struct task_struct *t) { int r = happens(EV_PEND); e_pend |= r; return r; }
int need_resched(void) { return INBIT(); }
void cond_resched(void) { CHECK(!locks || raw_fops, "the CPU yielded under the instance lock"); }
void schedule(void) { }
static int cap_ok, cap_asked;
bool capable(int c) { CHECK(c == CAP_SYS_ADMIN, "the wrong capability asked for"); cap_asked = 1; return cap_ok; }
long compat_ptr_ioctl(struct file *f, unsigned int c, unsigned long a) { return dev_fops->unlocked_ioctl(f, c, a); }

int misc_register(struct miscdevice *m)
{
	if (fails())
		return -EBUSY;
	dev_fops = m->fops; dev_reg = 1;
	return 0;
}
void misc_deregister(struct miscdevice *m) { CHECK(dev_reg, "a device unregistered that is not registered"); dev_reg = 0; }
static unsigned live(const struct proc_dir_entry *e) { return !e || (!e->removed && (!e->parent || !e->parent->removed)); }
static struct proc_dir_entry *newproc(struct proc_dir_entry *p)
{
	struct proc_dir_entry *e;
	CHECK(live(p), "a proc file below a removed directory");
	if (INBIT())
		return NULL;
	e = malloc(sizeof(*e));
	e->parent = p; e->removed = 0;
	if (!p)
		procs++;
	return e;
}
struct proc_dir_entry *proc_mkdir(const char *n, struct proc_dir_entry *p) { return newproc(p); }
static int (*show_fn)(struct seq_file *, void *); static void *show_data; static struct proc_dir_entry *show_e;
#ifdef WANTMOD
static int same(const char *a, const char *b)
{
	int i;
	for (i = 0; i < 16; i++) {
		if (a[i] != b[i])
			return 0;
		if (!a[i])
			break;
	}
	return 1;
}
static int (*show_osr)(struct seq_file *, void *), (*show_ntg1)(struct seq_file *, void *),
	   (*show_fips)(struct seq_file *, void *), (*show_flags)(struct seq_file *, void *);
#endif
struct proc_dir_entry *proc_create_single_data(const char *n, unsigned mode, struct proc_dir_entry *p,
					       int (*show)(struct seq_file *, void *), void *data)
{
	struct proc_dir_entry *e = newproc(p);
	CHECK((mode & 0222) == 0, "a writable status file");
	if (e) { show_fn = show; show_data = data; show_e = e; }
#ifdef WANTMOD
	if (same(n, "osr")) show_osr = show;
	if (same(n, "ntg1")) show_ntg1 = show;
	if (same(n, "fips")) show_fips = show;
	if (same(n, "flags_raw")) show_flags = show;
#endif
	return e;
}
void proc_remove(struct proc_dir_entry *e)
{
	if (!e)
		return;
	CHECK(live(e), "a proc entry removed twice");
	e->removed = 1;
	if (!e->parent)
		procs--;
}
static const char *shown;
void seq_puts(struct seq_file *m, const char *s) { shown = s; CHECK(s[0] == 's', "what is shown is not the status"); }
static unsigned printed;
void vpk_seq(struct seq_file *m, const char *f, unsigned long a) { printed = (unsigned)a; }
static struct dentry dents[4]; static unsigned dn;
static struct dentry *newdent(void)
{
	if (fails())
		return ERR_PTR(-ENOMEM);
	ASSUME(dn < 4);
	dents[dn].removed = 0;
	return &dents[dn++];
}
struct dentry *debugfs_create_dir(const char *n, struct dentry *p) { struct dentry *d = newdent(); if (!IS_ERR(d) && !p) dbgs++; return d; }
struct dentry *debugfs_create_file(const char *n, unsigned mode, struct dentry *p, void *x, const struct file_operations *f)
{
	struct dentry *d = newdent();
	CHECK(mode == 0400, "raw noise readable for others than root");
	CHECK(p && !IS_ERR(p), "a debugfs file in no directory");
	if (!IS_ERR(d))
		raw_fops = f;
	return d;
}
void debugfs_remove_recursive(struct dentry *d)
{
	if (IS_ERR_OR_NULL(d))
		return;
	CHECK(!d->removed, "a debugfs directory removed twice");
	d->removed = 1; dbgs--;
}
static int lockdown;
int security_locked_down(int w) { return lockdown; }
int hwrng_register(struct hwrng *r)
{
	CHECK(cur && eclive == 1, "registered without a collector");
	if (fails())
		return -EEXIST;
	hw = r; hw_reg = 1;
	return 0;
}
void hwrng_unregister(struct hwrng *r) { CHECK(hw_reg, "a device unregistered that is not registered"); hw_reg = 0; }
static struct crypto_rng tfm;
int crypto_register_rng(struct rng_alg *a)
{
	if (fails())
		return -EEXIST;
	tfm.base.ctx = calloc(1, a->base.cra_ctxsize);
	alg = a; alg_reg = 1;
	return 0;
}
void crypto_unregister_rng(struct rng_alg *a) { CHECK(alg_reg, "an algorithm unregistered that is not registered"); alg_reg = 0; }

void vpk_init_work(struct delayed_work *w, void (*fn)(struct work_struct *)) { work = w; w->work.fn = fn; pending = 0; }
bool queue_delayed_work(struct workqueue_struct *q, struct delayed_work *w, unsigned long d)
{
	CHECK(w == work, "work queued that was not initialised");
	pending = 1; delay = d; queued++;
	return 1;
}
static void run_work(void)
{
	int nb = nonblock;
	nonblock = 0;
	pending = 0;
	work->work.fn(&work->work);
	nonblock = nb;
}
static unsigned cancelled;
bool cancel_delayed_work_sync(struct delayed_work *w)
{
	CHECK(w == work, "work cancelled that was not initialised");
	CHECK(!locks, "waiting for the self test while holding the lock it needs");
	if (pending && INBIT())
		run_work();
	pending = 0; cancelled = 1;
	return 1;
}
bool cancel_delayed_work(struct delayed_work *w) { pending = 0; return 1; }

/* the library */
static struct rand_data *newec(void)
{
	eclive++;
	return &ecs[0];
}
struct rand_data *jent_entropy_collector_alloc(unsigned int o, unsigned int f)
{
	CHECK(o == osr && f == flags, "a collector with other parameters than the configured ones");
	if (CALLFAIL && INBIT()) { e_nomem = 1; return NULL; }
	return cur = newec();
}
static unsigned raw_osr, raw_flags;
struct rand_data *jent_entropy_collector_alloc_raw(unsigned int o, unsigned int f)
{
	raw_osr = o; raw_flags = f;
	if (CALLFAIL && INBIT()) { e_nomem = 1; return NULL; }
	return cur = newec();
}
void jent_entropy_collector_free(struct rand_data *e)
{
	if (!e)
		return;
	CHECK(e == cur, "a collector freed that is not the instance's");
	CHECK(!pending, "the collector is freed while its self test is scheduled");
	CHECK(!hw_reg, "the collector is freed while the hwrng is registered");
#ifndef WANTMOD
	CHECK(!show_e || !live(show_e), "the collector is freed while its status file exists");
#endif
	eclive--; cur = NULL;
}
ssize_t jent_read_entropy_safe(struct rand_data **ec, char *data, size_t len)
{
	int rc = 0, i;
	CHECK(locks == 1, "output generated without the instance lock");
	CHECK(ec && *ec == cur && cur, "output from a collector that is not the instance's");
	if (swaps)				/* recovered with a new collector */
		*ec = cur = cur == &ecs[0] ? &ecs[1] : &ecs[0];
	if (lib_failed || happens(EV_ERR)) {
		rc = lib_failed ? JENT_ERR_SELFTEST : ev == EV_ANY ? -1 - (int)(IN8() & 15) : -1 - evv;
		e_err = rc;
		faulty |= rc == JENT_ERR_RCT_PERMANENT || rc == JENT_ERR_APT_PERMANENT || rc == JENT_ERR_LAG_PERMANENT ||
			  rc == JENT_ERR_RCT_MEM_PERMANENT || rc == JENT_ERR_SELFTEST;
		return rc;
	}
	ASSUME(len <= 40 && gen + len <= sizeof(stream));
	for (i = 0; i < 40; i++)
		if (i < len)
			stream[gen + i] = data[i] = IN8();
	gen += len;
	dst = data; if (dstlen < len) dstlen = len;
	return (ssize_t)len;
}
static unsigned slen; static int sret;
int jent_status(const struct rand_data *ec, char *buf, size_t n)
{
	CHECK(locks == 1 || !dev_fops, "the status read without the instance lock");
	CHECK(ec == cur && cur, "the status of a collector that is not the instance's");
	CHECK(n == 4096, "the status in a buffer of another size");
	if (sret)
		return sret;
	buf[0] = 's'; buf[1] = 't'; buf[2] = 'a'; buf[3] = 't';
	buf[slen] = 0;
	return 0;
}
static int uret;
int jent_uuid(const struct rand_data *ec, char *buf, size_t n)
{
	unsigned i;
	CHECK(ec == cur && cur, "the UUID of a collector that is not the instance's");
	CHECK(n >= JENT_UUID_STRLEN, "a UUID buffer that is too small");
	if (uret)
		return uret;
	for (i = 0; i < JENT_UUID_STRLEN; i++)
		buf[i] = cur->uuid[i];
	return 0;
}
static int bound;
int jent_selftest(struct rand_data *ec)
{
	int r = INBIT() ? 0 : (int)IN8();
	CHECK(!ec || (ec == cur && locks == 1), "a self test of a collector that is not the instance's, or without its lock");
	CHECK(!lib_failed || !ec, "the self test repeated after it has failed");
	bound = ec != NULL;
	tests++;
	if (r) {
		testfails++; faulty = 1;
		if (ec)
			lib_failed = 1;
	}
	return r;
}
unsigned int jent_version(void) { return 3070100; }
int jent_fips_enabled(void) { return fips_enabled; }
#ifndef WANTPROC
void jent_proc_instance_inc(void) { opened++; }
void jent_proc_instance_dec(void) { opened--; }
#endif
extern unsigned int *vp_param_selftest_interval;

static const int perm[] = { JENT_ERR_RCT_PERMANENT, JENT_ERR_APT_PERMANENT, JENT_ERR_LAG_PERMANENT, JENT_ERR_RCT_MEM_PERMANENT, JENT_ERR_SELFTEST };
static int err_ok(int rc, long ret)
{
	unsigned i;
	for (i = 0; i < sizeof(perm) / sizeof(perm[0]); i++)
		if (rc == perm[i])
			return ret == -EFAULT && !fips_enabled;
	switch (rc) {
	case JENT_ERR_RCT: case JENT_ERR_APT: case JENT_ERR_LAG: case JENT_ERR_RCT_MEM:
		return ret == -EAGAIN;
	case JENT_ERR_EINVAL: case JENT_ERR_NOTIME:
		return ret == -EINVAL;
	}
	return ret < 0 && ret != -EAGAIN;
}

static struct file fil;
static void setup(void)
{
	osr = IN8(); flags = IN32(); fips_enabled = INBIT();
	verbose = VERBOSE;
	swaps = INBIT();
	*vp_param_selftest_interval = INTERVAL;
}
static void balanced(void)
{
	CHECK(locks == 0, "a lock is still held");
	CHECK(mems == 0, "memory is left behind");
	CHECK(eclive == 0, "a collector is left behind");
	CHECK(!pending, "a self test is still scheduled");
	CHECK(opened == 0, "an instance is still counted");
}

enum { CHARDEV, HWRNG, KCAPI };
/* bring the interface up, as far as the kernel lets it */
static int up(int w)
{
	int r;
	if (w == CHARDEV) {
		ASSUME(!jent_chardev_init());
		return dev_fops->open(NULL, &fil);
	}
	if (w == HWRNG)
		return jent_hwrng_init();
	ASSUME(!jent_kcapi_init());
	return alg->base.cra_init(&tfm.base);
}
static void down(int w)
{
	if (w == CHARDEV) {
		CHECK(dev_fops->release(NULL, &fil) == 0, "a release fails");
		jent_chardev_exit();
	} else if (w == HWRNG)
		jent_hwrng_exit();
	else {
		alg->base.cra_exit(&tfm.base);
		jent_kcapi_exit();
	}
	CHECK(!dev_reg && !hw_reg && !alg_reg, "an interface is still registered");
}

#ifndef MAXN
# define MAXN 65
#endif
#ifndef LENS
# define LENS 1
#endif
static uint8_t out[MAXN + 8];
/* a read: every byte the caller gets is a generated one, or there is an error */
static void read_one(size_t n, int nb, int event, int k, int val)
{
	size_t i;
	long r;
	loff_t pos = 0;
	unsigned m = mems;
	clear();
	ev = event; evk = k; evv = val;
	for (i = 0; i < EV_LAST; i++)
		cnt[i] = 0;
	nomem = copies = 1;
	nonblock = nb;
	if (IFACE == CHARDEV) {
		fil.f_flags = nonblock ? O_NONBLOCK : 0;
		r = dev_fops->read(&fil, (char *)out, n, &pos);
	} else if (IFACE == HWRNG) {
		r = hw->read(hw, out, n, !nonblock);
	} else {
		nonblock = 0;
		r = alg->generate(&tfm, NULL, 0, out, (unsigned)n);
	}
	ev = EV_ANY;
	CHECK(locks == 0, "a lock is still held");
	CHECK(!(fips_enabled && faulty), "a permanent failure in FIPS mode goes on");
	CHECK(mems == m, "memory is left behind");
	if (IFACE == CHARDEV) {
		CHECK(r <= (long)n, "more bytes reported than asked for");
		if (done || r > 0) {
			CHECK(r >= (long)done && r <= (long)(done + part), "the count is not what was delivered");
			for (i = 0; i < MAXN; i++)
				if ((long)i < r)
					CHECK(out[i] == stream[i], "a delivered byte is not a generated one");
			if ((size_t)r < n)
				CHECK(e_lock || e_sig || e_err || e_fault || e_pend || nonblock, "a short read for no reason");
			if (nonblock)
				CHECK(r <= 32, "a non-blocking read without bound");
			DEV_WITNESS_IF(r > 0 && (r == (long)n || r == 32), "everything delivered");
			LONG_WITNESS_IF(r > 0 && e_err, "an error after some bytes");
		} else if (n == 0) {
			CHECK(r == 0, "an empty read fails");
		} else {
			CHECK(r < 0, "nothing delivered and no error");
			CHECK(!e_lock || r == -EAGAIN, "a refused lock is not -EAGAIN");
			CHECK(!e_sig || r == -ERESTARTSYS, "an interrupted wait is not -ERESTARTSYS");
			CHECK(!e_nomem || r == -ENOMEM, "no memory is not -ENOMEM");
			CHECK(!e_fault || r == -EFAULT, "a faulting buffer is not -EFAULT");
			CHECK(!e_err || err_ok(e_err, r), "a failure is not reported as the error it is");
			DEV_WITNESS_IF(e_lock, "lock refused");
			DEV_WITNESS_IF(e_sig, "interrupted");
			DEV_WITNESS_IF(e_fault, "fault");
			DEV_WITNESS_IF(e_err, "error");
		}
	} else {
		if (e_err) {
			CHECK(err_ok(e_err, r), "a failure is not reported as the error it is");
			NODEV_WITNESS_IF(e_err == JENT_ERR_LAG, "failure");
		} else if (e_lock) {
			CHECK(r == 0 && gen == 0 && nonblock, "a refused lock does not give nothing");
		} else if (e_sig) {
			CHECK(r == -ERESTARTSYS && gen == 0, "an interrupted wait is not -ERESTARTSYS");
		} else if (n) {
			CHECK(r == (IFACE == HWRNG ? (long)n : 0), "success is not reported as such");
			CHECK(gen == n, "not everything was generated");
			for (i = 0; i < MAXN; i++)
				if (i < n)
					CHECK(out[i] == stream[i], "a delivered byte is not a generated one");
		} else
			CHECK(r == 0, "an empty read fails");
	}
	for (i = 0; i < MAXN + 8; i++)
		if (i >= n)
			CHECK(out[i] == 0, "a byte outside the buffer is written");
	NOTK_WITNESS_IF(e_sig || e_lock, "no lock");
	WITNESS_IF(n && !e_sig && !e_lock && !e_err, "success");
}
HARNESS(h_read)
{
	static const size_t lens[] = { LENS };
	unsigned i;
	int e, k, v, nb = INBIT();
	setup();
	ASSUME(up(IFACE) == 0);
	for (i = 0; i < sizeof(lens) / sizeof(lens[0]); i++)
		for (e = EV_NONE; e < EV_LAST; e++)
			for (k = 0; k < 3; k++)
				for (v = 0; v < 16; v++) {
					if ((e == EV_NONE && k) || v >= (e == EV_ERR ? 16 : e == EV_FAULT ? 2 : 1))
						continue;
					/* the last of its kind is the chunk's that ends the request */
					if (k * 32 > lens[i])
						continue;
					if (INBIT()) {
						if (nb)
							read_one(lens[i], 1, e, k, v);
						else
							read_one(lens[i], 0, e, k, v);
						WITNESS("end");
						return;
					}
				}
}

/* one instance's life: whatever fails, nothing is left behind */
HARNESS(h_life)
{
	static uint8_t out[8];
	int r, k;
	loff_t pos = 0;
	struct seq_file sf;
	setup();
	uret = INBIT();
	jent_proc_dir = INBIT() ? proc_mkdir("x", NULL) : NULL;
	nomem = nodata = 1;
	r = IFACE == CHARDEV ? jent_chardev_init() : IFACE == KCAPI ? jent_kcapi_init() : 0;
	if (r) {
		CHECK(r < 0, "a failure that is no error code");
		CHECK(!dev_reg && !alg_reg, "a failed start leaves something registered");
		NOHW_WITNESS_IF(1, "start failed");
		return;
	}
	r = IFACE == CHARDEV ? dev_fops->open(NULL, &fil) : IFACE == HWRNG ? jent_hwrng_init() : alg->base.cra_init(&tfm.base);
	if (r) {
		CHECK(r < 0, "a failure that is no error code");
		balanced();
		if (IFACE == HWRNG)
			CHECK(!hw_reg, "a failed start leaves a device");
		WITNESS("open failed");
		return;
	}
	CHECK(eclive == 1 && work && work->work.fn, "an open instance without collector or self test");
	CHECK(pending == (INTERVAL != 0), "the periodic self test is not scheduled as configured");
	if (INTERVAL)
		CHECK(delay == (unsigned long)INTERVAL * HZ, "the periodic self test is scheduled for another time");
	CHECK(opened == (IFACE == CHARDEV), "the instance is not counted");
	if (IFACE != KCAPI && show_e && live(show_e) && INBIT()) {
		sf.private = show_data;
		slen = 4; sret = INBIT();
		shown = NULL;
		clear();
		r = show_fn(&sf, NULL);
		CHECK(r == (e_nomem ? -ENOMEM : e_sig ? -ERESTARTSYS : sret ? -EIO : 0), "the status file reports another outcome");
		CHECK((r == 0) == (shown != NULL), "the status is not shown");
		CHECK(!locks && mems == (IFACE == CHARDEV), "the status file leaves something behind");
		NOTK_WITNESS_IF(r == 0, "status shown");
	}
	for (k = 0; k < 2; k++) {
		if (pending && INBIT())
			run_work();
		if (INBIT()) {
			clear();
			if (IFACE == CHARDEV)
				dev_fops->read(&fil, (char *)out, 4, &pos);
			else if (IFACE == HWRNG)
				hw->read(hw, out, 4, 1);
			else
				alg->generate(&tfm, NULL, 0, out, 4);
			CHECK(!locks && mems == (IFACE == CHARDEV), "a read leaves something behind");
		}
	}
	down(IFACE);
	balanced();
	WITNESS("end");
}

/* the self tests of one instance, periodic and on demand */
HARNESS(h_self)
{
	static uint8_t out[8];
	struct jent_selftest_stats st;
	long r;
	unsigned k, before, q;
	loff_t pos = 0;
	setup();
	nodata = 1;
	ASSUME(up(IFACE) == 0);
	for (k = 0; k < 4; k++) {
		unsigned op = IN8();
		int was = lib_failed;
		before = tests; q = queued;
		clear();
		if (op == 0 && pending) {
			run_work();
			CHECK(tests == before + !was, "a periodic run tests not once, or again after a failure");
			CHECK(pending == !lib_failed, "a periodic run is not followed by the next one, or by one after a failure");
			CHECK(queued <= q + 1 && (queued == q || delay == (unsigned long)INTERVAL * HZ), "the next periodic run comes at another time");
		} else if (op == 1 && IFACE == CHARDEV) {
			cap_ok = INBIT(); cap_asked = 0;
			r = dev_fops->unlocked_ioctl(&fil, JENT_IOCSELFTEST, 0);
			if (!cap_ok) {
				CHECK(r == -EPERM && tests == before, "an unprivileged caller runs the self test");
				DEV_WITNESS_IF(1, "unprivileged");
			} else if (e_sig) {
				CHECK(r == -ERESTARTSYS && tests == before, "an interrupted self test");
			} else {
				CHECK(tests == before + !was, "the self test is not run once, or again after a failure");
				CHECK(r == (lib_failed ? -EFAULT : 0), "the verdict reported is another one");
				CHECK(bound, "the self test is not the instance's own");
				DEV_WITNESS_IF(was, "asked again after a failure");
			}
			CHECK(queued == q, "a self test on demand schedules another");
		} else if (op == 2) {
			r = IFACE == CHARDEV ? dev_fops->read(&fil, (char *)out, 4, &pos) : IFACE == HWRNG ? hw->read(hw, out, 4, 1) : alg->generate(&tfm, NULL, 0, out, 4);
			if (lib_failed && !e_sig)
				CHECK(r == -EFAULT, "an instance whose self test has failed delivers");
			WITNESS_IF(lib_failed, "read after failure");
		}
		CHECK(!(fips_enabled && faulty), "a failed self test in FIPS mode goes on");
		CHECK(locks == 0, "a lock is still held");
	}
	jent_selftest_get_stats(&st);
	CHECK(st.runs == tests && st.failures == testfails && st.interval == INTERVAL, "the statistics do not count the runs");
	WITNESS_IF(tests == 3, "three runs");
	WITNESS("end");
}

/* the interval is bounded before any instance exists */
HARNESS(h_interval)
{
	unsigned v = IN32();
	*vp_param_selftest_interval = v;
	verbose = 0; flags = 0;
	jent_selftest_init();
	v = v > 2592000 ? 2592000 : v;
	CHECK(*vp_param_selftest_interval == v, "the interval is not the configured one, or unbounded");
	ASSUME(up(CHARDEV) == 0);
	CHECK(pending == (v != 0), "the periodic self test is not scheduled as configured");
	CHECK(!v || delay == (unsigned long)v * HZ, "the periodic self test is scheduled for another time");
	WITNESS("end");
}

/* the queries of the character device and of the raw noise interface */
#ifdef RAW
static const unsigned fields[] = { JENT_IOCUUID, JENT_IOCVERSION, JENT_IOCOSR, JENT_IOCFLAGS, JENT_IOCHEALTH, JENT_IOCOUTPUT, JENT_IOCREINIT };
static const struct file_operations *fo;
static void start(void)
{
	setup();
	lockdown = 0;
	if (RAW) {
		ASSUME(jent_testing_init() == 0 && raw_fops);
		fo = raw_fops;
		ASSUME(fo->open(NULL, &fil) == 0);
	} else {
		ASSUME(up(CHARDEV) == 0);
		fo = dev_fops;
	}
	clear();
	copies = nomem = 1;
}
HARNESS(h_field)
{
	static union { uint32_t u32; uint64_t u64[2]; uint8_t b[48]; } u, was;
	unsigned c, i, size, m;
	long r;
	start();
	for (i = 0; i < JENT_UUID_STRLEN; i++)
		cur->uuid[i] = (char)IN8();
	cur->osr = IN32(); cur->flags = IN32(); cur->health_failure = IN32();
	cur->reinit_count = IN32(); cur->read_invocations = IN64(); cur->bytes_output = IN64();
	uret = INBIT();
	for (i = 0; i < 48; i++)
		u.b[i] = was.b[i] = (uint8_t)(0x55 + i);
	m = mems;
	for (c = 0; c < 7; c++) {
		if (!INBIT())
			continue;
		r = fo->unlocked_ioctl(&fil, fields[c], (unsigned long)&u);
		CHECK(locks == 0 && mems == m, "a query leaves something behind");
		size = 4;
		if (fields[c] == JENT_IOCUUID) {
			size = JENT_UUID_STRLEN;
			CHECK(uret || cur->uuid[0] || r == -ENODATA || e_sig, "an instance without UUID reports one");
			CHECK(!uret || r < 0, "a UUID that could not be had is reported");
			for (i = 0; i < JENT_UUID_STRLEN; i++)
				CHECK(r || u.b[i] == (uint8_t)cur->uuid[i], "not the instance's UUID");
			WITNESS_IF(r == 0, "uuid");
		} else if (fields[c] == JENT_IOCVERSION)
			CHECK(r || u.u32 == 3070100, "not the library's version");
		else if (fields[c] == JENT_IOCOSR)
			CHECK(r || u.u32 == cur->osr, "not the instance's oversampling rate");
		else if (fields[c] == JENT_IOCFLAGS)
			CHECK(r || u.u32 == cur->flags, "not the instance's flags");
		else if (fields[c] == JENT_IOCHEALTH)
			CHECK(r || u.u32 == (uint32_t)cur->health_failure, "not the instance's failures");
		else if (fields[c] == JENT_IOCREINIT)
			CHECK(r || u.u32 == cur->reinit_count, "not the instance's recoveries");
		else {
			size = 16;
			CHECK(r || (u.u64[0] == cur->read_invocations && u.u64[1] == cur->bytes_output), "not the instance's output counters");
			WITNESS_IF(r == 0, "output");
		}
		CHECK(r <= 0, "a query returns no error code");
		if (e_sig)
			CHECK(r == -ERESTARTSYS, "an interrupted wait is not -ERESTARTSYS");
		else if (e_fault)
			CHECK(r == -EFAULT, "a faulting buffer is not -EFAULT");
		else if (fields[c] != JENT_IOCUUID)
			CHECK(r == 0, "a query fails for no reason");
		else
			CHECK(r == 0 || uret || !cur->uuid[0], "a query fails for no reason");
		for (i = 0; i < 48; i++)
			if (i >= size || (r && !e_fault))
				CHECK(u.b[i] == was.b[i], "a query writes outside its answer");
		WITNESS("end");
		return;
	}
}
HARNESS(h_status)
{
	static struct jent_status_ioctl u;
	unsigned i, len, m;
	long r;
	start();
	slen = 4 + IN8();
	ASSUME(slen <= 7);
	for (i = 4; i < 8; i++)
		;
	sret = INBIT() ? -(int)IN8() : 0;
	u.buf = ustat_a = IN64(); u.length = len = IN32();
	for (i = 0; i < 16; i++)
		ustat[i] = 'U';
	m = mems;
	r = fo->unlocked_ioctl(&fil, JENT_IOCSTATUS, (unsigned long)&u);
	CHECK(locks == 0 && mems == m, "a query leaves something behind");
	CHECK(r <= 0, "a query returns no error code");
	if (r == 0) {
		/* the status ends at its first NUL: only the four letters are not */
		CHECK(len >= 5 && u.length == 5 && u.buf == ustat_a, "the length reported is not the status'");
		CHECK(ustat[0] == 's' && ustat[3] == 't' && ustat[4] == 0, "not the instance's status");
		WITNESS("status");
	} else if (e_sig)
		CHECK(r == -ERESTARTSYS, "an interrupted wait is not -ERESTARTSYS");
	else if (e_fault)
		CHECK(r == -EFAULT, "a faulting buffer is not -EFAULT");
	else if (e_nomem)
		CHECK(r == -ENOMEM, "no memory is not -ENOMEM");
	else if (sret)
		CHECK(r == -EIO, "a status that could not be had is not -EIO");
	else {
		CHECK(r == -EOVERFLOW && len < 5 && u.length == 5, "a buffer that is too small is not reported with the size needed");
		WITNESS("too small");
	}
	CHECK(r == 0 || e_fault || ustat[0] == 'U', "a failed query writes the status");
	for (i = 5; i < 16; i++)
		CHECK(ustat[i] == 'U', "the status is written outside its length");
	WITNESS("end");
}
HARNESS(h_ioctl_other)
{
	static uint64_t u[8];
	unsigned c = IN32(), i;
	start();
	for (i = 0; i < 7; i++)
		ASSUME(c != fields[i]);
	ASSUME(c != JENT_IOCSTATUS && c != JENT_IOCSELFTEST && (!RAW || c != JENT_IOCLOOPCNT));
	CHECK(fo->unlocked_ioctl(&fil, c, (unsigned long)u) == -ENOTTY, "an unknown query is answered");
	CHECK(locks == 0, "a lock is still held");
	WITNESS("end");
}
#endif

#if defined(RAW) && RAW
extern unsigned int *vp_param_testing_osr, *vp_param_testing_flags;
static uint64_t raws[8], rloop; static unsigned rawn, variant, primed;
static unsigned int measure(struct rand_data *ec, uint64_t loop, uint64_t *d, unsigned v)
{
	CHECK(ec == cur && locks == 1, "noise measured on another instance, or without the lock");
	CHECK(v == variant, "noise measured by another routine than the flags select");
	if (!d) {
		primed = 1;
		return 0;
	}
	CHECK(loop == rloop, "noise measured with another loop count");
	CHECK(v != 0 || primed, "the first sample follows a stale time stamp");
	ASSUME(rawn < 8);
	*d = raws[rawn++] = IN64();
	return INBIT();
}
unsigned int jent_measure_jitter(struct rand_data *ec, uint64_t l, uint64_t *d) { return measure(ec, l, d, 0); }
unsigned int jent_measure_jitter_ntg1_sha3(struct rand_data *ec, uint64_t l, uint64_t *d) { return measure(ec, l, d, 1); }
unsigned int jent_measure_jitter_ntg1_memaccess(struct rand_data *ec, uint64_t l, uint64_t *d) { return measure(ec, l, d, 2); }
static void raw_read(size_t n, int event, int val)
{
	static uint64_t o[4];
	long r;
	unsigned i;
	loff_t pos = 0;
	unsigned m = mems;
	clear();
	for (i = 0; i < EV_LAST; i++)
		cnt[i] = 0;
	ev = event; evk = 0; evv = val; nomem = copies = 1;
	r = raw_fops->read(&fil, (char *)o, n, &pos);
	CHECK(locks == 0 && mems == m, "a read leaves something behind");
	if (n % 8)
		CHECK(r == -EINVAL && rawn == 0, "a part of a sample is delivered");
	else if (e_sig || e_pend)
		CHECK(n == 0 || r == -ERESTARTSYS, "an interrupted read is not -ERESTARTSYS");
	else if (e_nomem)
		CHECK(r == -ENOMEM, "no memory is not -ENOMEM");
	else if (e_fault)
		CHECK(r == (val && n / 2 ? (long)(n / 2) : -EFAULT), "the count is not what was delivered");
	else
		CHECK(r == (long)n, "not everything delivered, and no error");
	for (i = 0; i < 3; i++)
		if (r > 0 && (i + 1) * 8 <= (unsigned long)r)
			CHECK(o[i] == raws[i], "a sample is not a measured one");
	CHECK(r <= 0 || pos == r, "the file position does not follow");
	WITNESS_IF(r == 24, "three samples");
}
HARNESS(h_raw)
{
	static const size_t lens[] = { 0, 1, 7, 8, 9, 16, 24 };
	unsigned f = IN32(), o = IN32(), i;
	int e, v;
	uint64_t lc = IN64();
	long r;
	*vp_param_testing_osr = o; *vp_param_testing_flags = f;
	variant = f & (1 << 15) ? 1 : f & (1 << 16) ? 2 : 0;
	osr = IN8(); verbose = 0;
	start();
	CHECK(raw_osr == o && raw_flags == f, "raw noise recorded with other parameters than asked for");
	CHECK(cur->is_fips_enabled, "raw noise recorded without health tests");
	*vp_param_testing_flags = IN32();	/* changed at run time: for later opens */
	clear();
	if (INBIT()) {
		rloop = lc;
		r = raw_fops->unlocked_ioctl(&fil, JENT_IOCLOOPCNT, (unsigned long)&lc);
		if (e_fault)
			CHECK(r == -EFAULT, "a faulting buffer is not -EFAULT");
		else if (rloop > UINT_MAX)
			CHECK(r == -EINVAL, "a loop count out of range is taken");
		else if (e_sig)
			CHECK(r == -ERESTARTSYS, "an interrupted wait is not -ERESTARTSYS");
		else
			CHECK(r == 0, "a loop count is refused");
		if (r)
			rloop = 0;
		CHECK(locks == 0, "a lock is still held");
		WITNESS_IF(r == 0, "loop count set");
	}
	for (i = 0; i < 7; i++)
		for (e = EV_NONE; e < EV_LAST; e++)
			for (v = 0; v < (e == EV_FAULT ? 2 : 1); v++)
				if (INBIT()) {
					raw_read(lens[i], e, v);
					WITNESS("end");
					return;
				}
}
/* who may open, and what remains */
HARNESS(h_rawlife)
{
	int r;
	unsigned n;
	setup();
	lockdown = INBIT();
	r = jent_testing_init();
	if (r || !raw_fops) {
		CHECK(r < 0 || (r == 0 && lockdown), "the raw noise interface is silently absent");
		if (r)
			CHECK(dbgs == 0, "a failed start leaves a directory");
		WITNESS_IF(r, "start failed");
		WITNESS_IF(!r, "locked down");
		return;
	}
	CHECK(!lockdown, "raw noise on a locked-down kernel");
	lockdown = INBIT();
	clear();
	nomem = 1;
	r = raw_fops->open(NULL, &fil);
	if (lockdown)
		CHECK(r == -EPERM, "raw noise opened on a locked-down kernel");
	else
		CHECK(r == (e_sig ? -ERESTARTSYS : e_nomem ? -ENOMEM : 0), "open reports another outcome");
	if (r) {
		balanced();
		WITNESS("open failed");
	} else {
		n = tests;
		cap_ok = INBIT();
		r = (int)raw_fops->unlocked_ioctl(&fil, JENT_IOCSELFTEST, 0);
		CHECK(cap_ok ? tests == n + 1 && !bound && r == (testfails ? -EFAULT : 0) : r == -EPERM && tests == n, "the self test does not report its own verdict, or to anybody");
		CHECK(raw_fops->release(NULL, &fil) == 0, "a release fails");
		balanced();
		WITNESS("closed");
	}
	jent_testing_exit();
	CHECK(dbgs == 0, "a directory is left behind");
	WITNESS("end");
}
#endif

#ifdef WANTMOD
extern int (*vp_module_init)(void); extern void (*vp_module_exit)(void);
extern bool *vp_param_ntg1, *vp_param_force_fips, *vp_param_cache_all;
static int initret, inits;
int jent_entropy_init_ex(unsigned int o, unsigned int f)
{
	CHECK(o == osr && f == flags, "the start tests run with another configuration");
	inits++;
	initret = INBIT() ? 0 : (int)IN8();
	if (initret)
		faulty = 1;
	return initret;
}
HARNESS(h_module)
{
	unsigned f, want;
	bool a, b, c;
	int r;
	struct seq_file sf;
	setup();
	f = flags; want = flags;
	*vp_param_ntg1 = a = INBIT(); *vp_param_force_fips = b = INBIT(); *vp_param_cache_all = c = INBIT();
	if (a) want |= JENT_NTG1;
	if (b) want |= JENT_FORCE_FIPS;
	if (c) want |= JENT_CACHE_ALL;
	lockdown = INBIT();
	r = vp_module_init();
	CHECK(inits == 1, "the start tests do not run once");
	CHECK(flags == want, "the flags are not the configured ones");
	CHECK(!initret || (r < 0 && !fips_enabled), "the module starts though its start tests fail");
	CHECK(r <= 0, "a failure that is no error code");
	if (r == 0) {
		CHECK(dev_reg && hw_reg && alg_reg, "started without an interface");
		show_osr(&sf, NULL);
		CHECK(printed == (osr < JENT_MIN_OSR ? JENT_MIN_OSR : osr), "another oversampling rate shown");
		show_ntg1(&sf, NULL);
		CHECK(printed == !!(want & JENT_NTG1), "another NTG.1 mode shown");
		show_fips(&sf, NULL);
		CHECK(printed == ((want & (JENT_NTG1 | JENT_FORCE_FIPS)) || fips_enabled), "another FIPS mode shown");
		show_flags(&sf, NULL);
		CHECK(printed == want, "other flags shown");
		WITNESS("started");
		vp_module_exit();
	} else
		WITNESS("failed");
	CHECK(!dev_reg && !hw_reg && !alg_reg, "an interface is left behind");
	CHECK(procs == 0 && dbgs == 0, "files are left behind");
	balanced();
	WITNESS("end");
}
#endif
