/*
 * The part of the Linux kernel's API that /repo/linux_kernel uses, as seen by
 * the solver: declarations here, behaviour in h/kern.c, where every call may
 * have any outcome the kernel allows.
 */
#ifndef VPK_H
#define VPK_H
#define VPK_IN 1
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>
#include <limits.h>
#include <string.h>
#include <stdio.h>
#include <errno.h>
#include <sys/types.h>
#include <linux/types.h>
#include <linux/ioctl.h>
#undef VPK_IN
#define ERESTARTSYS	512
typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64;
typedef int64_t s64; typedef int32_t s32;
#ifndef O_NONBLOCK
# define O_NONBLOCK	00004000
#endif
#define __init
#define __exit
#define __user
#define __maybe_unused	__attribute__((unused))
#define fallthrough	do { } while (0)
#define GFP_KERNEL	0u
#define THIS_MODULE	((void *)0)
#define KBUILD_MODNAME	"jitter_rng"
#define S_IRUSR 0400
#define S_IWUSR 0200
#define S_IRGRP 040
#define S_IROTH 04
#define KERNEL_VERSION(a, b, c)	(((a) << 16) + ((b) << 8) + (c))
#define LINUX_VERSION_CODE	KERNEL_VERSION(6, 8, 0)
#define HZ	250
#define ARRAY_SIZE(x)	(sizeof(x) / sizeof((x)[0]))
#define BUILD_BUG_ON(c)	((void)sizeof(char[1 - 2 * !!(c)]))
#define min_t(t, a, b)	((t)(a) < (t)(b) ? (t)(a) : (t)(b))
#define max_t(t, a, b)	((t)(a) > (t)(b) ? (t)(a) : (t)(b))
#define min(a, b)	((a) < (b) ? (a) : (b))
#define max(a, b)	((a) > (b) ? (a) : (b))
#define READ_ONCE(x)	(*(volatile __typeof__(x) *)&(x))
#define WRITE_ONCE(x, v) (*(volatile __typeof__(x) *)&(x) = (v))
#define likely(x)	(x)
#define unlikely(x)	(x)
/* IS_ENABLED of a macro defined as 1, as the kernel does it */
#define VPK_ARG_1	0,
#define VPK_2ND(x, v, ...) v
#define VPK_EN2(x)	VPK_2ND(x 1, 0, 0)
#define VPK_EN1(v)	VPK_EN2(VPK_ARG_##v)
#define IS_ENABLED(o)	VPK_EN1(o)
#define container_of(p, t, m)	((t *)((char *)(p) - offsetof(t, m)))
#define to_delayed_work(w)	container_of(w, struct delayed_work, work)
#define module_param(n, t, p)	__typeof__(n) *vp_param_##n = &n
#define MODULE_PARM_DESC(n, d)	struct vpk_unused
#define MODULE_LICENSE(x)	struct vpk_unused
#define MODULE_AUTHOR(x)	struct vpk_unused
#define MODULE_DESCRIPTION(x)	struct vpk_unused
#define MODULE_ALIAS_CRYPTO(x)	struct vpk_unused
#define module_init(f)	int (*vp_module_init)(void) = f
#define module_exit(f)	void (*vp_module_exit)(void) = f

extern int fips_enabled;
void vpk_log(void);
void panic(const char *fmt, ...);
#define pr_err(...)	vpk_log()
#define pr_warn(...)	vpk_log()
#define pr_info(...)	vpk_log()
#define pr_notice(...)	vpk_log()
#define pr_debug(...)	vpk_log()
#define pr_err_ratelimited(...)	vpk_log()
#define pr_warn_ratelimited(...) vpk_log()
#define pr_info_ratelimited(...) vpk_log()
struct ratelimit_state { int x; };
#define DEFAULT_RATELIMIT_INTERVAL 1
#define DEFAULT_RATELIMIT_BURST 1
#define DEFINE_RATELIMIT_STATE(n, a, b)	struct ratelimit_state n = { 0 }
int __ratelimit(struct ratelimit_state *s);
char *vpk_strsep(char **s, const char *d);
#define strsep	vpk_strsep
int vpk_snprintf(char *b, size_t n);
#define snprintf(b, n, ...)	vpk_snprintf(b, n)

struct mutex { int up; int held; };
#define DEFINE_MUTEX(n)	struct mutex n = { 1, 0 }
void mutex_init(struct mutex *m);
void mutex_destroy(struct mutex *m);
void mutex_lock(struct mutex *m);
int mutex_lock_interruptible(struct mutex *m);
int mutex_lock_killable(struct mutex *m);
int mutex_trylock(struct mutex *m);
void mutex_unlock(struct mutex *m);

void *kvmalloc(size_t n, unsigned g);
void *kvzalloc(size_t n, unsigned g);
void kvfree(const void *p);
void kvfree_sensitive(const void *p, size_t n);
#define kmalloc		kvmalloc
#define kzalloc		kvzalloc
#define kfree		kvfree
void kfree_sensitive(const void *p);
void memzero_explicit(void *p, size_t n);

unsigned long copy_to_user(void *to, const void *from, unsigned long n);
unsigned long copy_from_user(void *to, const void *from, unsigned long n);
void *vpk_user(u64 a);
#define u64_to_user_ptr(x)	vpk_user(x)
struct task_struct;
#define current		((struct task_struct *)0)
int signal_pending(struct task_struct *t);
int need_resched(void);
void cond_resched(void);
void schedule(void);
#define CAP_SYS_ADMIN	21
bool capable(int cap);

typedef struct { int v; } atomic_t;
typedef struct { int64_t v; } atomic64_t;
#define ATOMIC_INIT(x)		{ (x) }
#define ATOMIC64_INIT(x)	{ (x) }
static inline int atomic_read(const atomic_t *a) { return a->v; }
static inline void atomic_inc(atomic_t *a) { a->v++; }
static inline void atomic_dec(atomic_t *a) { a->v--; }
static inline void atomic_set(atomic_t *a, int v) { a->v = v; }
static inline void atomic_add(int n, atomic_t *a) { a->v += n; }
static inline void atomic_sub(int n, atomic_t *a) { a->v -= n; }
static inline int64_t atomic64_read(const atomic64_t *a) { return a->v; }
static inline void atomic64_inc(atomic64_t *a) { a->v++; }
static inline void atomic64_add(int64_t n, atomic64_t *a) { a->v += n; }
static inline int atomic_inc_return(atomic_t *a) { return ++a->v; }
static inline int64_t atomic64_inc_return(atomic64_t *a) { return ++a->v; }

struct inode;
typedef int64_t vpk_loff_t;
#define loff_t	vpk_loff_t
struct file { void *private_data; unsigned f_flags; };
struct file_operations {
	void *owner;
	int (*open)(struct inode *, struct file *);
	int (*release)(struct inode *, struct file *);
	ssize_t (*read)(struct file *, char *, size_t, loff_t *);
	ssize_t (*write)(struct file *, const char *, size_t, loff_t *);
	loff_t (*llseek)(struct file *, loff_t, int);
	long (*unlocked_ioctl)(struct file *, unsigned int, unsigned long);
	long (*compat_ioctl)(struct file *, unsigned int, unsigned long);
};
long compat_ptr_ioctl(struct file *, unsigned int, unsigned long);
#define MISC_DYNAMIC_MINOR 255
struct miscdevice { int minor; const char *name; const struct file_operations *fops; unsigned mode; };
int misc_register(struct miscdevice *m);
void misc_deregister(struct miscdevice *m);

struct seq_file { void *private; };
struct proc_dir_entry { struct proc_dir_entry *parent; int removed; };
struct proc_dir_entry *proc_mkdir(const char *n, struct proc_dir_entry *p);
struct proc_dir_entry *proc_create_single_data(const char *n, unsigned mode, struct proc_dir_entry *p,
					       int (*show)(struct seq_file *, void *), void *data);
#define proc_create_single(n, m, p, s)	proc_create_single_data(n, m, p, s, NULL)
void proc_remove(struct proc_dir_entry *e);
void seq_puts(struct seq_file *m, const char *s);
void vpk_seq(struct seq_file *m, const char *fmt, unsigned long a);
#define VPK_FIRST(a, ...)	((unsigned long)(a))
#define seq_printf(m, f, ...)	vpk_seq(m, f, VPK_FIRST(__VA_ARGS__ __VA_OPT__(,) 0, 0))

struct dentry { int removed; };
struct dentry *debugfs_create_dir(const char *n, struct dentry *p);
struct dentry *debugfs_create_file(const char *n, unsigned mode, struct dentry *p, void *d, const struct file_operations *f);
void debugfs_remove_recursive(struct dentry *d);
#define debugfs_remove debugfs_remove_recursive
#define LOCKDOWN_DEBUGFS 7
int security_locked_down(int what);
#define IS_ERR(p)	((uintptr_t)(p) >= (uintptr_t)-4095)
#define PTR_ERR(p)	((long)(intptr_t)(p))
#define ERR_PTR(e)	((void *)(intptr_t)(e))
#define IS_ERR_OR_NULL(p) (!(p) || IS_ERR(p))

struct hwrng {
	const char *name;
	int (*init)(struct hwrng *);
	void (*cleanup)(struct hwrng *);
	int (*read)(struct hwrng *, void *, size_t, bool);
	unsigned long priv;
	unsigned short quality;
};
int hwrng_register(struct hwrng *r);
void hwrng_unregister(struct hwrng *r);

struct crypto_tfm { void *ctx; };
struct crypto_rng { struct crypto_tfm base; };
static inline void *crypto_tfm_ctx(struct crypto_tfm *t) { return t->ctx; }
static inline void *crypto_rng_ctx(struct crypto_rng *t) { return t->base.ctx; }
static inline struct crypto_tfm *crypto_rng_tfm(struct crypto_rng *t) { return &t->base; }
struct crypto_alg {
	const char *cra_name, *cra_driver_name;
	int cra_priority; unsigned cra_ctxsize; void *cra_module; unsigned cra_flags, cra_alignmask;
	int (*cra_init)(struct crypto_tfm *);
	void (*cra_exit)(struct crypto_tfm *);
};
struct rng_alg {
	int (*generate)(struct crypto_rng *, const u8 *, unsigned int, u8 *, unsigned int);
	int (*seed)(struct crypto_rng *, const u8 *, unsigned int);
	unsigned seedsize;
	struct crypto_alg base;
};
int crypto_register_rng(struct rng_alg *a);
void crypto_unregister_rng(struct rng_alg *a);

struct work_struct { void (*fn)(struct work_struct *); };
struct delayed_work { struct work_struct work; int pending; };
struct workqueue_struct;
#define system_power_efficient_wq	((struct workqueue_struct *)0)
#define system_wq			((struct workqueue_struct *)0)
#define system_long_wq			((struct workqueue_struct *)0)
#define system_unbound_wq		((struct workqueue_struct *)0)
void vpk_init_work(struct delayed_work *w, void (*fn)(struct work_struct *));
#define INIT_DELAYED_WORK(w, f)		vpk_init_work(w, f)
#define INIT_DEFERRABLE_WORK(w, f)	vpk_init_work(w, f)
bool queue_delayed_work(struct workqueue_struct *q, struct delayed_work *w, unsigned long d);
#define mod_delayed_work	queue_delayed_work
#define schedule_delayed_work(w, d)	queue_delayed_work(NULL, w, d)
bool cancel_delayed_work_sync(struct delayed_work *w);
bool cancel_delayed_work(struct delayed_work *w);

static inline u64 div64_u64(u64 a, u64 b) { return a / b; }
static inline u64 div64_u64_rem(u64 a, u64 b, u64 *r) { *r = a % b; return a / b; }

/* further services a changed module may use */
#define WARN_ON(c)		(!!(c))
#define WARN_ON_ONCE(c)		(!!(c))
#define BUG_ON(c)		do { } while (0)
#define pr_warn_once(...)	vpk_log()
#define pr_err_once(...)	vpk_log()
#define pr_info_once(...)	vpk_log()
#define pr_notice_ratelimited(...) vpk_log()
#define pr_crit(...)		vpk_log()
#define printk(...)		vpk_log()
#define printk_ratelimited(...)	vpk_log()
#define lockdep_assert_held(m)	do { } while (0)
#define lockdep_assert_not_held(m) do { } while (0)
#define mutex_is_locked(m)	((m)->held)
#define might_sleep()		do { } while (0)
#define clamp_t(t, v, l, h)	min_t(t, max_t(t, v, l), h)
#define clamp(v, l, h)		min(max(v, l), h)
#define swap(a, b)		do { __typeof__(a) vpk_t = (a); (a) = (b); (b) = vpk_t; } while (0)
#define kvcalloc(n, s, g)	kvzalloc((n) * (s), g)
#define kcalloc(n, s, g)	kvzalloc((n) * (s), g)
#define kvmalloc_array(n, s, g)	kvmalloc((n) * (s), g)
#define kmalloc_array(n, s, g)	kvmalloc((n) * (s), g)
#define vmalloc(n)		kvmalloc(n, 0)
#define vzalloc(n)		kvzalloc(n, 0)
#define vfree			kvfree
#define delayed_work_pending(w)	((w)->pending)
#define secs_to_jiffies(s)	((unsigned long)(s) * HZ)
#define msecs_to_jiffies(m)	((unsigned long)(m) * HZ / 1000)
#define static_assert		_Static_assert
#define IS_REACHABLE		IS_ENABLED
#define __always_inline		inline __attribute__((always_inline))
#define noinline		__attribute__((noinline))
#define __must_check
#define __cold
#define __read_mostly
#define __ro_after_init
#define fatal_signal_pending	signal_pending
#define signal_pending_state(s, t) signal_pending(t)
#define ns_capable(n, c)	capable(c)
#define EXPORT_SYMBOL(x)	struct vpk_unused
#define EXPORT_SYMBOL_GPL(x)	struct vpk_unused
static inline unsigned long vpk_clean(struct mutex **m) { if (*m) mutex_unlock(*m); return 0; }
#define guard(x)		struct mutex *vpk_guard __attribute__((cleanup(vpk_clean))) = vpk_lock
static inline struct mutex *vpk_lock(struct mutex *m) { mutex_lock(m); return m; }
#endif
