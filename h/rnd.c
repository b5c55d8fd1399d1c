/* Operating system randomness and the identifier made of it. */
#include "vp.h"
#include "jitterentropy.h"
#include "jitterentropy-internal.h"
#if POSIX
#include <fcntl.h>
#include <sys/types.h>

#define NB 5
#define PAD 2
static uint8_t area[NB + 2 * PAD];
static uint8_t from[NB + 2 * PAD];	/* who wrote the byte last: 1 getrandom, 2 the device */
static size_t len;
static unsigned int calls, opens, closes, fd_open, eof, hard_get, hard_dev, get_calls, no_dev;
/* how much arrives, as the kernel decides */
static ssize_t deliver(uint8_t *buf, size_t n, uint8_t who)
{
	uint8_t what = IN8();
	size_t k = IN8(), i, off = (size_t)(buf - area);

	ASSUME(++calls <= NCALLS);
	CHECK(off >= PAD && off <= PAD + len && n <= PAD + len - off, "asks only for bytes of the buffer");
	ASSUME(off >= PAD && off <= PAD + len && n <= PAD + len - off);
	if (what == 1) {
		errno = EINTR;
		return -1;
	}
	if (what == 2) {
		errno = IN8();
		ASSUME(errno != EINTR && errno);
		if (who == 1)
			hard_get = 1;
		else
			hard_dev = 1;
		return -1;
	}
	if (what == 3 && who == 2) {
		eof = 1;
		return 0;
	}
	ASSUME(k >= 1 && k <= n);
	for (i = 0; i < NB; i++)
		if (i < k) {
			area[off + i] = who;
			from[off + i] = who;
		}
	return (ssize_t)k;
}
ssize_t getrandom(void *buf, size_t n, unsigned int flags)
{
	CHECK(flags == 0, "blocks until the generator is seeded");
	get_calls++;
	return deliver(buf, n, 1);
}
int open(const char *path, int flags, ...)
{
	static const char want[] = "/dev/urandom";
	unsigned int i;

	for (i = 0; i < sizeof(want); i++) {
		CHECK(path[i] == want[i], "the system's generator and no other file");
		if (path[i] != want[i])
			break;
	}
	CHECK((flags & O_ACCMODE) == O_RDONLY && !(flags & (O_CREAT | O_TRUNC)), "opened for reading");
	if (no_dev) {
		errno = ENOENT;
		return -1;
	}
	CHECK(!fd_open, "one descriptor");
	opens++;
	fd_open = 1;
	return 7;
}
ssize_t read(int fd, void *buf, size_t n)
{
	CHECK(fd == 7 && fd_open, "reads what it opened");
	return deliver(buf, n, 2);
}
int close(int fd)
{
	CHECK(fd == 7 && fd_open, "closes what it opened");
	fd_open = 0;
	closes++;
	return 0;
}

HARNESS(h_random)
{
	int ret;
	unsigned int i;

	len = IN8();
	ASSUME(len <= NB);
	no_dev = INBIT();
	ret = jent_os_random_bytes(area + PAD, len);
	CHECK(jent_os_random_supported() == 1, "supported");
	CHECK(ret == 0 || ret == -1, "success or failure");
	CHECK(opens == closes, "no descriptor is left open");
	for (i = 0; i < sizeof(area); i++) {
		if (i < PAD || i >= PAD + len)
			CHECK(!from[i] && !area[i], "nothing is written outside");
		else if (!ret)
			CHECK(from[i] && area[i] == from[i], "success means that every byte is random");
	}
	if (ret)
		CHECK(no_dev || hard_dev || eof, "fails only when the device fails");
	if (ret && !ONLYDEV)
		CHECK(hard_get, "the device is the fallback only");
	WITNESS_IF(ret == 0 && len == NB && opens, "from the device");
	WITNESS_IF(ret == 0 && len == NB && calls >= 4, "in pieces");
	WITNESS_IF(ret && eof, "end of file");
}
#else
HARNESS(h_none)
{
	uint8_t b[3] = { 9, 9, 9 };

	CHECK(jent_os_random_supported() == 0, "not supported");
	CHECK(jent_os_random_bytes(b, 3) == -1, "never claims success without randomness");
	WITNESS("done");
}
#endif
