From fa93e310b8433fc9f3890f585e1fc5d255df9c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:24:49 +0000
Subject: [PATCH 1/3] fix: make the self test latch a full word

jent_selftest() may run on another thread while the collector generates.
As a bitfield its store is a read-modify-write of the word shared with
apt_base_set, in_recovery and friends, so either side could lose the
other's update - including the latch itself.
---
 src/jitterentropy-internal.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jitterentropy-internal.h b/src/jitterentropy-internal.h
index e962148..30a5bcc 100644
--- a/src/jitterentropy-internal.h
+++ b/src/jitterentropy-internal.h
@@ -568,7 +568,7 @@ struct rand_data
 	 * mode. A full word rather than a bitfield: the self test may run on
 	 * another thread, and setting a bitfield would rewrite its neighbors.
 	 */
-	unsigned int selftest_failed:1;
+	unsigned int selftest_failed;
 
 #ifdef JENT_CONF_ENABLE_INTERNAL_TIMER
 	volatile uint8_t notime_interrupt;	/* indicator to interrupt ctr */
-- 
2.43.0


From 2e5928707e4c9fc4cb61499df9f9870e5ce7a369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:25:06 +0000
Subject: [PATCH 2/3] fix: carry the self test verdict over to the reallocated
 collector

A jent_selftest() failure bound to a collector stops it permanently. When
it was recorded while the collector also ran into an intermittent health
failure, jent_read_entropy_safe() replaced the collector by one without
the verdict and went on producing output.
---
 src/jitterentropy-base.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/jitterentropy-base.c b/src/jitterentropy-base.c
index 142a82b..c8b86c9 100644
--- a/src/jitterentropy-base.c
+++ b/src/jitterentropy-base.c
@@ -447,6 +447,9 @@ static int jent_health_failure_reset(
 	new_ec->read_invocations = (*ec)->read_invocations;
 	new_ec->bytes_output = (*ec)->bytes_output;
 
+	/* A failed self test bound to the instance outlives the reallocation. */
+	new_ec->selftest_failed = (*ec)->selftest_failed;
+
 	jent_entropy_collector_free(*ec);
 	*ec = new_ec;
 
-- 
2.43.0


From 00c2232d7f5546ca41c56ddd6c2520a5399fe419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:25:06 +0000
Subject: [PATCH 3/3] fix: unmark the self tests when they fail during
 initialization

A failing known answer or GCD self test made jent_entropy_init*() return
without clearing the mark that the self tests passed, so a following
jent_entropy_collector_alloc() skipped them and handed out a collector.
---
 src/jitterentropy-base.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jitterentropy-base.c b/src/jitterentropy-base.c
index c8b86c9..9da6753 100644
--- a/src/jitterentropy-base.c
+++ b/src/jitterentropy-base.c
@@ -1205,7 +1205,7 @@ int jent_entropy_init(void)
 	int ret = jent_entropy_init_common_pre(0);
 
 	if (ret)
-		return ret;
+		return jent_entropy_init_common_post(ret);
 
 	ret = jent_time_entropy_init(0, JENT_DISABLE_INTERNAL_TIMER);
 
@@ -1233,7 +1233,7 @@ int jent_entropy_init_ex(unsigned int osr, unsigned int flags)
 	ret = jent_entropy_init_common_pre(flags);
 
 	if (ret)
-		return ret;
+		return jent_entropy_init_common_post(ret);
 
 	/*
 	 * NTG.1 forbids the internal timer, and the collector allocation
-- 
2.43.0

