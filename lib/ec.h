/* A collector in an arbitrary state. */
#ifndef VP_EC_H
#define VP_EC_H
#include "vp.h"
#include "jitterentropy-base.h"
#include "jitterentropy-internal.h"
#include "jitterentropy-health.h"
#include "jitterentropy-noise.h"
#include "jitterentropy-sha3.h"
#include "jitterentropy-timer.h"
#include "jitterentropy-gcd.h"

/* Everything the health tests keep, with no constraint whatsoever. */
static inline void sym_health(struct rand_data *ec)
{
	unsigned int i;

	ec->rct_count = IN32();
	ec->apt_observations = IN32();
	ec->apt_count = IN32();
	ec->apt_base = IN64();
	ec->apt_base_set = INBIT();
	ec->health_failure = IN32();
	ec->rct_mem_ctr = IN16();
	ec->rct_mem_nosr = IN16();
	ec->rct_mem_count = IN16();
	ec->in_recovery = INBIT();
	ec->lag_prediction_success_count = IN32();
	ec->lag_prediction_success_run = IN32();
	ec->lag_best_predictor = IN32();
	ec->lag_observations = IN32();
	for (i = 0; i < JENT_LAG_HISTORY_SIZE; i++) {
		ec->lag_delta_history[i] = IN64();
		ec->lag_scoreboard[i] = IN32();
	}
}

static inline void sym_cutoffs(struct rand_data *ec)
{
	ec->rct_cutoff = IN16();
	ec->rct_cutoff_permanent = IN16();
	ec->apt_cutoff = IN32();
	ec->apt_cutoff_permanent = IN32();
	ec->rct_mem_cutoff = IN16();
	ec->rct_mem_cutoff_permanent = IN16();
	ec->lag_global_cutoff = IN32();
	ec->lag_global_cutoff_permanent = IN32();
	ec->lag_local_cutoff = IN32();
	ec->lag_local_cutoff_permanent = IN32();
}

static inline enum jent_startup_state sym_startup(void)
{
	uint8_t v = IN8();

	ASSUME(v <= 2);
	return v == 0 ? jent_startup_completed :
	       v == 1 ? jent_startup_sha3 : jent_startup_memory;
}

static inline unsigned int sym_osr(void)
{
	unsigned int osr = IN32();

	ASSUME(osr >= JENT_MIN_OSR && osr <= JENT_MAX_OSR);
	return osr;
}
#endif
