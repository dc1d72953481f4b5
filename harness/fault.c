/* Interposed on the allocation functions of the library: the n-th allocation fails. */
#define _GNU_SOURCE
#include <stdlib.h>
#include <string.h>
#include <stddef.h>

static long count, fail_at, hits, live;

static int fails(void)
{
	count += 1;
	if (fail_at && count == fail_at) {
		hits += 1;
		return 1;
	}
	return 0;
}

void fault_arm(long n) { count = 0; hits = 0; fail_at = n; }
long fault_count(void) { return count; }
long fault_hits(void) { return hits; }

/* blocks which the library holds */
long fault_live(void) { return live; }

static void* held(void* p)
{
	if (p)
		live += 1;
	return p;
}

void* pointless_malloc(size_t n) { return fails() ? 0 : held(malloc(n)); }
void* pointless_calloc(size_t n, size_t m) { return fails() ? 0 : held(calloc(n, m)); }

void* pointless_realloc(void* p, size_t n)
{
	if (fails())
		return 0;
	void* q = realloc(p, n);
	if (q && p == 0)
		live += 1;
	return q;
}

char* pointless_strdup(const char* s) { return fails() ? 0 : held(strdup(s)); }

void pointless_free(void* p)
{
	if (p)
		live -= 1;
	free(p);
}
