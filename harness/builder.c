/* The creation interface, for drivers that load this with ctypes: room for its state. */
#include <pointless/pointless.h>
#include <stdlib.h>

pointless_create_t* b_new(int bits)
{
	pointless_create_t* c = calloc(1, sizeof(*c));

	if (bits == 32)
		pointless_create_begin_32(c);
	else
		pointless_create_begin_64(c);

	return c;
}

void b_free(pointless_create_t* c) { free(c); }
void* b_block(size_t n) { return pointless_malloc(n); }
void b_unblock(void* p) { pointless_free(p); }
