/* Walks, iteration and printing by the C library, for a driver that loads this with ctypes. */
#include <pointless/pointless.h>
#include <pointless/pointless_debug.h>
#include <pointless/pointless_walk.h>
#include <pointless/pointless_reader_helpers.h>

pointless_t* h_open(const void* buffer, size_t n)
{
	const char* error = 0;
	pointless_t* p = malloc(sizeof(pointless_t));

	if (p && !pointless_open_b(p, buffer, n, &error)) {
		free(p);
		p = 0;
	}

	return p;
}

void h_close(pointless_t* p)
{
	pointless_close(p);
	free(p);
}

void h_root(pointless_t* p, pointless_value_t* v) { *v = *pointless_root(p); }

/* entries of a set or map with some hash; at most cap, returns how many */
uint32_t h_hashed(pointless_t* p, pointless_value_t* v, uint32_t hash, pointless_value_t* out, uint32_t cap)
{
	pointless_hash_iter_state_t s;
	pointless_value_t *k = 0, *w = 0;
	uint32_t n = 0;
	int set = v->type == POINTLESS_SET_VALUE;

	if (set)
		pointless_reader_set_iter_hash_init(p, v, hash, &s);
	else
		pointless_reader_map_iter_hash_init(p, v, hash, &s);

	while (n < cap && (set ? pointless_reader_set_iter_hash(p, v, hash, &k, &s) : pointless_reader_map_iter_hash(p, v, hash, &k, &w, &s))) {
		out[2 * n] = *k;
		if (set) {
			out[2 * n + 1].type = 0;
			out[2 * n + 1].data.data_u32 = 0;
		} else
			out[2 * n + 1] = *w;
		n++;
	}

	return n;
}

/* the text, to be freed by h_free; 0 if it failed without reason or the other way round */
char* h_print(pointless_t* p, pointless_value_t* v, int root, size_t* n, int* ok)
{
	char* b = 0;
	const char* error = 0;
	FILE* f = open_memstream(&b, n);
	*ok = root ? pointless_debug_print(p, f, &error) : pointless_debug_print_value(p, v, f, &error);
	fclose(f);
	*ok = *ok && error == 0 ? 1 : 0;
	return b;
}

void h_free(void* b) { free(b); }
