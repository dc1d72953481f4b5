/* Files opened by the C library, for drivers that load this with ctypes. */
#include <pointless/pointless.h>
#include <pointless/pointless_eval.h>
#include <pointless/pointless_reader_helpers.h>

pointless_t* h_open(const void* buffer, size_t n)
{
	const char* error = 0;
	pointless_t* p = malloc(sizeof(pointless_t));

	if (p && !pointless_open_b(p, buffer, n, &error)) {
		free(p);
		p = 0;
	}

	return p;
}

void h_close(pointless_t* p)
{
	pointless_close(p);
	free(p);
}

void h_root(pointless_t* p, pointless_value_t* v) { *v = *pointless_root(p); }
int64_t h_int(pointless_value_t* v) { return pointless_get_int_as_int64(v->type, &v->data); }
float h_float(pointless_value_t* v) { return pointless_value_get_float(v->type, &v->data); }
uint32_t h_bool(pointless_value_t* v) { return pointless_value_get_bool(v->type, &v->data); }
