/* C functions of the library, for drivers that load this with ctypes. */
#include <pointless/pointless.h>
#include <string.h>

static int sign(int c) { return (c > 0) - (c < 0); }

/* the k items of the first item of the root vector of both files; each is a vector of one item */
int compare_all(const void* a, size_t na, const void* b, size_t nb, int k, int* out)
{
	pointless_t p[2];
	const char* error = 0;
	pointless_create_t c;
	int i, j, ok = 0;

	if (!pointless_open_b(&p[0], a, na, &error))
		return 0;
	if (!pointless_open_b(&p[1], b, nb, &error)) {
		pointless_close(&p[0]);
		return 0;
	}

	pointless_value_t* w[2];
	pointless_create_begin_64(&c);
	uint32_t* h[2];

	for (i = 0; i < 2; i++) {
		pointless_value_t* items = pointless_reader_vector_value(&p[i], pointless_root(&p[i]));
		w[i] = pointless_reader_vector_value(&p[i], &items[0]);
		h[i] = calloc(k + 1, sizeof(uint32_t));
		if ((int)pointless_reader_vector_n_items(&p[i], &items[0]) != k)
			goto end;
		for (j = 0; j < k; j++) {
			h[i][j] = pointless_recreate_value(&p[i], &w[i][j], &c, &error);
			if (h[i][j] == POINTLESS_CREATE_VALUE_FAIL)
				goto end;
		}
	}

	for (i = 0; i < k; i++) {
		for (j = 0; j < k; j++) {
			pointless_complete_value_t x = pointless_reader_vector_value_case(&p[0], &w[0][i], 0);
			pointless_complete_value_t y = pointless_reader_vector_value_case(&p[1], &w[1][j], 0);
			int* o = out + (i * k + j) * 4;
			error = 0;
			o[0] = sign(pointless_cmp_reader(&p[0], &x, &p[1], &y, &error));
			if (error) {
				/* sets and maps: the variant for acyclic values must not be used */
				o[0] = o[1] = 3;
			} else
				o[1] = sign(pointless_cmp_reader_acyclic(&p[0], &x, &p[1], &y));
			error = 0;
			o[2] = sign(pointless_cmp_create(&c, h[0][i], h[1][j], &error));
			if (error)
				o[2] = 3;
			error = 0;
			o[3] = sign(pointless_cmp_create(&c, h[1][j], h[0][i], &error));
			if (error)
				o[3] = 3;
		}
	}
	ok = 1;
end:
	pointless_create_end(&c);
	free(h[0]);
	free(h[1]);
	pointless_close(&p[0]);
	pointless_close(&p[1]);
	return ok;
}
