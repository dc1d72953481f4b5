/* Contexts of integer expressions, with whatever the memory held before. */
#include <pointless/pointless_int_ops.h>
#include <string.h>

intop_eval_context_t* h_new(const unsigned char* fill, int n)
{
	unsigned char* c = malloc(sizeof(intop_eval_context_t));
	size_t i;

	for (i = 0; c && i < sizeof(intop_eval_context_t); i++)
		c[i] = n ? fill[i % n] : 0;

	return (intop_eval_context_t*)c;
}

void h_free(intop_eval_context_t* c) { free(c); }

/* the operations on the operands of the 64-bit type; the other types have no more values */
#define OPS(T, V) \
static void T##_op(int f, const uint64_t* a, const uint64_t* b, int ao, int bo, uint64_t* r, int* o) \
{ \
	intop_##T##_t x = intop_##T##_init((V)*a), y = intop_##T##_init((V)*b), z; \
	x.is_overflow |= ao; \
	y.is_overflow |= bo; \
	z = f ? intop_##T##_mult(x, y) : intop_##T##_add(x, y); \
	*r = z.value; \
	*o = z.is_overflow; \
}

OPS(sizet, size_t)
OPS(u32, uint32_t)
OPS(u64, uint64_t)

void h_arith(int t, int f, int n, const uint64_t* a, const uint64_t* b, const int* ao, const int* bo, uint64_t* r, int* o)
{
	int i;

	for (i = 0; i < n; i++)
		(t == 0 ? sizet_op : t == 1 ? u32_op : u64_op)(f, a + i, b + i, ao[i], bo[i], r + i, o + i);
}

uint64_t h_init(int t, uint64_t v, int* o)
{
	intop_sizet_t s = intop_sizet_init((size_t)v);
	intop_u32_t u = intop_u32_init((uint32_t)v);
	intop_u64_t w = intop_u64_init(v);

	*o = t == 0 ? s.is_overflow : t == 1 ? u.is_overflow : w.is_overflow;
	return t == 0 ? s.value : t == 1 ? u.value : w.value;
}
