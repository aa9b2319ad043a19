/* C11: every name longer than 127 characters is refused, whatever its length and its characters */
#include <primitive/table.h>
#include <primitive/column.h>
#ifdef VP_CBMC
#define LONGEST ((uint64_t)1 << 40)
static const char *long_name;
static size_t long_len;
/* contract of strlen for the one string there is; reading at or behind its end is an error of bounds */
size_t strlen(const char *s)
{
	VP_ENSURE(s == long_name, "long.strlen: only the name is measured");
	return long_len;
}
#else
#define LONGEST ((uint64_t)1 << 17)
#endif
void harness(void)
{
	int which = vp_choice(0, 1);
	uint64_t n = vp_u64();
#ifdef VP_CBMC
	VP_REQUIRE(n > TABLE_MAX_NAME && n <= LONGEST);
#else
	n = n % 4 ? TABLE_MAX_NAME + 1 + n / 4 % 600 : TABLE_MAX_NAME + 1 + n / 4 % (LONGEST - TABLE_MAX_NAME);
#endif
	char *s = malloc(n + 1);
	VP_REQUIRE(s != NULL);
	for (int i = 0; i < TABLE_MAX_NAME + 2; i++) {
		uint8_t c = vp_u8();
#ifdef VP_CBMC
		VP_REQUIRE(c != 0 || (uint64_t)i == n);
		if ((uint64_t)i <= n) s[i] = c;
#else
		if ((uint64_t)i <= n) s[i] = c < 8 ? "@`{[/:. "[c] : c % 52 < 26 ? 'a' + c % 26 : 'A' + c % 26;
#endif
	}
#ifdef VP_CBMC
	long_name = s;
	long_len = n;
#else
	for (uint64_t i = TABLE_MAX_NAME + 2; i < n; i++) s[i] = 'x';
	s[n] = 0;
#endif
	VP_ENSURE(!(which ? table_validate_column_name(s) : table_validate_name(s)), "long.refused: a name of more than 127 characters is refused");
	VP_COVER("long");
}
