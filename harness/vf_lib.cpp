// C library functions the code under test calls, written out so that they can be executed symbolically.
// Linked only into the IR, never into the native replay, where the real library is used.
#include <cerrno>
#include <climits>
#include <cstddef>
#include <cstdint>
extern "C" {
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isspace(int c) { return c == ' ' || (c >= '\t' && c <= '\r'); }
int isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int isalnum(int c) { return isdigit(c) || isalpha(c); }
int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
int strcmp(const char *a, const char *b) {
	while (*a && *a == *b)
		a++, b++;
	return (unsigned char)*a - (unsigned char)*b;
}
int strncmp(const char *a, const char *b, size_t n) {
	for (; n; n--, a++, b++) {
		if (*a != *b)
			return (unsigned char)*a - (unsigned char)*b;
		if (!*a)
			return 0;
	}
	return 0;
}
char *strchr(const char *s, int c) {
	for (;; s++) {
		if (*s == (char)c)
			return (char *)s;
		if (!*s)
			return nullptr;
	}
}
char *strcpy(char *d, const char *s) {
	char *r = d;
	while ((*d++ = *s++))
		;
	return r;
}
char *strncpy(char *d, const char *s, size_t n) {
	size_t i = 0;
	for (; i < n && s[i]; i++)
		d[i] = s[i];
	for (; i < n; i++)
		d[i] = 0;
	return d;
}
size_t strnlen(const char *s, size_t n) {
	size_t i = 0;
	while (i < n && s[i])
		i++;
	return i;
}
// C locale semantics of strtol for base 10
long strtol(const char *s, char **end, int base) {
	const char *p = s;
	while (isspace((unsigned char)*p))
		p++;
	bool neg = false;
	if (*p == '+' || *p == '-')
		neg = *p++ == '-';
	unsigned long v = 0;
	bool any = false, over = false;
	const unsigned long lim = neg ? (unsigned long)LONG_MAX + 1 : LONG_MAX;
	while (*p >= '0' && *p <= '9') {
		unsigned d = *p - '0';
		if (v > (lim - d) / 10)
			over = true;
		else
			v = v * 10 + d;
		any = true;
		p++;
	}
	if (end)
		*end = (char *)(any ? p : s);
	if (over)
		return neg ? LONG_MIN : LONG_MAX;
	return neg ? (long)(0 - v) : (long)v;
}
unsigned long strtoul(const char *s, char **end, int base) { return (unsigned long)strtol(s, end, base); }
long __isoc23_strtol(const char *s, char **end, int base) { return strtol(s, end, base); }
unsigned long __isoc23_strtoul(const char *s, char **end, int base) { return strtoul(s, end, base); }
int atoi(const char *s) { return (int)strtol(s, nullptr, 10); }
int abs(int x) { return x < 0 ? -x : x; }
long labs(long x) { return x < 0 ? -x : x; }
}
