/*
 * Runs one generated lexer (LX_C, LX_HEADER) over the inputs in a file, one
 * per line in hex, and prints what it read as JSON: for each token its name,
 * where it began and ended (byte, line, column), and its text.
 */
#include LX_C

#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <unistd.h>
#include <fcntl.h>

#ifndef LX_FIXED_SIZE
#define LX_FIXED_SIZE 4096
#endif

static unsigned char in[65536];

int
main(int argc, char **argv)
{
	static char line[131080];
	FILE *f = fopen(argv[1], "r");
	int first;

	(void) argc;
	if (f == NULL) {
		return 2;
	}

	while (fgets(line, sizeof line, f) != NULL) {
		struct lx lx;
		size_t n = 0, i;
		FILE *src = NULL;
		int toks = 0;

		for (i = 0; line[i] != '\n' && line[i] != '\0' && line[i] != '-'; i += 2) {
			unsigned v;
			sscanf(line + i, "%2x", &v);
			in[n++] = v;
		}
		in[n] = '\0';

		lx_init(&lx);
#if defined(FROM_SGETC)
		const char *s = (const char *) in;
		lx.lgetc = lx_sgetc;
		lx.getc_opaque = &s;
#elif defined(FROM_AGETC)
		struct lx_arr arr;
		arr.p = (char *) in;
		arr.len = n;
		lx.lgetc = lx_agetc;
		lx.getc_opaque = &arr;
#elif defined(FROM_FDGETC)
		struct lx_fd d;
		char rb[3];
		int pfd[2];
		if (pipe(pfd) != 0 || write(pfd[1], in, n) != (ssize_t) n) {
			return 2;
		}
		close(pfd[1]);
		d.buf = rb; d.bufsz = sizeof rb; d.p = rb; d.len = 0; d.fd = pfd[0];
		lx.lgetc = lx_dgetc;
		lx.getc_opaque = &d;
#elif defined(FROM_FGETC)
		src = tmpfile();
		fwrite(in, 1, n, src);
		rewind(src);
		lx.lgetc = lx_fgetc;
		lx.getc_opaque = src;
#elif defined(FROM_STR)
		lx_input_str(&lx, (const char *) in);
#else
		{
			/* exactly sized, so that reading past it is noticed */
			char *exact = malloc(n + 1);
			memcpy(exact, in, n);
			exact[n] = 'Z';
			lx.p = exact; lx.e = exact + n;
		}
#endif

#if defined(BUF_FIXED)
		struct lx_fixedbuf buf;
		static char space[65536];
		memset(&buf, 0, sizeof buf);
		buf.a = space; buf.p = space; buf.len = sizeof space;
		lx.push = lx_fixedpush; lx.clear = lx_fixedclear;
		lx.buf_opaque = &buf;
#elif defined(BUF_DYN)
		struct lx_dynbuf buf;
		memset(&buf, 0, sizeof buf);
		lx.push = lx_dynpush; lx.clear = lx_dynclear; lx.free = lx_dynfree;
		lx.buf_opaque = &buf;
#endif

		putchar('[');
		first = 1;
		for (;;) {
			enum lx_token t = lx_next(&lx);
			printf("%s[\"%s\"", first ? "" : ",", lx_name(t));
			first = 0;
#ifndef NO_POS
			printf(",[%u,%u,%u],[%u,%u,%u]", lx.start.byte, lx.start.line, lx.start.col, lx.end.byte, lx.end.line, lx.end.col);
#else
			printf(",[],[]");
#endif
#if defined(BUF_FIXED) || defined(BUF_DYN)
			if (t != TOK_EOF && t != TOK_UNKNOWN && t != TOK_ERROR) {
				const char *p;
				printf(",\"");
				for (p = buf.a; p < buf.p - 1; p++) {
					printf("%02x", (unsigned char) *p);
				}
				printf("\",%d", buf.p > buf.a ? buf.p[-1] : 1);
			}
#endif
			putchar(']');
			if (t == TOK_EOF || t == TOK_ERROR || ++toks > 3000) {
				break;
			}
		}
		puts("]");
		fflush(stdout);

#if defined(BUF_DYN)
		lx_dynfree(&buf);
#endif
#if defined(FROM_FDGETC)
		close(pfd[0]);
#endif
		if (src != NULL) {
			fclose(src);
		}
	}

	return 0;
}
