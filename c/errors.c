/* pbtools_error_code_to_string: every documented code has its own text, the
 * same for both signs, and every other code the one text for unknown codes. */
#include "pbtools.c"
#include "specmode.h"

static const char *text(int code)
{
    switch (code) {
    case 0: return "Ok";
    case PBTOOLS_BAD_WIRE_TYPE: return "Bad wire type";
    case PBTOOLS_OUT_OF_DATA: return "Out of data";
    case PBTOOLS_OUT_OF_MEMORY: return "Out of memory";
    case PBTOOLS_ENCODE_BUFFER_FULL: return "Encode buffer full";
    case PBTOOLS_BAD_FIELD_NUMBER: return "Bad field number";
    case PBTOOLS_VARINT_OVERFLOW: return "Varint overflow";
    case PBTOOLS_SEEK_OVERFLOW: return "Seek overflow";
    case PBTOOLS_LENGTH_DELIMITED_OVERFLOW: return "Length delimited overflow";
    default: return "Unknown error";
    }
}

static _Bool same(const char *a_p, const char *b_p)
{
    int i;

    for (i = 0; i < 40; i++) {
        if (a_p[i] != b_p[i]) {
            return 0;
        }

        if (a_p[i] == 0) {
            return 1;
        }
    }

    return 0;
}

int nondet_int(void);

void h_error_strings(void)
{
    int code = nondet_int();
    const char *s_p;

    __CPROVER_assume(code > INT_MIN);
    s_p = pbtools_error_code_to_string(code);
    __CPROVER_assert(s_p != NULL, "a text for every code");
    __CPROVER_assert(same(s_p, text(code < 0 ? -code : code)),
                     "the text of the code, whatever its sign");
    __CPROVER_assert(code != -8, "PROBE a negative code");
    __CPROVER_assert(code != 3, "PROBE a positive code");
    __CPROVER_assert(code != 99, "PROBE an unknown code");
}
