/*@ {
 'inst': [],
 'link': 'ALL',
 'assumes': [],
 'proofs': [
  {'name': 'program', 'fn': 'parser_exec', 'mode': 'native', 'bounded': 'b_format', 'jobs': 8, 'count': 60000, 'search_s': 150, 'cost': 50, 'reason': 'whole programs through lexer, parser and document'},
 ],
} @*/
/*
 * End to end: generated programs keep their lexical elements. A stand-in for
 * the parser, which no contract within reach covers as a whole.
 */
#include "vf.h"
#undef errno
#include "config.h"
#include "e2e.h"
