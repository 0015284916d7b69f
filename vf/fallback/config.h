/* Used only when /repo/config.h has not been generated. */
#ifndef CONFIG_H
#define CONFIG_H
int pledge(const char *, const char *);
#endif
