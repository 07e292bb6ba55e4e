/* Freestanding stand-in for the headers of a foreign platform (C13). */
#ifdef NDEBUG
#define assert(x) ((void)0)
#else
#define assert(x) ((x) ? (void)0 : __builtin_trap())
#endif
